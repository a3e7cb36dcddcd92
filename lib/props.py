def R(entry, quick, thorough=None, **k):
    d = {"entry": entry, "quick": quick, "thorough": thorough or quick}
    d.update(k)
    return d


PROPS = {
    "C01": {
        "crate": "analysis", "feature": "position",
        "runs": [
            R("h_position_offsets", [{0: 6}, {0: 4, 1: 3}, {0: 4, 1: 5}], [{0: 9}, {0: 7, 1: 3}, {0: 7, 1: 5}],
              covers=["offset inside a character", "several lines", "non-ascii"],
              bounds="every UTF-8 text of exactly p0 bytes, alone or between fixed multi-line pieces (p1); every byte offset"),
            R("h_position_back", [{0: 5}, {0: 4, 1: 3}, {0: 3, 1: 4}], [{0: 7}, {0: 6, 1: 3}, {0: 5, 1: 4}],
              covers=["position converted"], bounds="as above with any u32 line and any u32 character"),
            R("h_position_engine", [{0: 6}, {0: 4, 1: 3}], [{0: 8}, {0: 6, 1: 3}], covers=["engine positions"],
              bounds="as above, through the engine's registered file"),
            R("h_position_update", [{0: 4}], [{0: 6}], covers=["updated"],
              bounds="3 fixed previous texts and every previous text of p0 or p0+1 bytes over {a, newline} x every UTF-8 text of p0 bytes"),
        ],
    },
    "C02": {
        "crate": "analysis", "feature": "erb",
        "runs": [
            R("h_erb_mask", [{0: 7}] + [{0: 6, 1: k} for k in (1, 2, 3, 4)], [{0: 9}] + [{0: 8, 1: k} for k in (1, 2, 3, 4)],
              covers=["ruby body", "unclosed tag"],
              bounds="every UTF-8 template of p0 bytes, alone or spliced into 4 fixed tag skeletons (p1)"),
            R("h_erb_tags", [{0: 9}], [{0: 12}], covers=["ruby body", "unclosed tag"],
              bounds="every template of p0 bytes over < % > # = - a newline"),
            R("h_erb_document", [{0: 5}, {0: 4, 1: 2}], [{0: 6}, {0: 6, 1: 2}], covers=["erb document"],
              bounds="editor document opened or updated with every template of p0 bytes"),
        ],
    },
    "C03": {
        "crate": "analysis", "feature": "types",
        "runs": [
            R("h_union", [{0: 2, 1: 8}], [{0: 3, 1: 6}], covers=["unknown alternative", "value in the union", "value outside the union"],
              bounds="every choice of p0 alternatives among leaves with symbolic literal names, unions, arrays, hashes, one-field shapes, Unknown; every value up to one level of nesting"),
            R("h_union_order", [{0: 2, 1: 8}, {0: 3, 1: 1}], [{0: 3, 1: 6}], covers=["proven"], bounds="as above; order, grouping, repetition, missing proofs"),
            R("h_union_shapes", [{0: 10}], [{0: 12}], covers=["too many shapes", "all kept"], bounds="p0 shapes, each equal to or different from the one before"),
            R("h_nil", [{0: 6}], [{0: 9}], covers=["nil removed", "subtracted"], bounds="types as above, every value as above"),
            R("h_widen", [{0: 9}], covers=["literal widened"], bounds="types as above, every value as above"),
        ],
    },
    "C04": {
        "crate": "analysis", "feature": "types",
        "runs": [
            R("h_subtype", [{0: 5, 1: 5}], [{0: 9, 1: 9}], covers=["accepted"], bounds="every pair of types as in C03 and every value up to one level of nesting"),
            R("h_shape_subtype", [{0: 1, 1: 1, 2: 2}, {0: 1, 1: 2, 2: 1}, {0: 2, 1: 1, 2: 1}], [{0: 2, 1: 2, 2: 1}, {0: 1, 1: 2, 2: 2}, {0: 2, 1: 1, 2: 2}, {0: 1, 1: 1, 2: 2, 3: 4, 6: 1}],
              covers=["accepted", "rejected", "generic view"],
              bounds="every pair of shapes with p0 and p1 fields (symbolic keys, required or optional, exact/open/rest) and every Hash value with p2 entries"),
            R("h_shape_new", [{0: 3}], [{0: 4}], covers=["built", "refused"], bounds="every list of p0 fields with symbolic keys, known and unknown evidence"),
            R("h_shape_bounds", [{}], covers=["bounds"], bounds="field counts 30..34, nesting depths 1..10 through arrays, hashes, unions"),
        ],
    },
    "C05": {
        "crate": "server", "feature": "sched",
        "runs": [
            R("h_scheduler", [{0: 1, 1: 3, 3: 2}, {0: 2, 1: 3, 3: 3}, {0: 1, 1: 2, 2: 1, 3: 3}, {0: 2, 1: 2, 2: 1, 3: 2, 4: 3}],
              [{0: 1, 1: 3, 3: 4}, {0: 2, 1: 3, 3: 4}, {0: 1, 1: 2, 2: 2, 3: 4}, {0: 2, 1: 4, 3: 3, 4: 3}, {0: 2, 1: 2, 2: 1, 3: 3, 4: 3}],
              covers=["admitted", "cancelled while queued", "abandoned", "released", "focus moved", "fairness used", "drained"],
              bounds="limit p0, p1 runs queued at the start and p2 later, p3 steps of any kind in any order, p4 projects, symbolic priorities"),
        ],
    },
    "C06": {
        "crate": "server", "feature": "governor",
        "runs": [
            R("h_governor", [{0: 3, 1: 1, 2: 2}, {0: 3, 1: 2, 2: 1}, {0: 3, 1: 1, 2: 4, 3: 3}, {0: 3, 1: 1, 2: 8}, {0: 2, 1: 1, 2: 15}, {0: 3, 1: 1, 2: 3}, {0: 5, 1: 0, 2: 18, 3: 3, 4: 1, 5: 3}],
              [{0: 3, 1: 2, 2: 2}, {0: 3, 1: 2, 2: 3}, {0: 3, 1: 2, 2: 4, 3: 3}, {0: 3, 1: 2, 2: 8}, {0: 2, 1: 2, 2: 15}, {0: 4, 1: 1, 2: 1}, {0: 5, 1: 0, 2: 18, 3: 3, 4: 1, 5: 4}, {0: 5, 1: 1, 2: 18, 3: 3, 4: 1, 5: 3}],
              covers=["admitted", "cancelled while queued", "abandoned while running", "finished", "focus moved", "fairness used", "drained"],
              bounds="p0 work items with symbolic CPU, memory and I/O claims (p2 selects which vary), p1 steps of any kind in any order, task limit p3; with p4 all items first wait behind one that fills the memory"),
        ],
    },
    "C07": {
        "crate": "server", "feature": "flight",
        "runs": [
            R("h_flight_blocking", [{0: 4}, {0: 5, 1: 2}], [{0: 6}, {0: 7, 1: 2}], covers=["hit", "failed", "evicted"],
              bounds="p0 requests over p1 keys, symbolic weights, weight limit and outcomes, entry limits 1 and 2"),
            R("h_flight_history", [{0: 5, 1: 2, 2: 0}, {0: 6, 1: 3, 2: 1}, {0: 5, 1: 3, 2: 1, 3: 2}, {0: 5, 1: 2, 2: 2}],
              [{0: 7, 1: 2, 2: 0}, {0: 7, 1: 3, 2: 1}, {0: 7, 1: 3, 2: 1, 3: 2}, {0: 7, 1: 2, 2: 2}],
              covers=["hit", "joined", "failed", "abandoned", "finished"],
              bounds="p0 steps (request, end of a build with any outcome and weight, abandoned request) in any order over p1 keys, cache kind p2, p3 entries, on tokio's real current-thread runtime"),
            R("h_flight_async", [{0: 2, 1: 0}, {0: 2, 1: 1}, {0: 2, 1: 2}, {0: 3, 1: 1, 2: 1}], [{0: 3, 1: k, 2: 2} for k in (0, 1, 2)],
              covers=["joined", "retried", "finished"],
              bounds="p0 consumers on tokio's real current-thread runtime, symbolic start and work delays up to p2 polls, any outcome, one consumer aborted"),
        ],
    },
    "C08": {
        "crate": "analysis", "feature": "engine",
        "runs": [
            R("h_engine_history", [{0: 3}, {0: 3, 3: 1}, {0: 2, 1: 3}], [{0: 3}, {0: 3, 3: 1}, {0: 2, 1: 3}, {0: 2, 1: 3, 3: 1}],
              covers=["compared"],
              bounds="p0 replacements of the facts of any of p1 files (2 by default) by any of the harness's fact sets (namespaces, links of any kind, methods, references, removal), each resolved at once, deferred or deferred and queried in between; the consumer nested or at top level (p3); compared with a fresh engine holding the same facts"),
            R("h_index_facts", [{0: 3}, {0: 2, 1: 1}], [{0: 4}, {0: 3, 1: 1}], covers=["compared"],
              bounds="p0 replacements of either of two files' facts, for each of 12 kinds of facts with two different versions or none, resolved at once or deferred; every query and the engine's own result fingerprint compared (p1: places symbolic, fingerprints left out)"),
        ],
    },
    "C09": {
        "crate": "analysis", "feature": "engine",
        "runs": [
            R("h_dispatch", [{0: 0}, {0: 1, 2: 1}, {0: 0, 1: 1, 2: 1}, {0: 1, 1: 1}, {3: 2}, {0: 1, 1: 1, 2: 1, 3: 2}],
              [{0: a, 1: b, 2: c, 3: d} for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 2)],
              covers=["found", "undefined", "super found", "super of a module found", "not public"],
              bounds="two classes and two modules (one with p3), every superclass/include/prepend combination in which no module is reached twice, symbolic order of the mixins, every subset of definitions, instance and singleton side (p0), direct and lazily resolved links (p1), one or two files (p2), with p3 symbolic visibility of every definition and symbolic later changes of it"),
        ],
    },
    "C10": {
        "crate": "analysis", "feature": "engine",
        "runs": [
            R("h_constants", [{}], [{}, {1: 1}, {0: 1}], covers=["resolved", "unresolved", "renamed"],
              bounds="every subset of 5 (p0: 7) nested names defined as namespaces (p1: or values) in either or both files at symbolic places, the second file of symbolic origin, every context and one- or two-segment use at a symbolic place"),
        ],
    },
    "C11": {
        "crate": "analysis", "feature": "engine",
        "runs": [
            R("h_hierarchy", [{0: 2}, {0: 2, 1: 1}], [{0: 4}, {0: 4, 1: 1}], covers=["related", "implementor"],
              bounds="two classes and two modules, up to p0 links of symbolic kind (lazily resolved with p1), every subset of definitions"),
            R("h_call_hierarchy", [{0: 3}], [{0: 4}], covers=["calls"],
              bounds="three methods in two files, p0 calls between any of them at symbolic places"),
        ],
    },
    "C12": {
        "crate": "analysis", "feature": "engine",
        "runs": [
            R("h_call_arity", [{0: 2, 1: 1}, {0: 1, 1: 1, 2: 1}, {0: 2, 1: 0, 2: 1}], [{0: 3, 1: 1}, {0: 2, 1: 1, 2: 1}, {0: 3, 1: 0, 2: 1}, {0: 2, 1: 2}],
              covers=["wrong number of arguments", "unknown keyword", "missing keyword", "accepted"],
              bounds="p0 parameters of symbolic kind, 0..5 positional and p1 keyword arguments, with p2 splats, keyword splats, a trailing hash and their symbolic contents"),
            R("h_call_unresolved", [{0: 0}, {0: 1}], covers=["unknown ancestor", "defined"],
              bounds="a class with superclass, mixin and nested mixin, each known or not, every subset of definitions, symbolic mixin kind, instance and singleton side"),
        ],
    },
    "C13": {
        "crate": "analysis", "feature": "engine",
        "runs": [
            R("h_edit_scope", [{0: 0}, {0: 1}, {0: 2}], covers=["body only", "exports changed"],
              bounds="two versions of a class with any subset of two mixins, definitions or visibility changes in any order (p0), a second file using it through inheritance; places of definitions and bodies symbolic"),
            R("h_edit_exports", [{}], covers=["nothing visible changed", "something visible changed"],
              bounds="all pairs of 22 variants of a file's facts, all places symbolic"),
        ],
    },
    "C14": {
        "crate": "analysis", "feature": "engine",
        "runs": [
            R("h_rename_method", [{0: 0}, {0: 1}, {0: 2}, {0: 3}], covers=["renamed", "refused", "call kept its target"],
              bounds="two classes and a module in a project file or a gem, inheritance, include and prepend, every subset of definitions of the old name and (p0=0) of the new one, with (1) a singleton method of the same name, super and a symbolic change of visibility, (2) calls with explicit receivers, (3) a call on a union; calls of both names on both classes; the cursor at every offset"),
        ],
    },
    "C15": {
        "crate": "jvm", "feature": "classfile",
        "runs": [
            R("h_descriptor", [{0: 4}, {0: 4, 1: 1}, {0: 4, 1: 2}, {0: 5, 1: 3}], [{0: 6}, {0: 6, 1: 1}, {0: 6, 1: 2}, {0: 7, 1: 3}],
              covers=["field descriptor", "method descriptor"],
              bounds="every descriptor of p0 symbolic bytes, alone or (p1) inside a longer one; up to 300 array dimensions"),
            R("h_class_name", [{0: 6}], [{0: 9}], covers=["malformed name", "well-formed name"], bounds="every class name of p0 symbolic bytes"),
            R("h_class_file", [{0: k} for k in range(8)], covers=["malformed", "well-formed"],
              bounds="a class with a field, a method with code and debug information, an inner class, a record component and annotations; p0 selects which flags, constant indices, parameter names and attribute contents are symbolic (every 16-bit value)"),
            R("h_class_damaged", [{0: 0}, {0: 1}], [{0: 0}, {0: 1}, {0: 2}], covers=["cut off", "continued"],
              bounds="a class file cut off anywhere, continued, or (p0=2) with any value of any one byte"),
            R("h_class_limits", [{}], covers=["within the limits", "beyond the limits"], bounds="symbolic limits of every kind against a fixed class"),
            R("h_class_constants", [{0: 0}, {0: 1}, {0: 2}], covers=["well-formed constants", "malformed constants"],
              bounds="one constant of any tag and content before or after those a class uses; any version and class index"),
            R("h_class_annotations", [{0: 9}, {0: 8, 1: 1}], [{0: 12}, {0: 11, 1: 1}], covers=["well-formed annotation", "malformed annotation"],
              bounds="an annotation value of p0 symbolic bytes, alone or in an array (p1), on the class, a field, a method or a record component"),
            R("h_class_module", [{1: 0}, {1: 1}] + [{0: 10, 1: k} for k in (2, 3, 4, 5)], [{1: 0}, {1: 1}] + [{0: 16, 1: k} for k in (2, 3, 4, 5)],
              covers=["well-formed module", "malformed module"], bounds="a module descriptor in which p0 bytes of the part selected by p1 are symbolic"),
            R("h_class_attributes", [{}], covers=["well-formed attribute", "malformed attribute"], bounds="each attribute that is read, repeated, too long by any byte or too short"),
            R("h_archive_limits", [{}], covers=["archive within the limits", "archive beyond the limits"], bounds="symbolic limits of every kind against a fixed archive"),
            R("h_archive_release", [{0: 0}, {0: 1}], covers=["class selected", "no version applies"],
              bounds="every subset of 5 versions of a class in a jar or jmod, 6 manifests, any JDK release"),
            R("h_archive_damaged", [{0: 1}], covers=["cut off"], bounds="an archive of two classes cut off anywhere"),
        ],
    },
    "C16": {
        "crate": "analysis", "feature": "yard",
        "runs": [
            R("h_yard_cursor", [{0: 1, 1: 2}, {0: 0, 1: 3}], [{0: 2, 1: 2}, {0: 1, 1: 3}], covers=["the cursor is on an entry", "after the list", "outside a comment"],
              bounds="a list of p1 entries with symbolic names, one of them a generic, array or hash type nested p0 deep; any cursor column; lines with multi-byte and surrogate-pair text before and after"),
            R("h_yard_tags", [{0: 1, 1: 2, 2: k, 7: 2} for k in (0, 3, 6)] + [{0: 1, 1: 1, 2: 1, 7: 2}] + [{0: 0, 1: 1, 2: k, 7: 2} for k in (2, 4, 5)],
              [{0: 2, 1: 2, 2: k, 7: 2} for k in (0, 1, 3, 6)] + [{0: 1, 1: 2, 2: k, 7: 2} for k in (2, 4, 5)],
              covers=["param", "option", "return", "yieldparam", "yieldreturn", "raise"],
              bounds="each tag kind (p2) with p1 types nested p0 deep, symbolic names, six layouts of the surrounding comment (indentation, line endings, other tags, non-ASCII text)"),
            R("h_yard_convert", [{0: 2, 1: 2, 7: 0}, {0: 2, 1: 1, 7: 0}, {0: 0, 1: 1, 7: 2}], [{0: 3, 1: 2, 7: 0}, {0: 3, 1: 1, 7: 0}, {0: 1, 1: 1, 7: 2}],
              covers=["one type", "several types"], bounds="p1 alternatives nested p0 deep; class names symbolic (p7=2) or one of two, so that alternatives coincide or differ"),
        ],
    },
    "C17": {
        "crate": "server", "feature": "demand",
        "runs": [
            R("h_demand", [{0: 4}, {0: 4, 2: 1}, {0: 3, 1: 15}, {0: 2, 1: 16}], [{0: 5}, {0: 5, 2: 1}, {0: 4, 1: 15}, {0: 3, 1: 16}],
              covers=["waits", "target processed", "stage complete", "superseded", "cancelled", "saturated", "drained", "late"],
              bounds="every history of p0 operations (request, drain, claim, complete, finish a stage, cancel, replace) on both stages and up to 3 keys, p1 other keys outstanding, one operation from any other generation; waiters polled always or (p2) only when woken"),
            R("h_demand_key", [{0: 3}], [{0: 4}], covers=["key"], bounds="names of p0 symbolic ASCII bytes, alone or after other characters"),
            R("h_status", [{0: 3}], [{0: 5}], covers=["ready", "failed", "cancelled", "replaced", "stale"],
              bounds="every history of p0 operations with symbolic run numbers, phases and 64-bit progress counts that keep the callers' obligations"),
        ],
    },
    "C18": {
        "crate": "server", "feature": "products",
        "runs": [
            R("h_reuse", [{0: a, 1: 1} for a in range(8)] + [{0: 5, 1: 0}], [{0: a, 1: 0} for a in range(8)] + [{0: 1, 1: 0, 2: 0}], covers=["kept", "stored"],
              bounds="one file's declarations of aspect p0 (symbols, methods, block contracts, visibility, types, graph, unresolved graph, constants' bodies), all choices of kinds, names, owners and types, four ordered symbolic positions (p1=1 below 128, p1=0 any u32), both file identities symbolic, directly and through the stored form"),
            R("h_foreign", [{0: a, 1: k} for a in range(8) for k in (0, 1, 99)], [{0: a, 1: k} for a in range(8) for k in (0, 1, 2, 3, 4, 5, 6, 7, 99)], covers=["refused"],
              bounds="any one range of aspect p0 moved to any other file; symbolic positions and file"),
            R("h_private", [{}], [{}], covers=["refused"],
              bounds="each kind of project-specific fact and each place a generated owner can stand in, within types nested one level, with an ordinary declaration before, after or absent"),
            R("h_request", [{}], [{}], covers=["bound", "refused", "decoded"],
              bounds="two gems' files; the second request unchanged or changed in one of fourteen ways; three ways of binding, directly and through the stored form; positions symbolic"),
            R("h_entry", [{0: k, 1: f, 2: d} for k in range(3) for (f, d) in ((0, 0), (0, 1), (1, 0), (1, 3), (2, 3), (3, 0), (3, 1), (4, 0))] + [{0: k, 1: 0, 2: 2} for k in range(3)],
              [{0: k, 1: f, 2: d} for k in range(3) for (f, d) in ((0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (1, 2), (1, 3), (2, 1), (2, 3), (3, 0), (3, 1), (3, 2), (3, 3), (4, 0), (4, 1), (4, 3))], covers=["refused"],
              bounds="a stored gem, archive or extension product with one header field (p1) symbolic in all bytes, whole, torn at any byte, one payload byte changed to any value, or one symbolic byte longer (p2)"),
            R("h_wasm", [{1: f, 2: d} for (f, d) in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (3, 1), (4, 0), (5, 0), (5, 1), (1, 2))],
              [{1: f, 2: d} for (f, d) in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (5, 0), (5, 1))], covers=["refused"],
              bounds="stored native code asked for by its own or another extension or compiler, one header field (p1) symbolic, whole, torn at any byte or one code byte changed (p2)"),
        ],
    },
}

HOOKS = {
    "guard": "cargo features rsx-demand-hooks and rsx-product-hooks (ruby-fast-lsp), rsx-hooks (ruby-analysis); off by default",
    "enable": "features demand and products of /verif/harness/server/Cargo.toml",
    "source_commits": ["019a0f5"],
}
