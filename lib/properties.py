"""Source of properties.jsonl (run: python3 lib/properties.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "crates/ruby-analysis/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, where):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": mech, "where": where}], "hook_needed": None}})


prop("C01", "Editor positions and byte offsets convert exactly",
     "For every UTF-8 text and every byte offset, the reported position is the LSP position of that offset (zero-based line counted by newlines, character counted in UTF-16 code units, offsets inside a character rounded down to its start), and converting the position back yields the same offset. Positions past the end of a line mean that line's end and lines past the last mean the end of the text. This holds for the open editor document, for the engine's registered copy of the file (which answers nothing for offsets inside a character or past the end), and after any edit.",
     ["inputs"], "all UTF-8 texts, all byte offsets, all (line, character) pairs",
     "Tests convert a handful of literal strings; the mapping must be right for every mixture of 1-4 byte characters, newlines and boundary positions.",
     [A + "indexer/source_document.rs", A + "indexer/ruby_document.rs", A + "engine/state.rs"],
     "line offset table and UTF-16 walk", "SourceDocument::{offset_to_line_character,line_character_to_offset}, SourceFile::byte_offset_to_line_character")
prop("C02", "ERB templates expose exactly their Ruby code, in place",
     "For every template text, the Ruby source analysed for it has the same length, keeps every line break and every byte inside a Ruby tag body at the same offset, and is blank everywhere else (each non-empty Ruby tag's terminator becomes a statement separator). Comment tags, escaped tags and unclosed tags contribute no Ruby; the first unclosed tag is reported; an offset or editor position counts as Ruby exactly when it lies in a Ruby tag body.",
     ["inputs"], "all UTF-8 template texts, opened or edited in the editor",
     "Tests mask five literal templates; delimiter overlap, trimming markers, multi-byte text and unclosed tags combine in ways only an exhaustive reading covers.",
     [A + "indexer/erb.rs", A + "indexer/ruby_document.rs"],
     "masking scanner", "mask_erb, EmbeddedRuby::is_ruby_offset, RubyDocument::is_ruby_position")
prop("C03", "Joining, narrowing and widening types loses and invents no values",
     "A union type denotes exactly the values of its alternatives, is canonical (flat, sorted, without duplicates), does not depend on the order, grouping or repetition of the alternatives, and is Unknown as soon as one alternative is Unknown or unproven, or when more Hash shapes than the documented limit are joined - never a silently smaller set. Making a type nilable adds nil and nothing else; removing nil removes nil and nothing else; subtracting a type removes only values of that type; widening literals loses no value, leaves no literal behind and is idempotent.",
     ["inputs"], "all collections of types (classes, modules, singletons, literals, arrays, hashes, shapes, unions, Unknown) and all Ruby values",
     "Tests compare a few hand-picked unions; the laws quantify over every combination of nested types and every value.",
     [A + "core/ruby_type.rs"], "type constructors", "RubyType::{union,union_from_options,union_with,remove_nil,make_nilable,subtract,widen_literals}")
prop("C04", "A type is accepted for another only if every value fits",
     "Whenever a type is accepted where another is expected, every Ruby value of the first is a value of the second; every type is accepted for itself and for a union containing it; Unknown is accepted for nothing but itself. Exact Hash shapes are compared field by field by name (an optional field may be missing, an undeclared field is never accepted); a shape is accepted for its generic Hash view, which holds all its values. A shape is built exactly when its evidence is complete, consistent and within the documented field and depth limits, and keeps every field as given.",
     ["inputs"], "all pairs of types and shapes, all Ruby values",
     "Subtyping tests sample pairs; soundness is a statement about all pairs and all values.",
     [A + "core/ruby_type.rs", A + "core/shape_type.rs"], "subtype and shape relations", "RubyType::is_subtype_of, ShapeType::{try_new,is_subtype_of,generic_hash_type}")
prop("C05", "Project indexing runs are admitted fairly and never too many",
     "Under every schedule of submissions, completions, cancellations, abandoned requests and editor focus changes: no more project runs are active than the limit and at most one per project; the most urgent and, among equals, oldest waiting run is admitted first, where the focused project counts as most urgent; after a priority admission the oldest waiting background run goes next; cancelled runs are never admitted and stop waiting; runs that may start are not left asleep; every run that is not cancelled eventually gets its turn; and the reported active and queued counts are exact.",
     ["schedules", "histories"], "all interleavings of queueing, polling, finishing, cancelling, abandoning and focus changes, all priorities",
     "A test fixes one interleaving; lost wake-ups, leaked permits and priority inversions need a particular one.",
     ["src/indexing_scheduler.rs"], "permit queue", "IndexingScheduler::{register_cancellable,acquire_cancellable,prioritize_active_project,snapshot}, permit drop")
prop("C06", "Indexing work stays within the machine budget, and always makes progress",
     "Under every schedule of requests with any CPU, memory and I/O claims: the sum of admitted claims never exceeds the CPU, memory, I/O or task budget (a claim larger than the budget is refused outright); the most urgent, oldest work that fits is admitted first, with background work going next after a priority admission; work that fits is never left waiting; finished, abandoned and cancelled work returns exactly its claim and is counted once; cancelled work is not started; and all other work eventually runs.",
     ["schedules", "histories", "inputs"], "all interleavings of requesting, polling, finishing, cancelling, abandoning and focus changes, all claims",
     "Tests fix a few claims and one interleaving; accounting errors and lost wake-ups appear only in particular ones.",
     ["src/indexing_resources.rs"], "resource governor", "IndexingResourceGovernor::{run_with_resources,run_async_with_resources,prioritize_active_project}")
prop("C07", "Shared products are built once and retained within limits",
     "For every sequence and interleaving of requests, outcomes and aborted requests on a single-flight cache: a product is built by at most one producer at a time and never again while retained; concurrent requests for the same key receive that product or that build's failure; a failed or abandoned build is not retained and the next request builds afresh; exactly the products requested last, within the entry and weight limits, are retained (a build in progress is never evicted); every waiting request is answered; and the reported counters are exact.",
     ["schedules", "histories"], "all request orders, weights, outcomes, delays and aborts",
     "Tests exercise a few orders; duplicate builds, hangs after an aborted producer and over-retention depend on the order of events.",
     ["src/single_flight.rs"], "single-flight map", "get_or_try_init of SingleFlightCache, BoundedSingleFlightCache, BlockingBoundedSingleFlightCache")

prop("C08", "The project index depends on the current files, not on how it got there",
     "After any sequence of opening, editing, re-indexing and removing files - resolved at once or in batches, with queries in between - every answer of the index (namespaces, inheritance and mixin links in both directions, references, symbols, methods, method lookup, diagnostics) equals that of an index built afresh from the files' current facts. No fact of an old version survives, and nothing that became resolvable, unresolvable or differently resolvable by a change in another file keeps its old answer.",
     ["histories", "inputs"], "all sequences of per-file fact replacements in any resolve mode, all fact sets",
     "Tests replay a few edit sequences; stale answers need a particular order of definition, removal, shadowing and querying across files.",
     [A + "engine/state.rs", A + "core/graph_store.rs", A + "engine/diagnostics.rs", A + "engine/resolution.rs"],
     "incremental fact replacement", "AnalysisEngine::{replace_facts,resolve,remove_file}, GraphStore")
prop("C09", "A call goes to the method Ruby would run",
     "For every class graph built from superclasses, includes and prepends (in which no module is reached twice), a call on a class resolves to the first definition in Ruby's ancestor order (later prepends first, then the class, later includes first, then the superclass), on the instance and on the singleton side; super goes to the next definition after the class itself; visibility, as declared or changed later, is decided on the definition Ruby finds - a call from outside never reaches a private or protected one, nor the inherited one it hides; and a call is recorded as a reference of exactly the method it reaches.",
     ["inputs"], "all small class graphs, all sets of definitions and visibilities, all source orders",
     "Tests check a few hierarchies; method resolution order must be right for every combination of mixins, order and definitions.",
     [A + "engine/resolution.rs", A + "engine/diagnostics.rs"],
     "method lookup chain", "method_lookup_chain, AnalysisQuery::{resolve_method_callees,resolve_public_method_callees,resolve_super_method_callee}")
prop("C10", "Constants resolve lexically, and renaming one edits exactly its uses",
     "For every set of nested namespaces and constants, a constant used in a namespace resolves to the one in the nearest enclosing scope and is called unresolved exactly if there is none; its definition is every place that defines it (signatures only when nothing else does); each use is listed under that constant and no other; and renaming it edits the name token of every definition and use in project files and nothing else, and is refused for constants defined only outside the project.",
     ["inputs"], "all nestings and definitions of a small set of names across files of any origin, all uses",
     "Shadowing between nested, reopened and outer names has many combinations; tests check a few.",
     [A + "engine/resolution.rs", A + "engine/diagnostics.rs"],
     "constant lookup", "AnalysisQuery::{resolve_constant_in_context,constant_definition_ranges,constant_reference_ranges,constant_rename_target}")
prop("C11", "Type and call hierarchies are complete and mirror each other",
     "For every class graph, B is listed as a supertype of A under a relation exactly when A is listed as a subtype of B under the inverse relation, once per link; the implementors of a namespace are exactly those that inherit from it or mix it in, directly or indirectly, and the implementations of its method are the definitions in them. For every set of calls, each call appears exactly once among the callee's incoming and exactly once among the caller's outgoing calls, under the right method and range.",
     ["inputs"], "all small class graphs with all kinds of links, all sets of calls",
     "Tests draw single hierarchies; completeness is a statement about all of them.",
     [A + "engine/hierarchy.rs"], "hierarchy queries", "AnalysisQuery::{supertypes,subtypes,implementor_namespaces,method_implementation_ranges,incoming_calls,outgoing_calls}")
prop("C12", "Warnings about calls are proofs",
     "A call gets a wrong-arity, unknown-keyword or missing-keyword warning only if Ruby would raise for it whatever its splatted arguments contain and whichever way a trailing hash is passed; without such uncertainty, every call that Ruby would reject gets the matching warning, naming the right keywords. A call is reported as unresolved only if the receiver's ancestors are all known and none defines the method, and on an instance always then.",
     ["inputs"], "all parameter lists, all argument shapes with any runtime contents, all small class graphs with known and unknown ancestors",
     "Arity, keywords, splats and options hashes interact; tests sample pairs of one definition and one call.",
     [A + "engine/diagnostics.rs", A + "engine/diagnostic_helpers.rs"], "call diagnostics", "push_signature_diagnostics, MethodArity, arity_mismatch, method_lookup_chain_is_incomplete")

prop("C13", "An edit that only changes bodies changes no answer about other files",
     "An edit is treated as local to its file exactly if nothing that another file can see has changed: definitions, their kinds, parameters, visibility, types, inheritance and mixin links and the order in which mixins and visibility apply. Moving definitions or changing bodies, locals and references is local, wherever things move to; and after a local edit, the warnings, references and call targets of every other file are those that a full re-resolution gives.",
     ["histories", "inputs"], "all pairs of versions of a file, all places",
     "Tests try a few edits; a single fact or ordering left out of the comparison leaves stale warnings in other open files.",
     [A + "engine/state.rs"], "export fingerprint", "SemanticExportFingerprint::from_facts, SemanticChange::classify, AnalysisEngine::resolve_file")

prop("C14", "Renaming a method keeps every call's target",
     "Wherever the cursor stands, a method rename edits exactly the name tokens of the method's definitions, of the visibility declarations that name it and of the calls that reach it, and after the edit every call and every super still reaches the definition it reached before. It is refused when that is impossible: when the new name is taken in a related class, when super or a call that may reach several methods ties the method to another, or when it is defined outside the project.",
     ["inputs"], "all small class graphs, all sets of definitions of the old and new name, all cursor positions",
     "Capture of the new name and override families have many shapes; tests rename in a few.",
     [A + "engine/resolution.rs"], "method rename", "AnalysisQuery::{method_rename_target_at,method_rename_target_for_name_at}")

J = "crates/jvm-metadata/src/"
prop("C15", "Java class files and archives are read exactly, malformed ones refused",
     "Every descriptor, name, class file and archive is either refused or read as exactly what the JVM specification says it means: types, modified UTF-8 names, flags, supertypes, members with parameter names, exceptions, lines and annotations, inner classes, record components, and of several versions of a class in a multi-release jar the one the given JDK would load. Files that are cut off, continued, inconsistent or beyond the configured limits are refused, and no file makes the server crash.",
     ["inputs"], "all byte strings within the bounds in each field of a class file, all sets of versions, all JDK releases",
     "Tests read a few compiled classes; the reader must hold for any jar a project depends on.",
     [J + "descriptor.rs", J + "classfile.rs", J + "archive.rs"], "class file and archive readers", "parse_field_descriptor, parse_method_descriptor, parse_class, parse_archive")

Y = "crates/ruby-analysis/src/indexer/yard/"
prop("C16", "Types in YARD comments are read as written",
     "A YARD tag above a method is read as its own kind, for the parameter or option it names, with exactly the types written in its brackets: a list is split at the commas that stand outside <> and {} and nowhere else, and the type it stands for has exactly the written alternatives. Go-to-definition with the cursor anywhere on an entry of a list looks up that entry's own name, and finds nothing outside comments and brackets. The places reported for tags and types are those of their text, counted in the editor's UTF-16 columns whatever characters stand before them.",
     ["inputs"], "all type lists within the grammar and nesting bound, all cursor columns, all tag kinds and comment layouts listed",
     "Tests use a few ASCII comments with one type each; entries next to hash types, nested lists and lines with accents or emoji are what they miss.",
     [Y + "parser.rs", Y + "converter.rs"], "YARD comment reader", "YardParser::find_type_at_position, YardParser::extract_from_source, YardTypeConverter::convert_multiple")

prop("C17", "Navigation waits end as they should and indexing status only moves forward",
     "Whatever the order of requests, indexing progress, cancellations and replacements: a navigation request that waits for a target ends exactly when its target was processed, its stage completed, its run cancelled or its run replaced, and with that outcome; it is woken then and never waits for something already known; beyond the limit of outstanding keys it is refused at once; each requested key is handed to the indexer of its own run once. A project's indexing status is what its newest run last reported; reports of replaced or finished runs change nothing, every change carries a later sequence number, a replaced or cancelled run is told so, and navigation is not held back by a run that is over.",
     ["schedules", "histories"], "all histories of operations within the step bound, including operations of replaced runs, symbolic progress counts and run numbers",
     "Tests try a handful of orders; requests, indexing and configuration changes arrive in any order.",
     ["src/navigation_demand.rs", "src/indexing_status.rs"], "navigation demand controller and project indexing status", "NavigationDemandController, NavigationDemandTicket::wait, ProjectIndexingStatus")

prop("C18", "A reused dependency answers as if it had been indexed here, or is not reused",
     "Facts of a gem, a Java archive or a compiled extension that were extracted once and are reused by another project, from memory or from the persistent store, are exactly the exportable facts that indexing the same files in this project would give: every symbol, method, contract, type and ancestry fact with its ranges in this project's own files, and nothing of the project it came from. Facts that mean something only inside one project, or that belong to another file, are never shared. A product serves exactly the requests that would have made it (same files, contents, order, closure, runtime and semantic context); for any other request it is refused and nothing is left behind. A stored product that is torn, damaged, extended, of another kind, another version or for another key is refused, never used.",
     ["inputs", "crash points"], "all fact kinds and positions within the listed aspects, every single-field change of a request, every byte at which a stored product may be torn, every value of its header fields and every single changed payload byte",
     "Tests round-trip a few products; what is kept or refused depends on every field of every fact and every byte of the stored form.",
     ["crates/ruby-analysis/src/engine/external_facts_template.rs", "src/dependency_product.rs", "src/persistent_cache.rs"], "dependency fact templates, gem products and the persistent product store", "ProjectNeutralFileFactsTemplate, GemDependencyProduct, encode_entry/decode_entry, compiled extension entries")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
