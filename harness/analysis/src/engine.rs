//! The project index: what the engine answers is a function of the current facts of
//! every file, never of the order or number of edits that led there.
use crate::sx;
use ruby_analysis::core::*;
use ruby_analysis::engine::*;
use std::path::PathBuf;

pub fn c(s: &str) -> RubyConstant {
    RubyConstant::new(s).unwrap()
}
pub fn path(p: &[&str]) -> Vec<RubyConstant> {
    p.iter().map(|s| c(s)).collect()
}
pub fn ns(p: &[&str]) -> FullyQualifiedName {
    FullyQualifiedName::namespace(path(p))
}
pub fn sing(p: &[&str]) -> FullyQualifiedName {
    FullyQualifiedName::singleton_namespace(path(p))
}
pub fn meth(p: &[&str], m: &str) -> FullyQualifiedName {
    FullyQualifiedName::method(path(p), RubyMethod::new(m).unwrap())
}
/// any of superclass, include, prepend, extend, decided by the solver where the engine branches on it
pub fn edge_kind() -> GraphEdgeKind {
    let x = sx::u8();
    sx::assume(x <= 3);
    unsafe { std::mem::transmute::<u8, GraphEdgeKind>(x) }
}
pub fn node_kind() -> GraphNodeKind {
    if sx::flag() {
        GraphNodeKind::Class
    } else {
        GraphNodeKind::Module
    }
}
pub fn visibility() -> ruby_analysis::core::method_store::MethodVisibility {
    let x = sx::u8();
    sx::assume(x <= 2);
    unsafe { std::mem::transmute::<u8, ruby_analysis::core::method_store::MethodVisibility>(x) }
}
pub fn rg(f: SourceFileId, s: u32) -> TextRange {
    TextRange::new(f, s, s + 2)
}
pub fn reg(e: &mut AnalysisEngine, name: &str, kind: SourceKind) -> SourceFileId {
    e.register_file(SourceFileInput { path: PathBuf::from(name), content: String::new(), kind })
}

/// The small universe of names (the last one is the top level).
const NAMES: [&[&str]; 5] = [&["M"], &["N"], &["N", "M"], &["N", "C"], &[]];

fn node_views(e: &AnalysisEngine) -> Vec<(usize, GraphNodeKind, TextRange)> {
    let mut v = Vec::new();
    for (i, n) in NAMES.iter().enumerate() {
        for f in e.graph_nodes_for(&ns(n)) {
            v.push((i, f.kind, f.range));
        }
    }
    v
}
fn same_edges(a: &AnalysisEngine, b: &AnalysisEngine, from: &FullyQualifiedName) -> bool {
    let (x, y) = (a.graph_edges_from(from), b.graph_edges_from(from));
    x == y
}
fn same_edges_to(a: &AnalysisEngine, b: &AnalysisEngine, to: &FullyQualifiedName) -> bool {
    let mut x = a.graph_edges_to(to);
    let mut y = b.graph_edges_to(to);
    let key = |e: &GraphEdgeFact| (e.range.file_id, e.range.start_byte, e.kind, e.source.clone());
    x.sort_by_key(key);
    y.sort_by_key(key);
    x == y
}
fn refs(e: &AnalysisEngine, t: &FullyQualifiedName) -> Vec<(TextRange, Option<FullyQualifiedName>)> {
    e.query().references_for_fqn(t).iter().map(|r| (r.range, r.caller.and_then(|c| e.fqn_for_id(c).cloned()))).collect()
}
fn diags(e: &AnalysisEngine, f: SourceFileId) -> Vec<(TextRange, String)> {
    let mut v: Vec<_> = e.diagnostic_facts_in_file(f).into_iter().map(|d| (d.range, d.code)).collect();
    v.sort();
    v
}

fn compare(a: &AnalysisEngine, b: &AnalysisEngine, files: &[SourceFileId]) {
    sx::check(node_views(a) == node_views(b), "a namespace is defined where the current text does not define it");
    for n in NAMES {
        sx::check(same_edges(a, b, &ns(n)), "an inheritance or mixin link differs from the one the current text means");
        sx::check(same_edges(a, b, &sing(n)), "a singleton inheritance link differs from the one the current text means");
        sx::check(same_edges_to(a, b, &ns(n)), "the users of a class or module differ from the current text");
        sx::check(
            a.superclass_is_ambiguous(&ns(n)) == b.superclass_is_ambiguous(&ns(n)),
            "whether the superclass is known differs from the current text",
        );
        sx::check(refs(a, &ns(n)) == refs(b, &ns(n)), "the references to a constant differ from the current text");
        sx::check(refs(a, &meth(n, "m")) == refs(b, &meth(n, "m")), "the references to a method differ from the current text");
        sx::check(
            a.method_facts_for(&meth(n, "m")) == b.method_facts_for(&meth(n, "m")),
            "the definitions of a method differ from the current text",
        );
        sx::check(
            a.symbol_facts_for(&ns(n)) == b.symbol_facts_for(&ns(n)),
            "the declarations of a constant differ from the current text",
        );
    }
    sx::check(a.unresolved_graph_edges().len() == b.unresolved_graph_edges().len(), "an unresolved link was lost or invented");
    let m = RubyMethod::new("m").unwrap();
    for n in [ns(&["N", "C"]), sing(&["N", "C"]), ns(&["M"]), ns(&[])] {
        sx::check(
            a.query().resolve_method_callees(&n, &m) == b.query().resolve_method_callees(&n, &m),
            "a method call resolves differently from the current text",
        );
    }
    for f in files {
        sx::check(diags(a, *f) == diags(b, *f), "the diagnostics differ from the current text");
    }
}

#[derive(Clone)]
struct Content {
    /// 0 nothing, 1 module M with m, 2 N::M with m (providers); consumer: 0 nothing, 1 the class
    what: u64,
    kind: GraphNodeKind,
    edge: GraphEdgeKind,
    at: u32,
}

fn facts(f: SourceFileId, consumer: bool, x: &Content, top: bool) -> FileFacts {
    let mut r = FileFacts::default();
    if x.what == 0 {
        return r;
    }
    if consumer {
        let class = ns(&["N", "C"]);
        r.graph_nodes.push(GraphNodeFact::new(class.clone(), GraphNodeKind::Class, rg(f, x.at)));
        r.symbols.push(SymbolFact::new(class.clone(), SymbolKind::Class, rg(f, x.at)));
        r.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(
            if top { ns(&[]) } else { class.clone() },
            path(&["M"]),
            x.what == 2,
            if top { ns(&[]) } else { ns(&["N"]) },
            x.edge,
            rg(f, x.at + 4),
        ));
        r.reference_candidates.push(ReferenceCandidate::constant(rg(f, 30), path(&["M"]), path(&["N", "C"])));
        r.reference_candidates.push(ReferenceCandidate::method(
            rg(f, 40),
            MethodReferenceCandidate {
                owner: path(&["N", "C"]),
                owner_kind: NamespaceKind::Instance,
                method: RubyMethod::new("m").unwrap(),
                is_super: false,
                access: MethodReferenceAccess::Normal,
                caller: Some(meth(&["N", "C"], "k")),
                call_expression_range: None,
                preferred_definition_range: None,
                diagnostics: MethodReferenceDiagnostics {
                    diagnostic_range: rg(f, 40),
                    receiver_label: None,
                    receiver_expression_range: None,
                    receiver_type: None,
                    diagnose_unresolved: true,
                    allow_unindexed_owner: false,
                    signature: None,
                },
            },
        ));
    } else {
        let p: &[&str] = if x.what == 1 { &["M"] } else { &["N", "M"] };
        let sk = SymbolKind::Module;
        r.graph_nodes.push(GraphNodeFact::new(ns(p), x.kind, rg(f, x.at)));
        r.symbols.push(SymbolFact::new(ns(p), sk, rg(f, x.at)));
        r.methods.push(MethodFact::new(meth(p, "m"), ns(p), rg(f, x.at + 3)));
    }
    r
}

#[no_mangle]
pub extern "C" fn h_engine_history() {
    let steps = sx::param(0, 3);
    let nfiles = sx::param(1, 2) as usize;
    let sym = sx::param(2, 1);
    let top = sx::param(3, 0) == 1;
    let names = ["c.rb", "p.rb", "q.rb"];
    let mut a = AnalysisEngine::new();
    let mut b = AnalysisEngine::new();
    let mut files = Vec::new();
    for n in names.iter().take(nfiles) {
        files.push(reg(&mut a, n, SourceKind::Project));
        reg(&mut b, n, SourceKind::Project);
    }
    let none = Content { what: 0, kind: GraphNodeKind::Module, edge: GraphEdgeKind::Include, at: 1 };
    let mut last: Vec<Content> = vec![none.clone(); nfiles];
    let mut replaced = vec![false; nfiles];
    // the same declarations move together, so one symbolic choice of each kind is enough
    let kind = if sym & 1 != 0 { node_kind() } else { GraphNodeKind::Module };
    let edge = edge_kind();
    for step in 0..steps {
        let i = sx::choice(nfiles as u64) as usize;
        let x = Content { what: sx::choice(3), kind, edge, at: if sym & 2 != 0 { sx::range(0, 20) as u32 } else { 1 } };
        // a full resolve follows the last step
        let mode = if step + 1 == steps { 1 } else { sx::choice(3) };
        a.replace_facts(files[i], facts(files[i], i == 0, &x, top), if mode == 0 { ResolveMode::Immediate } else { ResolveMode::Deferred });
        if mode == 2 {
            // a request served between two edits
            let m = RubyMethod::new("m").unwrap();
            let _ = a.query().resolve_method_callees(&ns(if top { &[] } else { &["M"] }), &m);
            a.resolve_file(files[i]);
        }
        last[i] = x;
        replaced[i] = true;
    }
    a.resolve();
    for i in 0..nfiles {
        if last[i].what != 0 {
            b.replace_facts(files[i], facts(files[i], i == 0, &last[i], top), ResolveMode::Deferred);
        }
    }
    b.resolve();
    sx::cover("compared");
    compare(&a, &b, &files);
}
