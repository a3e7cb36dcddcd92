//! Reuse of indexed dependencies: what a project takes from a shared or stored product is
//! what indexing those files here would have given, or the product is refused.
use crate::sx;
use ruby_analysis::core::method_store::MethodVisibility;
use ruby_analysis::core::*;
use ruby_analysis::engine::*;
use ruby_analysis::rsx_hooks::*;
use ruby_fast_lsp::persistent_cache::rsx_hooks as store;
use ruby_fast_lsp::persistent_cache::CompiledWasmProductKey;
use ruby_fast_lsp::rsx_product_hooks::*;
use std::path::PathBuf;

fn path(p: &[&str]) -> Vec<RubyConstant> {
    p.iter().map(|s| RubyConstant::new(s).unwrap()).collect()
}
fn ns(p: &[&str]) -> FullyQualifiedName {
    FullyQualifiedName::namespace(path(p))
}
fn m(s: &str) -> RubyMethod {
    RubyMethod::new(s).unwrap()
}
fn generated() -> RubyConstant {
    RubyConstant::generated_owner(GeneratedOwnerId::new("rspec", "file:///s.rb", "g:1").unwrap())
}

/// names are interned once, before anything is decided
fn warm() {
    for i in 0..9 {
        fqn(i);
    }
    for n in ["A", "B", "K", "M", "N", "Z", "C", "Seed"] {
        RubyConstant::new(n).unwrap();
    }
    for n in ["run!", "==", "each", "map", "target", "fetch", "x"] {
        m(n);
    }
    generated();
    RubyType::integer();
    RubyType::string();
    RubyType::symbol();
    RubyType::nil_class();
}

/// Everything one run decides, drawn before the facts are built so that the same facts can be
/// built for several files.
struct D {
    c: Vec<u64>,
    at: [u32; 4],
    file: Option<(u64, SourceFileId)>,
    made: std::cell::Cell<u64>,
    taken: std::cell::Cell<usize>,
}
impl D {
    fn new() -> Self {
        warm();
        D { c: Vec::new(), at: [0, 9, 9, 40], file: None, made: 0.into(), taken: 0.into() }
    }
    fn draw(&mut self, n: u64) {
        self.c.push(sx::choice(n));
    }
    fn fixed(&mut self, v: u64) {
        self.c.push(v);
    }
    fn ranges(&mut self, mode: u64) {
        let one = || match mode {
            0 => sx::u32(),
            _ => sx::range(0, 127) as u32,
        };
        if mode < 2 {
            self.at = [one(), one(), one(), one()];
            sx::assume(self.at[0] <= self.at[1] && self.at[1] <= self.at[2] && self.at[2] <= self.at[3]);
        }
    }
    fn take(&self) -> u64 {
        let i = self.taken.get();
        self.taken.set(i + 1);
        self.c[i]
    }
    /// the file the next range belongs to: `f`, unless the run gives this range to another file
    fn owner(&self, f: SourceFileId) -> SourceFileId {
        let k = self.made.get();
        self.made.set(k + 1);
        match self.file {
            Some((i, g)) if i == k => g,
            _ => f,
        }
    }
    fn full(&self, f: SourceFileId) -> TextRange {
        TextRange::new(self.owner(f), self.at[0], self.at[3])
    }
    fn name(&self, f: SourceFileId) -> TextRange {
        TextRange::new(self.owner(f), self.at[1], self.at[2])
    }
    fn restart(&self) {
        self.made.set(0);
        self.taken.set(0);
    }
}

fn fqn(i: u64) -> FullyQualifiedName {
    match i {
        0 => ns(&["A"]),
        1 => FullyQualifiedName::singleton_namespace(path(&["A", "B"])),
        2 => FullyQualifiedName::constant(path(&["A", "K"])),
        3 => FullyQualifiedName::method(path(&["A"]), m("run!")),
        4 => FullyQualifiedName::instance_variable("@a".into()).unwrap(),
        5 => FullyQualifiedName::class_variable("@@a".into()).unwrap(),
        6 => FullyQualifiedName::global_variable("$a".into()).unwrap(),
        7 => FullyQualifiedName::local_variable("a".into()).unwrap(),
        _ => FullyQualifiedName::namespace(Vec::<RubyConstant>::new()),
    }
}
pub const LEAVES: u64 = 8;
fn leaf(i: u64) -> RubyType {
    match i {
        0 => RubyType::Class(ns(&["A", "B"])),
        1 => RubyType::Module(ns(&["M"])),
        2 => RubyType::ClassReference(ns(&["A"])),
        3 => RubyType::ModuleReference(ns(&["M"])),
        4 => RubyType::Literal(Box::new(LiteralValue::symbol("a"))),
        5 => RubyType::Literal(Box::new(LiteralValue::string("a"))),
        6 => RubyType::nil_class(),
        _ => RubyType::Unknown,
    }
}
pub const TYPES: u64 = LEAVES + 9;
fn ty(i: u64, x: u64) -> RubyType {
    let (a, b) = (leaf(x), leaf((x + 3) % LEAVES));
    let proven = |t: RubyType| if matches!(t, RubyType::Unknown) { RubyType::integer() } else { t };
    let shape = |fields, rest, e, s| RubyType::Shape(Box::new(ShapeType::try_new(fields, rest, e, s).unwrap()));
    match i.checked_sub(LEAVES) {
        None => leaf(i),
        Some(0) => RubyType::Array(vec![]),
        Some(1) => RubyType::Array(vec![a, b]),
        Some(2) => RubyType::Hash(vec![a, RubyType::symbol()], vec![b]),
        Some(3) => RubyType::Union(vec![a, b]),
        Some(4) => RubyType::Array(vec![RubyType::Hash(vec![a], vec![RubyType::Array(vec![b])])]),
        Some(5) => shape(
            vec![ShapeField::required(LiteralKey::symbol("k"), proven(a)), ShapeField::optional(LiteralKey::string("k"), proven(b))],
            None,
            ShapeExactness::Exact,
            ShapeStability::Frozen,
        ),
        Some(6) => shape(
            vec![ShapeField::optional(LiteralKey::symbol("k"), proven(a))],
            Some(ShapeRest::new(RubyType::symbol(), proven(b))),
            ShapeExactness::Open,
            ShapeStability::TrackedMutable,
        ),
        Some(7) => shape(vec![], None, ShapeExactness::Open, ShapeStability::Frozen),
        _ => shape(vec![ShapeField::required(LiteralKey::string("j"), RubyType::Array(vec![proven(a)]))], None, ShapeExactness::Exact, ShapeStability::TrackedMutable),
    }
}
const PARAMS: [MethodParamKind; 10] = [
    MethodParamKind::Required,
    MethodParamKind::Optional,
    MethodParamKind::Rest,
    MethodParamKind::RequiredKeyword,
    MethodParamKind::OptionalKeyword,
    MethodParamKind::KeywordRest,
    MethodParamKind::Block,
    MethodParamKind::Forwarding,
    MethodParamKind::AnonymousRest,
    MethodParamKind::AnonymousKeywordRest,
];
const VISIBILITY: [MethodVisibility; 3] = [MethodVisibility::Public, MethodVisibility::Protected, MethodVisibility::Private];
const EDGES: [GraphEdgeKind; 5] =
    [GraphEdgeKind::Superclass, GraphEdgeKind::Include, GraphEdgeKind::Prepend, GraphEdgeKind::Extend, GraphEdgeKind::ExecutionContextApplication];
const ORIGIN: [GraphEdgeProvenance; 2] = [GraphEdgeProvenance::Explicit, GraphEdgeProvenance::ImplicitObject];
const SOURCE: [TypeProvenance; 8] = [
    TypeProvenance::Literal,
    TypeProvenance::Assignment,
    TypeProvenance::Flow,
    TypeProvenance::Rbs,
    TypeProvenance::Yard,
    TypeProvenance::Runtime,
    TypeProvenance::Extension,
    TypeProvenance::Inferred,
];
const SYMBOLS: [SymbolKind; 8] = [
    SymbolKind::Class,
    SymbolKind::Module,
    SymbolKind::Method,
    SymbolKind::Constant,
    SymbolKind::LocalVariable,
    SymbolKind::InstanceVariable,
    SymbolKind::ClassVariable,
    SymbolKind::GlobalVariable,
];
fn opt(x: u64, s: &str) -> Option<String> {
    (x == 1).then(|| s.to_string())
}
fn template(i: u64) -> Template {
    match i {
        0 => Template::concrete(RubyType::Array(vec![RubyType::integer()])),
        1 => Template::receiver(),
        2 => Template::variable("U"),
        3 => Template::array(Template::variable("U")),
        4 => Template::hash(Template::variable("K"), Template::receiver()),
        5 => Template::union(vec![Template::variable("U"), Template::concrete(RubyType::nil_class())]),
        _ => Template::unconstrained(),
    }
}
fn body(i: u64) -> Body {
    match i {
        0 => Body::literal(RubyType::Array(vec![RubyType::string()])),
        1 => Body::parameter(0),
        2 => Body::array(vec![Body::parameter(1), Body::literal(RubyType::integer())]),
        3 => Body::shape(vec![(LiteralKey::symbol("a"), Body::parameter(0)), (LiteralKey::string("b"), Body::parameter(1))]),
        4 => Body::call(Body::parameter(0), m("fetch"), vec![(Some(LiteralKey::symbol("a")), Body::parameter(1)), (None, Body::parameter(0))]),
        _ => Body::any_of(vec![Body::parameter(0), Body::array(vec![Body::parameter(1)])]),
    }
}

pub const ASPECTS: u64 = 8;
fn draws(aspect: u64) -> &'static [u64] {
    match aspect {
        0 => &[8, 9],
        1 => &[10, 2, 2, 3, 3, 3, 4],
        2 => &[7, 7, 2, 2, 10],
        3 => &[2, 3],
        4 => &[8, TYPES, LEAVES],
        5 => &[2, 5, 2],
        6 => &[5, 2, 2, 3],
        _ => &[2, 6, 6],
    }
}
/// The facts a file contributes about one aspect.
fn facts(d: &D, aspect: u64, f: SourceFileId, kept: bool) -> FileFacts {
    d.restart();
    let mut x = FileFacts::default();
    let a = ns(&["A"]);
    match aspect {
        0 => {
            let (k, n) = (d.take(), d.take());
            let s = SymbolFact::new(fqn(n), SYMBOLS[k as usize], d.full(f));
            let r = d.name(f);
            let name = SymbolFact { name_range: r, ..s };
            if !(kept && name.kind == SymbolKind::LocalVariable) {
                x.symbols.push(name);
            }
            x.symbols.push(SymbolFact::new(ns(&["A", "Z"]), SymbolKind::Module, d.full(f)));
        }
        1 => {
            let (p, lab, doc, shape, vis, av, ret) = (d.take(), d.take(), d.take(), d.take(), d.take(), d.take(), d.take());
            let r = d.full(f);
            let name = FullyQualifiedName::method(path(&["A"]), m("run!"));
            let owner = if ret & 1 == 1 { FullyQualifiedName::singleton_namespace(path(&["A"])) } else { a };
            let made = match shape {
                0 => MethodFact::with_param_facts(
                    name,
                    owner,
                    r,
                    vec![
                        MethodParamFact::new("x", PARAMS[p as usize]).with_signature_metadata(opt(lab, "Integer"), opt(doc, "the x")),
                        MethodParamFact::new("y", PARAMS[(p as usize + 3) % 10]),
                    ],
                ),
                1 => MethodFact::new(name, owner, r),
                _ => MethodFact::with_delegate_receiver(name, owner, r, m("target")),
            };
            let availability = match av {
                0 => MethodAvailability::Available,
                1 => MethodAvailability::Unavailable { reason: "old".into() },
                _ => MethodAvailability::Absent { reason: "gone".into() },
            };
            let mut made = made.with_visibility(VISIBILITY[vis as usize]).with_availability(availability).with_signature_metadata(opt(ret & 1, "docs"), opt(ret >> 1, "String"));
            made.name_range = d.name(f);
            x.methods.push(made);
            x.methods.push(MethodFact::with_params(FullyQualifiedName::method(path(&["A"]), m("==")), ns(&["A"]), d.full(f), vec!["o".into()]));
        }
        2 => {
            let (s, t, fw, yi, p) = (d.take(), d.take(), d.take(), d.take(), d.take());
            let one = Signature::new(
                vec!["K".into()],
                vec!["K".into(), "U".into()],
                vec![(PARAMS[p as usize], template(t))],
                vec![template(s), template((t + 1) % 7)],
                template((s + 2) % 7),
                fw == 1,
                template((s + t) % 7),
            );
            let fact = MethodFact::with_params(FullyQualifiedName::method(path(&["A"]), m("each")), a, d.full(f), vec!["x".into()]);
            let signatures = if s == t { vec![one.clone(), one] } else if s > t + 4 { vec![] } else { vec![one] };
            x.methods.push(with_block_evidence(fact, signatures, (fw == 1).then(|| ("x".into(), m("map"))), (yi == 1).then(|| vec!["x".into(), "y".into()])));
        }
        3 => {
            let (o, v) = (d.take(), d.take());
            x.method_visibility_overrides.push(MethodVisibilityOverrideFact::new(fqn(o), m("run!"), VISIBILITY[v as usize], d.full(f)));
        }
        4 => {
            let (s, t, l) = (d.take(), d.take(), d.take());
            let subject = match s {
                0 => TypeSubject::Constant(fqn(2)),
                1 => TypeSubject::Local { scope_id: 7, name: "a".into() },
                2 => TypeSubject::InstanceVariable { owner: a, name: "@a".into() },
                3 => TypeSubject::ClassVariable { owner: fqn(1), name: "@@a".into() },
                4 => TypeSubject::GlobalVariable("$a".into()),
                5 => TypeSubject::MethodReturn(fqn(3)),
                6 => TypeSubject::Parameter { method: fqn(3), name: "x".into() },
                _ => TypeSubject::Expression(d.name(f)),
            };
            let fact = TypeFact::new(subject, ty(t, l), d.full(f), SOURCE[((s + t) % 8) as usize]);
            if !(kept && (s == 1 || s == 7)) {
                x.types.push(fact);
            }
            x.types.push(TypeFact::new(TypeSubject::MethodReturn(fqn(3)), RubyType::integer(), d.full(f), TypeProvenance::Rbs));
        }
        5 => {
            let (n, k, p) = (d.take(), d.take(), d.take());
            x.graph_nodes.push(GraphNodeFact::new(fqn(n), if n == 0 { GraphNodeKind::Class } else { GraphNodeKind::Module }, d.full(f)));
            x.graph_edges.push(GraphEdgeFact::new(fqn(n), ns(&["M"]), EDGES[k as usize], d.name(f)).with_provenance(ORIGIN[p as usize]));
        }
        6 => {
            let (k, p, abs, c) = (d.take(), d.take(), d.take(), d.take());
            x.unresolved_graph_edges.push(
                UnresolvedGraphEdgeFact::new(a, path(&["M", "N"]), abs == 1, fqn([0, 1, 8][c as usize]), EDGES[k as usize], d.full(f)).with_provenance(ORIGIN[p as usize]),
            );
        }
        _ => {
            let (strict, r, dflt) = (d.take(), d.take(), d.take());
            let second = if strict == 0 { ("y".to_string(), Some(body(dflt)), false) } else { ("y".to_string(), None, dflt & 1 == 1) };
            add_constant_body(&mut x, fqn(2), d.full(f), strict == 1, vec![("x".into(), None, false), second], vec![], body(r));
            if !kept {
                // a lambda that closes over its surroundings means nothing elsewhere
                add_constant_body(&mut x, FullyQualifiedName::constant(path(&["A", "C"])), d.full(f), true, vec![], vec!["v".into()], Body::capture("v"));
                x.local_read_types = vec![(d.name(f), RubyType::integer())].into_boxed_slice();
                x.inference.method_return_outcomes.insert(fqn(3), TypeInferenceOutcome::unknown(UnknownReason::UnsupportedCallableBody));
                x.inference.expression_unknown_reasons.push((d.name(f), UnknownReason::UnsupportedCallableBody));
            }
        }
    }
    x
}

fn same(a: &FileFacts, b: &FileFacts) -> bool {
    a.symbols == b.symbols
        && a.methods == b.methods
        && a.method_visibility_overrides == b.method_visibility_overrides
        && a.types == b.types
        && a.graph_nodes == b.graph_nodes
        && a.graph_edges == b.graph_edges
        && a.unresolved_graph_edges == b.unresolved_graph_edges
        && same_constant_bodies(a, b)
        && nothing_private(a)
}
fn nothing_private(a: &FileFacts) -> bool {
    a.reference_candidates.is_empty()
        && a.diagnostic_candidates.is_empty()
        && a.diagnostics.is_empty()
        && a.execution_contexts.is_empty()
        && a.local_read_types.is_empty()
        && a.inference.method_return_outcomes.is_empty()
        && a.inference.expression_unknown_reasons.is_empty()
}

/// p0: aspect; p1: ranges (0 any 32-bit, 1 below 128, 2 fixed); p2: through the stored form
#[no_mangle]
pub extern "C" fn h_reuse() {
    let aspect = sx::param(0, 0);
    let mut d = D::new();
    for n in draws(aspect) {
        d.draw(*n);
    }
    d.ranges(sx::param(1, 0));
    let (here, there) = (SourceFileId(sx::range(1, 3) as u32), SourceFileId(sx::range(1, 3) as u32));
    let made = ProjectNeutralFileFactsTemplate::try_new(here, facts(&d, aspect, here, false));
    let Ok(t) = made else {
        return sx::fail("a dependency's plain declarations are refused");
    };
    let expected = facts(&d, aspect, there, true);
    sx::check(same(&t.instantiate(there), &expected), "reused facts are not the file's own");
    sx::cover("kept");
    if sx::param(2, 1) == 1 {
        let Ok(s) = t.to_persistent_snapshot() else {
            return sx::fail("plain declarations cannot be stored");
        };
        let bytes = postcard::to_allocvec(&s).unwrap();
        let Ok(back) = postcard::from_bytes::<ProjectNeutralFileFactsSnapshot>(&bytes) else {
            return sx::fail("stored declarations cannot be read");
        };
        let Ok(back) = ProjectNeutralFileFactsTemplate::try_from_persistent_snapshot(back) else {
            return sx::fail("stored declarations are refused");
        };
        sx::check(same(&back.instantiate(there), &expected), "stored facts are not the file's own");
        sx::cover("stored");
        sx::check(same(&back.into_instantiated(there), &expected), "stored facts are not the file's own");
    }
    sx::check(same(&t.into_instantiated(there), &expected), "reused facts are not the file's own");
}

/// A range of another file anywhere among the declarations: nothing is reused.
/// p0: aspect
#[no_mangle]
pub extern "C" fn h_foreign() {
    let aspect = sx::param(0, 0);
    let mut d = D::new();
    for n in draws(aspect) {
        // the last case of each choice is enough: ranges do not depend on the others
        d.fixed(if sx::param(1, 0) == 0 { 0 } else { (n - 1).min(sx::param(1, 0)) });
    }
    d.ranges(0);
    let here = SourceFileId(5);
    facts(&d, aspect, here, false);
    let n = d.made.get();
    let which = sx::choice(n);
    let other = SourceFileId(sx::u32());
    sx::assume(other != here);
    let private = |x: &FileFacts| {
        // what is dropped anyway may belong anywhere
        let dropped_symbol = x.symbols.iter().any(|s| s.kind == SymbolKind::LocalVariable && (s.range.file_id == other || s.name_range.file_id == other));
        let dropped_type = x.types.iter().any(|t| match t.subject {
            TypeSubject::Local { .. } => t.range.file_id == other,
            TypeSubject::Expression(r) => t.range.file_id == other || r.file_id == other,
            _ => false,
        });
        dropped_symbol || dropped_type || (aspect == 7 && which != 0)
    };
    d.file = Some((which, other));
    let x = facts(&d, aspect, here, false);
    let dropped = private(&x);
    match ProjectNeutralFileFactsTemplate::try_new(here, x) {
        Ok(_) => {
            sx::check(dropped, "facts of another file are reused as this file's");
        }
        Err(ProjectNeutralTemplateRejection::ForeignRange { expected, actual }) => {
            sx::check(!dropped && expected == here && actual == other, "the refusal names the wrong file");
            sx::cover("refused");
        }
        Err(_) => sx::fail("refused for another reason"),
    }
}

/// Facts that mean something only inside one project are never shared.
#[no_mangle]
pub extern "C" fn h_private() {
    warm();
    let f = SourceFileId(3);
    let r = TextRange::new(f, 1, 2);
    let mut x = FileFacts::default();
    let g = vec![RubyConstant::new("A").unwrap(), generated()];
    let own = FullyQualifiedName::namespace(g.clone());
    let a = ns(&["A"]);
    let deep = |t: RubyType| match sx::choice(8) {
        0 => t,
        1 => RubyType::Array(vec![RubyType::integer(), t]),
        2 => RubyType::Hash(vec![t], vec![RubyType::integer()]),
        3 => RubyType::Hash(vec![RubyType::integer()], vec![RubyType::Array(vec![t])]),
        4 => RubyType::Union(vec![RubyType::nil_class(), t]),
        k => {
            let field = ShapeField::optional(LiteralKey::symbol("k"), if k == 5 { t.clone() } else { RubyType::integer() });
            let rest = match k {
                6 => Some(ShapeRest::new(t, RubyType::integer())),
                7 => Some(ShapeRest::new(RubyType::symbol(), t)),
                _ => None,
            };
            RubyType::Shape(Box::new(ShapeType::try_new(vec![field], rest, ShapeExactness::Open, ShapeStability::Frozen).unwrap()))
        }
    };
    let t = |s: TypeSubject, t: RubyType| TypeFact::new(s, t, r, TypeProvenance::Yard);
    let case = sx::choice(24);
    match case {
        0 => x.reference_candidates.push(ReferenceCandidate::constant(r, path(&["K"]), path(&["A"]))),
        1 => x.reference_candidates.push(ReferenceCandidate::resolved(r, fqn(3), None)),
        2 => x.diagnostic_candidates.push(DiagnosticCandidate::new(r, DiagnosticCandidateKind::RaiseNonException { arg_repr: "E".into(), arg: RaiseArgCandidate::Constant("E".into()) })),
        3 => x.diagnostics.push(DiagnosticFact::new(r, DiagnosticSeverity::Warning, "one", "said")),
        4 => x.execution_contexts.push(ExecutionContextFact {
            range: r,
            lexical_namespace: a.clone(),
            implicit_receiver: a.clone(),
            method_definition_owner: a,
            lexical_scope: ExecutionScopeMode::Preserve,
            local_scope: ExecutionScopeMode::Preserve,
            extension_id: "one".into(),
        }),
        5 => x.symbols.push(SymbolFact::new(own, SymbolKind::Class, r)),
        6 => x.methods.push(MethodFact::new(FullyQualifiedName::method(g, m("x")), a, r)),
        7 => x.methods.push(MethodFact::new(fqn(3), own, r)),
        8 => x.method_visibility_overrides.push(MethodVisibilityOverrideFact::new(own, m("x"), MethodVisibility::Private, r)),
        9 => x.types.push(t(TypeSubject::Constant(FullyQualifiedName::constant(g)), RubyType::integer())),
        10 => x.types.push(t(TypeSubject::InstanceVariable { owner: own, name: "@a".into() }, RubyType::integer())),
        11 => x.types.push(t(TypeSubject::ClassVariable { owner: own, name: "@@a".into() }, RubyType::integer())),
        12 => x.types.push(t(TypeSubject::MethodReturn(FullyQualifiedName::method(g, m("x"))), RubyType::integer())),
        13 => x.types.push(t(TypeSubject::Parameter { method: FullyQualifiedName::method(g, m("x")), name: "x".into() }, RubyType::integer())),
        14 => {
            let inner = match sx::choice(4) {
                0 => RubyType::Class(own),
                1 => RubyType::Module(own),
                2 => RubyType::ClassReference(own),
                _ => RubyType::ModuleReference(own),
            };
            x.types.push(t(TypeSubject::MethodReturn(fqn(3)), deep(inner)));
        }
        15 => x.graph_nodes.push(GraphNodeFact::new(own, GraphNodeKind::Class, r)),
        16 => x.graph_edges.push(GraphEdgeFact::new(own, a, GraphEdgeKind::Include, r)),
        17 => x.graph_edges.push(GraphEdgeFact::new(a, own, GraphEdgeKind::Include, r)),
        18 => x.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(own, path(&["M"]), true, a, GraphEdgeKind::Include, r)),
        19 => x.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(a.clone(), g, false, a, GraphEdgeKind::Include, r)),
        20 => x.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(a, path(&["M"]), false, own, GraphEdgeKind::Include, r)),
        21 => add_constant_body(&mut x, FullyQualifiedName::constant(g), r, true, vec![], vec![], Body::literal(RubyType::integer())),
        // dropped with the rest of what only this file's own answers use
        22 => x.symbols.push(SymbolFact::new(own, SymbolKind::LocalVariable, r)),
        _ => x.types.push(t(TypeSubject::Local { scope_id: 1, name: "a".into() }, RubyType::Class(own))),
    }
    // an ordinary declaration before or after it changes nothing
    if sx::flag() {
        let s = SymbolFact::new(ns(&["Z"]), SymbolKind::Class, r);
        if sx::flag() {
            x.symbols.push(s);
        } else {
            x.symbols.insert(0, s);
        }
    }
    match ProjectNeutralFileFactsTemplate::try_new(f, x) {
        Ok(_) => sx::check(case >= 22, "project-specific facts are shared"),
        Err(ProjectNeutralTemplateRejection::ProjectSpecificFacts) => {
            sx::check(case < 22, "facts nobody else sees keep a file from being shared");
            sx::cover("refused");
        }
        Err(_) => sx::fail("refused for another reason"),
    }
}

/// p0: which product (gem facts, Java archive, compiled extension); p1: header fields that are
/// symbolic; p2: bytes missing (or, from 100 on, added)
#[no_mangle]
pub extern "C" fn h_entry() {
    let kind = sx::param(0, 0);
    let payload: &[u8] = b"what was stored";
    let good = store::encode_entry(kind, payload).unwrap();
    let mut e = good.clone();
    // the part of the stored file that says what it is
    const FIELDS: [(usize, usize); 5] = [(0, 8), (8, 12), (12, 20), (20, 28), (28, 60)];
    let (s, n) = FIELDS[sx::param(1, 0) as usize];
    for i in s..n {
        e[i] = sx::u8();
    }
    match sx::param(2, 0) {
        0 => {}
        1 => {
            // torn at any byte
            let k = sx::choice(e.len() as u64) as usize;
            e.truncate(k);
        }
        2 => {
            // one payload byte changed
            let k = 60 + sx::choice(payload.len() as u64) as usize;
            e[k] = e[k].wrapping_add(sx::range(1, 255) as u8);
            e[k] = sx::concretize(e[k] as u64) as u8;
        }
        _ => e.push(sx::u8()),
    }
    let untouched = e == good;
    match store::decode_entry(kind, &e) {
        Ok(p) => {
            sx::check(untouched && p == payload, "a damaged stored product is used");
            sx::cover("used");
        }
        Err(_) => {
            sx::check(!untouched, "an intact stored product is refused");
            sx::cover("refused");
        }
    }
}

#[no_mangle]
pub extern "C" fn h_wasm() {
    let source: &[u8] = b"module";
    let artifact: &[u8] = b"native code";
    let key = CompiledWasmProductKey::new(source, 0x0123_4567_89ab_cdef);
    let good = store::encode_wasm(&key, artifact).unwrap();
    let mut e = good.clone();
    const FIELDS: [(usize, usize); 6] = [(0, 4), (4, 12), (12, 44), (44, 52), (52, 60), (60, 92)];
    let (s, n) = FIELDS[sx::param(1, 0) as usize];
    for i in s..n {
        e[i] = sx::u8();
    }
    match sx::param(2, 0) {
        0 => {}
        1 => {
            let k = sx::choice(e.len() as u64) as usize;
            e.truncate(k);
        }
        _ => {
            let k = 92 + sx::choice(artifact.len() as u64) as usize;
            e[k] = e[k].wrapping_add(sx::range(1, 255) as u8);
            e[k] = sx::concretize(e[k] as u64) as u8;
        }
    }
    // the same stored bytes, asked for by another extension or another compiler
    let other = match sx::choice(3) {
        0 => key.clone(),
        1 => CompiledWasmProductKey::new(b"modulf", 0x0123_4567_89ab_cdef),
        _ => CompiledWasmProductKey::new(source, 0x0123_4567_89ab_cdee),
    };
    // exactly what storing this code under the key asked for would have written
    let intact = e == store::encode_wasm(&other, artifact).unwrap();
    match store::decode_wasm(&other, e) {
        Ok(p) => {
            sx::check(intact && p == artifact, "code stored for something else is used");
            sx::cover("used");
        }
        Err(_) => {
            sx::check(!intact, "intact stored code is refused");
            sx::cover("refused");
        }
    }
}

// ------------------------------------------------------------------ products of gems
#[derive(Clone, PartialEq)]
struct File {
    batch: u32,
    logical: &'static str,
    content: &'static str,
}
#[derive(Clone, PartialEq)]
struct Ask {
    seed: u64,
    runtime: Option<&'static str>,
    closure: Vec<String>,
    files: Vec<File>,
}
fn seed(i: u64) -> SemanticExportFingerprint {
    let mut e = AnalysisEngine::new();
    if i > 0 {
        let f = e.register_file(SourceFileInput { path: PathBuf::from("/s.rb"), content: String::new(), kind: SourceKind::Stub });
        let s = SymbolFact::new(ns(&["Seed"]), SymbolKind::Class, TextRange::new(f, 0, 4));
        e.replace_facts(f, FileFacts { symbols: vec![s], ..FileFacts::default() }, ResolveMode::Deferred);
    }
    e.semantic_context_fingerprint()
}
fn manifest(a: &Ask, root: &str) -> GemDependencyManifest {
    let sources = a
        .files
        .iter()
        .map(|f| GemDependencySource::new(f.batch, f.logical.into(), PathBuf::from(format!("{root}/{}", f.logical)), f.content.into(), "gem", "1").unwrap())
        .collect();
    GemDependencyManifest::new(seed(a.seed), a.runtime, &a.closure, sources).unwrap()
}
fn at(f: SourceFileId, s: u32) -> TextRange {
    TextRange::new(f, s, s + 3)
}
fn gem_facts(logical: &str, f: SourceFileId, s: u32) -> FileFacts {
    let mut x = FileFacts::default();
    let c = if logical.starts_with("a") { "A" } else { "B" };
    x.symbols.push(SymbolFact::new(ns(&[c]), SymbolKind::Class, at(f, s)));
    x.graph_nodes.push(GraphNodeFact::new(ns(&[c]), GraphNodeKind::Class, at(f, s)));
    x.methods.push(MethodFact::with_params(FullyQualifiedName::method(path(&[c]), m("x")), ns(&[c]), at(f, s + 4), vec!["p".into()]));
    x
}
fn first() -> Ask {
    Ask {
        seed: 0,
        runtime: Some("r"),
        closure: vec!["a:1".into(), "b:2".into()],
        files: vec![File { batch: 0, logical: "a/x.rb", content: "class A" }, File { batch: 1, logical: "b/x.rb", content: "class B" }],
    }
}
fn product(a: &Ask, s: u32) -> GemDependencyProduct {
    let man = manifest(a, "/one");
    let files = man
        .sources()
        .iter()
        .map(|x| {
            let f = SourceFileId(90);
            GemDependencyFileTemplate::new(x.logical_path.clone(), x.content_sha256, ProjectNeutralFileFactsTemplate::try_new(f, gem_facts(&x.logical_path, f, s)).unwrap())
        })
        .collect();
    GemDependencyProduct::new(&man, files).unwrap()
}
type Seen = Vec<(PathBuf, u32, u32)>;
fn answers(e: &AnalysisEngine) -> Vec<Seen> {
    let q = e.query();
    let place = |r: &TextRange| (e.file(r.file_id).unwrap().path.clone(), r.start_byte, r.end_byte);
    let mut out = Vec::new();
    for c in ["A", "B"] {
        let mut v: Seen = q.constant_definition_ranges(&path(&[c]), &[]).iter().map(place).collect();
        v.sort();
        out.push(v);
        let mut v: Seen = e.method_facts_for(&FullyQualifiedName::method(path(&[c]), m("x"))).iter().map(|f| place(&f.range)).collect();
        v.sort();
        out.push(v);
    }
    out
}
/// A product made for one request serves exactly the requests that would have made it.
/// p0: how the second request differs (0 not at all)
#[no_mangle]
pub extern "C" fn h_request() {
    warm();
    seed(1);
    let a = first();
    manifest(&a, "/one");
    let mut b = a.clone();
    match sx::choice(15) {
        0 => {}
        1 => b.seed = 1,
        2 => b.runtime = None,
        3 => b.runtime = Some("s"),
        4 => b.closure = vec!["a:1".into()],
        5 => b.closure = vec!["b:2".into(), "a:1".into()],
        // the same bytes, divided differently
        6 => b.closure = vec!["a:1b".into(), ":2".into()],
        7 => b.files[0].content = "class C",
        8 => b.files[0].batch = 1,
        9 => b.files[1].logical = "b/y.rb",
        10 => b.files.truncate(1),
        11 => b.files.push(File { batch: 1, logical: "c/x.rb", content: "" }),
        12 => {
            b.files[0].content = "class B";
            b.files[1].content = "class A";
        }
        13 => b.closure.push(String::new()),
        // the order in which files are listed says nothing
        _ => b.files.reverse(),
    }
    let mut listed = b.files.clone();
    listed.sort_by_key(|f| (f.batch, f.logical));
    let alike = Ask { files: listed, ..b.clone() } == a;
    let (here, there) = (manifest(&a, "/one"), manifest(&b, "/two"));
    sx::check(same_identity(&here, &there) == alike, "requests are taken for one another");
    sx::check((cache_id(&here) == cache_id(&there)) == alike, "stored products are taken for one another");
    let s = sx::range(0, 100) as u32;
    let p = product(&a, s);
    let stored = encode_product(&p).unwrap();
    let p = if sx::flag() {
        match decode_product(&there, &stored) {
            Ok(q) => {
                sx::check(alike, "a stored product serves another request");
                sx::cover("decoded");
                q
            }
            Err(_) => {
                sx::check(!alike, "a stored product is refused to its own request");
                return;
            }
        }
    } else {
        p
    };
    let mut e = AnalysisEngine::new();
    e.register_file(SourceFileInput { path: PathBuf::from("/two/p.rb"), content: String::new(), kind: SourceKind::Project });
    let (count, before) = (e.file_count(), answers(&e));
    let bound = match sx::choice(3) {
        0 => p.bind_into_measured(&there, &mut e),
        1 => p.bind_owned_into_measured(there.clone(), &mut e),
        _ => {
            let x = p.bind_owned_deferred_into_measured(there.clone(), &mut e);
            e.resolve();
            x
        }
    };
    match bound {
        Err(_) => {
            sx::check(!alike, "a product is refused to its own request");
            sx::check(e.file_count() == count && answers(&e) == before, "a refused product leaves something behind");
            sx::cover("refused");
        }
        Ok(b) => {
            sx::check(alike, "a product serves another request");
            // as if this project had indexed the files itself
            let mut own = AnalysisEngine::new();
            own.register_file(SourceFileInput { path: PathBuf::from("/two/p.rb"), content: String::new(), kind: SourceKind::Project });
            for x in there.sources() {
                let f = own.register_gem_file(SourceFileInput { path: x.physical_path.clone(), content: x.content.to_string(), kind: SourceKind::Gem }, x.library_package());
                own.replace_facts(f, gem_facts(&x.logical_path, f, s), ResolveMode::Immediate);
            }
            sx::check(answers(&e) == answers(&own), "a reused dependency answers differently");
            sx::check(b.uris.len() == there.sources().len(), "files of the dependency are not announced");
            for x in there.sources() {
                sx::check(b.uris.iter().any(|u| u.path() == x.physical_path.to_str().unwrap()), "files of the dependency are not announced");
            }
            sx::cover("bound");
        }
    }
}
