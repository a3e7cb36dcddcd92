//! Warnings about calls: given exactly when the call cannot work in Ruby.
use crate::engine::*;
use crate::sx;
use ruby_analysis::core::*;
use ruby_analysis::engine::*;

fn call(range: TextRange, owner: &[&str], kind: NamespaceKind, m: RubyMethod, signature: Option<MethodCallSignatureCandidate>) -> ReferenceCandidate {
    ReferenceCandidate::method(
        range,
        MethodReferenceCandidate {
            owner: path(owner),
            owner_kind: kind,
            method: m,
            is_super: false,
            access: MethodReferenceAccess::Normal,
            caller: None,
            call_expression_range: None,
            preferred_definition_range: None,
            diagnostics: MethodReferenceDiagnostics {
                diagnostic_range: range,
                receiver_label: None,
                receiver_expression_range: None,
                receiver_type: None,
                diagnose_unresolved: true,
                allow_unindexed_owner: false,
                signature,
            },
        },
    )
}

const KW: [&str; 4] = ["kw0", "kw1", "kw2", "kw3"];

/// A call with symbolic arguments to a method with symbolic parameters, against Ruby's binding rules.
#[no_mangle]
pub extern "C" fn h_call_arity() {
    let n = sx::param(0, 2) as usize;
    let k = sx::param(1, 1) as usize;
    let uncertain = sx::param(2, 0) == 1;
    let mut params = Vec::new();
    let (mut min, mut max, mut rest, mut kwrest) = (0usize, 0usize, false, false);
    let mut declared = [0u8; 4]; // 1 required, 2 optional
    for i in 0..n {
        let x = sx::u8();
        sx::assume(x <= 9);
        let kind = unsafe { std::mem::transmute::<u8, MethodParamKind>(x) };
        params.push(MethodParamFact::new(KW[i], kind));
        match kind {
            MethodParamKind::Required => {
                min += 1;
                max += 1
            }
            MethodParamKind::Optional => max += 1,
            MethodParamKind::Rest | MethodParamKind::AnonymousRest => rest = true,
            MethodParamKind::RequiredKeyword => declared[i] = 1,
            MethodParamKind::OptionalKeyword => declared[i] = 2,
            MethodParamKind::KeywordRest | MethodParamKind::AnonymousKeywordRest => kwrest = true,
            MethodParamKind::Block => {}
            MethodParamKind::Forwarding => {
                rest = true;
                kwrest = true
            }
        }
    }
    let mut e = AnalysisEngine::new();
    let f = reg(&mut e, "a.rb", SourceKind::Project);
    // the arguments written in the call
    let positional = sx::range(0, 5) as usize;
    let mut keyword_args = Vec::new();
    let mut supplied = [false; 4];
    for i in 0..k {
        let at = sx::choice(4) as usize;
        supplied[at] = true;
        keyword_args.push(KeywordArgCandidate { name: KW[at].to_string(), range: rg(f, 300 + 10 * i as u32) });
    }
    let other_key = k == 0 && uncertain && sx::flag(); // "a" => 1
    let splat = uncertain && sx::flag();
    let kwsplat = uncertain && sx::flag();
    let maybe_hash = uncertain && sx::flag();
    sx::assume(!maybe_hash || positional > 0);
    let nonempty = k > 0 || other_key;
    let sig = MethodCallSignatureCandidate {
        positional_count: positional,
        has_positional_splat: splat,
        has_nonempty_keyword_hash: nonempty,
        trailing_positional_may_be_options_hash: maybe_hash,
        keyword_args,
        has_keyword_splat: kwsplat,
    };
    let m = RubyMethod::new("m").unwrap();
    let mut facts = FileFacts::default();
    facts.graph_nodes.push(GraphNodeFact::new(ns(&["A"]), GraphNodeKind::Class, rg(f, 1)));
    facts.methods.push(MethodFact::with_param_facts(meth(&["A"], "m"), ns(&["A"]), rg(f, 10), params));
    facts.reference_candidates.push(call(rg(f, 200), &["A"], NamespaceKind::Instance, m, Some(sig)));
    e.replace_facts(f, facts, ResolveMode::Immediate);

    let found = e.diagnostic_facts_in_file(f);
    let has = |code: &str, r: TextRange| found.iter().any(|d| d.code == code && d.range == r);
    let declares = kwrest || declared.iter().any(|d| *d != 0);
    let fits = |p: usize| p >= min && (rest || p <= max);
    let warned = has("wrong-arity", rg(f, 200));
    // what the call may pass when it runs
    let more = if splat { sx::range(0, 6) as usize } else { 0 };
    let spread = kwsplat && sx::bool(); // the spread hash is not empty
    let p = positional + more;
    let p = if !declares && (nonempty || spread) { p + 1 } else { p };
    if warned {
        sx::cover("wrong number of arguments");
        sx::check(!fits(p), "a call with an acceptable number of arguments gets a warning");
        if maybe_hash && declares {
            sx::check(!fits(p - 1), "a call whose last argument may be the keywords gets a warning");
        }
    } else if !splat && !(kwsplat && !declares) && !(maybe_hash && declares) {
        sx::check(fits(p), "a call with too few or too many arguments gets no warning");
    }
    // keywords
    let mut unknown = 0;
    for d in &found {
        if d.code == "unknown-kwarg" {
            unknown += 1;
            sx::cover("unknown keyword");
            sx::check(declares && !kwrest, "a method that takes any keyword gets an unknown keyword warning");
            let named = (0..4).find(|j| d.message.starts_with(&format!("Unknown keyword argument `{}:`", KW[*j])));
            sx::check(named.is_some(), "an unknown keyword warning names no keyword");
            if let Some(j) = named {
                sx::check(supplied[j] && declared[j] == 0, "a declared keyword is called unknown");
            }
        }
    }
    if declares && !kwrest && !kwsplat {
        let want = (0..4).filter(|j| supplied[*j] && declared[*j] == 0).count();
        sx::check((want > 0) == (unknown > 0), "an unknown keyword gets no warning");
    }
    let missing = (0..4).any(|j| declared[j] == 1 && !supplied[j]);
    let told = has("missing-kwarg", rg(f, 200));
    if told {
        sx::cover("missing keyword");
        sx::check(missing, "a call with all required keywords gets a missing keyword warning");
        sx::check(!kwsplat && !splat && !maybe_hash, "keywords that may be passed are called missing");
        let d = found.iter().find(|d| d.code == "missing-kwarg").unwrap();
        for j in 0..4 {
            sx::check(d.message.contains(&format!("`{}:`", KW[j])) == (declared[j] == 1 && !supplied[j]), "a missing keyword warning names the wrong keywords");
        }
    } else if !kwsplat && !splat && !maybe_hash {
        sx::check(!missing, "a missing required keyword gets no warning");
    }
    let known = |c: &str| c == "wrong-arity" || c == "unknown-kwarg" || c == "missing-kwarg";
    sx::check(found.iter().all(|d| known(&d.code)), "a call that resolves gets another warning");
    if found.is_empty() {
        sx::cover("accepted");
    }
}

/// A call is called unresolved exactly when every ancestor is known and none defines the method.
#[no_mangle]
pub extern "C" fn h_call_unresolved() {
    let singleton = sx::param(0, 0) == 1;
    const NAME: [&str; 4] = ["A", "B", "M", "N"];
    let mut e = AnalysisEngine::new();
    let f = reg(&mut e, "a.rb", SourceKind::Project);
    let f2 = reg(&mut e, "b.rb", SourceKind::Project);
    let mut known = [true; 4];
    for k in known.iter_mut().skip(1) {
        *k = sx::flag();
    }
    let mut facts = FileFacts::default();
    let mut other = FileFacts::default();
    let mut has = [false; 4];
    let me = |i: usize| if singleton && i < 2 { sing(&[NAME[i]]) } else { ns(&[NAME[i]]) };
    for i in 0..4 {
        if !known[i] {
            continue;
        }
        let kind = if i < 2 { GraphNodeKind::Class } else { GraphNodeKind::Module };
        let (t, file) = if i == 0 { (&mut facts, f) } else { (&mut other, f2) };
        t.graph_nodes.push(GraphNodeFact::new(ns(&[NAME[i]]), kind, rg(file, 1 + i as u32)));
        t.graph_nodes.push(GraphNodeFact::new(sing(&[NAME[i]]), kind, rg(file, 1 + i as u32)));
        has[i] = sx::flag();
        if has[i] {
            t.methods.push(MethodFact::new(meth(&[NAME[i]], "m"), me(i), rg(file, 100 + 10 * i as u32)));
        }
    }
    let mix = || {
        let x = sx::u8();
        sx::assume(x == 1 || x == 2);
        unsafe { std::mem::transmute::<u8, GraphEdgeKind>(x) }
    };
    let mut reach = [true, false, false, false];
    if sx::flag() {
        reach[1] = true;
        facts.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(ns(&["A"]), path(&["B"]), false, ns(&[]), GraphEdgeKind::Superclass, rg(f, 10)));
    }
    let at_b = sx::flag();
    if sx::flag() {
        // the module is mixed into A or into B (whose facts exist only when B is known)
        if at_b {
            if known[1] {
                reach[2] = reach[1];
                other.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(me(1), path(&["M"]), false, ns(&["B"]), mix(), rg(f2, 20)));
            }
        } else {
            reach[2] = true;
            facts.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(me(0), path(&["M"]), false, ns(&["A"]), mix(), rg(f, 20)));
        }
    }
    if known[2] && sx::flag() {
        reach[3] = reach[2];
        other.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(ns(&["M"]), path(&["N"]), false, ns(&["M"]), mix(), rg(f2, 30)));
    }
    let kind = if singleton { NamespaceKind::Singleton } else { NamespaceKind::Instance };
    facts.reference_candidates.push(call(rg(f, 200), &["A"], kind, RubyMethod::new("m").unwrap(), None));
    e.replace_facts(f, facts, ResolveMode::Deferred);
    e.replace_facts(f2, other, ResolveMode::Deferred);
    e.resolve();
    let complete = (0..4).all(|i| !reach[i] || known[i]);
    let defined = (0..4).any(|i| reach[i] && has[i]);
    let d = e.diagnostic_facts_in_file(f);
    let warned = d.iter().any(|d| d.code == "unresolved-method" && d.range == rg(f, 200));
    if warned {
        sx::cover("unresolved");
        sx::check(!defined, "a call to a defined method is called unresolved");
        sx::check(complete, "a call is called unresolved although an ancestor is unknown");
    } else {
        // what a singleton class inherits from Class is not part of this program
        sx::check(!complete || defined || singleton, "a call to an undefined method gets no warning");
        if !complete {
            sx::cover("unknown ancestor");
        } else {
            sx::cover("defined");
        }
    }
}

/// One version of a file: what it exports, at which places.
struct Version {
    include: [Option<u32>; 2],
    /// definitions of m, with or without a parameter
    define: [Option<(u32, bool)>; 2],
    set: [Option<(u32, ruby_analysis::core::method_store::MethodVisibility)>; 2],
    body: u32,
}
fn version(mode: u64) -> Version {
    let mut v = Version { include: [None; 2], define: [None; 2], set: [None; 2], body: sx::range(150, 160) as u32 };
    // which of the two comes first is a case, where exactly each lies is symbolic
    let swap = sx::flag();
    let place = |i: usize| (if (i == 0) != swap { sx::range(20, 35) } else { sx::range(42, 57) }) as u32;
    match mode {
        0 => {
            for i in 0..2 {
                if sx::flag() {
                    v.include[i] = Some(place(i));
                }
            }
        }
        1 => {
            for i in 0..2 {
                if sx::flag() {
                    v.define[i] = Some((place(i), i == 0));
                }
            }
        }
        _ => {
            use ruby_analysis::core::method_store::MethodVisibility;
            v.define[0] = Some((20, true));
            for i in 0..2 {
                if sx::flag() {
                    v.set[i] = Some((40 + place(i), if i == 0 { MethodVisibility::Private } else { MethodVisibility::Public }));
                }
            }
        }
    }
    v
}
fn exports(f: SourceFileId, v: &Version) -> FileFacts {
    let mut x = FileFacts::default();
    x.graph_nodes.push(GraphNodeFact::new(ns(&["A"]), GraphNodeKind::Class, rg(f, 1)));
    let mut links: Vec<(u32, &str)> = Vec::new();
    for (i, n) in ["M", "N"].into_iter().enumerate() {
        if let Some(at) = v.include[i] {
            links.push((at, n));
        }
    }
    // facts arrive in source order
    if links.len() == 2 && links[0].0 > links[1].0 {
        links.swap(0, 1);
    }
    for (at, n) in links {
        x.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(ns(&["A"]), path(&[n]), false, ns(&["A"]), GraphEdgeKind::Include, rg(f, at)));
    }
    let mut defs: Vec<(u32, bool)> = v.define.iter().flatten().copied().collect();
    if defs.len() == 2 && defs[0].0 > defs[1].0 {
        defs.swap(0, 1);
    }
    for (at, param) in defs {
        let p = if param { vec![MethodParamFact::new("x", MethodParamKind::Required)] } else { Vec::new() };
        x.methods.push(MethodFact::with_param_facts(meth(&["A"], "m"), ns(&["A"]), rg(f, at), p));
    }
    let mut sets: Vec<_> = v.set.iter().flatten().copied().collect();
    if sets.len() == 2 && sets[0].0 > sets[1].0 {
        sets.swap(0, 1);
    }
    for (at, vis) in sets {
        x.method_visibility_overrides.push(MethodVisibilityOverrideFact::new(ns(&["A"]), RubyMethod::new("m").unwrap(), vis, rg(f, at)));
    }
    x.reference_candidates.push(ReferenceCandidate::constant(rg(f, v.body), path(&["M"]), path(&["A"])));
    x
}

/// An edit said to change only bodies changes no answer about any other file.
#[no_mangle]
pub extern "C" fn h_edit_scope() {
    let mode = sx::param(0, 0);
    let m = RubyMethod::new("m").unwrap();
    let mut e = AnalysisEngine::new();
    let f = reg(&mut e, "a.rb", SourceKind::Project);
    let q = reg(&mut e, "m.rb", SourceKind::Project);
    let c = reg(&mut e, "c.rb", SourceKind::Project);
    let mut mods = FileFacts::default();
    for (i, n) in ["M", "N"].into_iter().enumerate() {
        mods.graph_nodes.push(GraphNodeFact::new(ns(&[n]), GraphNodeKind::Module, rg(q, 1 + i as u32)));
        if mode == 0 {
            mods.methods.push(MethodFact::with_param_facts(meth(&[n], "m"), ns(&[n]), rg(q, 100 + 10 * i as u32), if i == 0 { vec![MethodParamFact::new("x", MethodParamKind::Required)] } else { Vec::new() }));
        }
    }
    e.replace_facts(q, mods, ResolveMode::Deferred);
    let mut uses = FileFacts::default();
    uses.graph_nodes.push(GraphNodeFact::new(ns(&["B"]), GraphNodeKind::Class, rg(c, 1)));
    uses.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(ns(&["B"]), path(&["A"]), false, ns(&[]), GraphEdgeKind::Superclass, rg(c, 10)));
    let sig = MethodCallSignatureCandidate { positional_count: 1, ..Default::default() };
    uses.reference_candidates.push(call(rg(c, 200), &["B"], NamespaceKind::Instance, m, Some(sig)));
    e.replace_facts(c, uses, ResolveMode::Deferred);
    let first = version(mode);
    e.replace_facts(f, exports(f, &first), ResolveMode::Immediate);
    let second = version(mode);
    let change = e.replace_facts(f, exports(f, &second), ResolveMode::Deferred);
    e.resolve_file(f);
    sx::check(change != SemanticChange::InitialIndex, "a known file counts as new");
    let seen = |e: &AnalysisEngine| {
        let mut d: Vec<_> = e.diagnostic_facts_in_file(c).into_iter().map(|d| (d.range, d.code, d.message)).collect();
        d.sort();
        let r = ["A", "M", "N"].map(|n| e.query().references_for_fqn(&meth(&[n], "m")).iter().any(|r| r.range == rg(c, 200)));
        (d, r)
    };
    let before = seen(&e);
    let own = refs_of(&e, f);
    e.resolve();
    let after = seen(&e);
    sx::check(own == refs_of(&e, f), "the edited file itself is not up to date");
    if change == SemanticChange::BodyOnly {
        sx::cover("body only");
        sx::check(before == after, "an edit that counts as body-only changes the answers about another file");
    } else {
        sx::cover("exports changed");
    }
}
fn refs_of(e: &AnalysisEngine, f: SourceFileId) -> Vec<TextRange> {
    e.query().references_in_file(f).iter().map(|r| r.range).collect()
}

/// What a file tells other files, in one of two variants per aspect, at symbolic places.
struct Told {
    base: u32,
    aspect: u64,
}
fn tell(f: SourceFileId, t: &Told) -> FileFacts {
    use ruby_analysis::core::method_store::MethodVisibility;
    let at = |k: u32| rg(f, t.base + k);
    let is = |k: u64| t.aspect == k;
    let mut x = FileFacts::default();
    let a = ns(&["A"]);
    x.graph_nodes.push(GraphNodeFact::new(a.clone(), if is(1) { GraphNodeKind::Module } else { GraphNodeKind::Class }, at(1)));
    x.symbols.push(SymbolFact::new(a.clone(), SymbolKind::Class, at(1)));
    if !is(2) {
        x.symbols.push(SymbolFact::new(FullyQualifiedName::constant(path(&["A", "K"])), SymbolKind::Constant, at(4)));
    }
    let kind = if is(4) { GraphEdgeKind::Prepend } else { GraphEdgeKind::Include };
    let target: &[&str] = if is(3) { &["N"] } else { &["M"] };
    x.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(a.clone(), path(target), is(5), if is(6) { ns(&[]) } else { a.clone() }, kind, at(8)));
    if is(7) {
        x.graph_edges.push(GraphEdgeFact::new(a.clone(), ns(&["P"]), GraphEdgeKind::Superclass, at(12)));
    }
    if !is(8) {
        let name = if is(9) { "m" } else { "k" };
        let params = if is(10) {
            Vec::new()
        } else {
            vec![MethodParamFact::new(if is(11) { "y" } else { "x" }, if is(12) { MethodParamKind::Optional } else { MethodParamKind::Required })]
        };
        x.methods.push(
            MethodFact::with_param_facts(meth(&["A"], name), a.clone(), at(16), params)
                .with_visibility(if is(13) { MethodVisibility::Protected } else { MethodVisibility::Public })
                .with_signature_metadata(None, if is(14) { Some("String".into()) } else { None })
                .with_availability(if is(15) { MethodAvailability::Absent { reason: "gone".into() } } else { MethodAvailability::Available }),
        );
    }
    if is(16) {
        x.method_visibility_overrides.push(MethodVisibilityOverrideFact::new(a.clone(), RubyMethod::new("k").unwrap(), MethodVisibility::Private, at(20)));
    }
    let ty = |k: u64| if is(k) { RubyType::string() } else { RubyType::integer() };
    x.types.push(TypeFact::new(TypeSubject::Constant(FullyQualifiedName::constant(path(&["A", "K"]))), ty(17), at(24), TypeProvenance::Literal));
    x.types.push(TypeFact::new(TypeSubject::MethodReturn(meth(&["A"], "k")), ty(18), at(28), TypeProvenance::Yard));
    x.types.push(TypeFact::new(TypeSubject::Parameter { method: meth(&["A"], "k"), name: "x".into() }, ty(19), at(32), TypeProvenance::Yard));
    // what no other file can see
    x.types.push(TypeFact::new(TypeSubject::Local { scope_id: 1, name: "l".into() }, ty(20), at(36), TypeProvenance::Assignment));
    if !is(21) {
        x.reference_candidates.push(ReferenceCandidate::constant(at(40), path(&["M"]), path(&["A"])));
    }
    x
}
const ASPECTS: u64 = 22;

/// An edit counts as body-only exactly if nothing another file can see has changed; moving things is not a change.
#[no_mangle]
pub extern "C" fn h_edit_exports() {
    let mut e = AnalysisEngine::new();
    let f = reg(&mut e, "a.rb", SourceKind::Project);
    let any = || {
        let aspect = sx::choice(ASPECTS);
        // with two links their order is hashed: there the place is one of two
        Told { base: if aspect == 7 { 500 * sx::choice(2) } else { sx::range(0, 1000) } as u32, aspect }
    };
    let (first, second) = (any(), any());
    let c1 = e.replace_facts(f, tell(f, &first), ResolveMode::Deferred);
    sx::check(c1 == SemanticChange::InitialIndex, "a new file does not count as new");
    let c2 = e.replace_facts(f, tell(f, &second), ResolveMode::Deferred);
    let visible = |k: u64| if k == 20 || k == 21 { 0 } else { k };
    if visible(first.aspect) == visible(second.aspect) {
        sx::cover("nothing visible changed");
        sx::check(c2 == SemanticChange::BodyOnly, "an edit that changes nothing visible elsewhere counts as a change of exports");
    } else {
        sx::cover("something visible changed");
        sx::check(c2 == SemanticChange::ExportsChanged, "an edit that changes what other files see counts as body-only");
    }
}
