//! Constants and hierarchies over a small program.
use crate::engine::*;
use crate::sx;
use ruby_analysis::core::*;
use ruby_analysis::engine::*;
use std::path::PathBuf;

const PATHS: [&[&str]; 7] = [&["A"], &["B"], &["A", "A"], &["A", "B"], &["B", "A"], &["A", "A", "B"], &["A", "B", "A"]];

#[derive(Clone, Copy, PartialEq)]
enum Def {
    No,
    Namespace,
    Value,
}

fn index(p: &[&str]) -> Option<usize> {
    PATHS.iter().position(|q| *q == p)
}
fn fqn(i: usize, d: Def) -> FullyQualifiedName {
    if d == Def::Value {
        FullyQualifiedName::constant(path(PATHS[i]))
    } else {
        ns(PATHS[i])
    }
}

/// Ruby's lexical lookup: the nearest enclosing scope that has the name.
fn lookup(def: &[Def; 7], parts: &[&str], context: &[&str]) -> Option<usize> {
    for depth in (0..=context.len()).rev() {
        let mut p = context[..depth].to_vec();
        p.extend(parts);
        if let Some(i) = index(&p) {
            if def[i] != Def::No {
                return Some(i);
            }
        }
    }
    None
}

#[no_mangle]
pub extern "C" fn h_constants() {
    let deep = sx::param(0, 0) == 1;
    let values = sx::param(1, 0) == 1;
    let n = if deep { 7 } else { 5 };
    let mut e = AnalysisEngine::new();
    let text = "A B A::B B::A A::A ".to_string();
    let f = e.register_file(SourceFileInput { path: PathBuf::from("a.rb"), content: text.clone(), kind: SourceKind::Project });
    // the second file is part of the project or of any other origin
    let x = sx::u8();
    sx::assume(x <= 6);
    let origin = unsafe { std::mem::transmute::<u8, SourceKind>(x) };
    sx::assume(origin != SourceKind::Excluded);
    let gem = origin != SourceKind::Project;
    let f2 = e.register_file(SourceFileInput { path: PathBuf::from("b.rb"), content: text.clone(), kind: origin });
    let mut def = [Def::No; 7];
    let mut place: [[Option<TextRange>; 2]; 7] = [[None; 2]; 7];
    let mut one = FileFacts::default();
    let mut two = FileFacts::default();
    for i in 0..n {
        let p = PATHS[i];
        let inside = p.len() == 1 || def[index(&p[..p.len() - 1]).unwrap()] == Def::Namespace;
        if !inside || !sx::flag() {
            continue;
        }
        def[i] = if values && sx::flag() { Def::Value } else { Def::Namespace };
        let files = sx::choice(3); // in the first file, the second, or reopened in both
        for k in 0..2u64 {
            if files != 2 && files != k {
                continue;
            }
            let (t, file) = if k == 0 { (&mut one, f) } else { (&mut two, f2) };
            let at = sx::range(100 * (i as u64 + 1), 100 * (i as u64 + 1) + 50) as u32;
            let r = TextRange::new(file, at, at + 9);
            let name = TextRange::new(file, at + 6, at + 7);
            let kind = if def[i] == Def::Value { SymbolKind::Constant } else { SymbolKind::Class };
            t.symbols.push(SymbolFact::new(fqn(i, def[i]), kind, r).with_name_range(name));
            place[i][k as usize] = Some(r);
            if def[i] == Def::Namespace {
                t.graph_nodes.push(GraphNodeFact::new(ns(p), GraphNodeKind::Class, r));
            }
        }
    }
    // a reference from inside any namespace
    const CONTEXTS: [&[&str]; 4] = [&[], &["A"], &["A", "B"], &["B"]];
    const PARTS: [&[&str]; 4] = [&["A"], &["B"], &["A", "B"], &["B", "A"]];
    let context = CONTEXTS[sx::choice(4) as usize];
    sx::assume(context.is_empty() || def[index(context).unwrap()] == Def::Namespace);
    let parts = PARTS[sx::choice(4) as usize];
    let want = lookup(&def, parts, context);
    if parts.len() == 2 {
        // the first name decides; a path that only exists further out is an error in Ruby
        let first = lookup(&def, &parts[..1], context);
        let ok = match (first, want) {
            (Some(a), Some(b)) => PATHS[b][..PATHS[b].len() - 1] == *PATHS[a],
            (_, None) => true,
            _ => false,
        };
        sx::assume(ok);
    }
    let written = parts.join("::");
    let at = sx::range(1000, 2000) as u32;
    let used = TextRange::new(f, at, at + written.len() as u32);
    let last = TextRange::new(f, used.end_byte - 1, used.end_byte);
    one.reference_candidates.push(ReferenceCandidate::constant(used, path(parts), path(context)));
    let order = sx::flag();
    if order {
        e.replace_facts(f, one, ResolveMode::Deferred);
        e.replace_facts(f2, two, ResolveMode::Deferred);
        e.resolve();
    } else {
        e.replace_facts(f2, two, ResolveMode::Immediate);
        e.replace_facts(f, one, ResolveMode::Immediate);
    }
    let q = e.query();
    let (pp, cc) = (path(parts), path(context));
    let got = q.resolve_constant_in_context(&pp, &cc);
    sx::check(got == want.map(|i| fqn(i, def[i])), "a constant resolves to another one than Ruby's");
    let unresolved = e.diagnostic_facts_in_file(f).iter().any(|d| d.code == "unresolved-constant" && d.range == used);
    sx::check(unresolved == want.is_none(), "a constant is called unresolved although it is defined, or not although it is undefined");
    for i in 0..n {
        if def[i] == Def::No {
            continue;
        }
        let hit = q.references_for_fqn(&fqn(i, def[i])).iter().any(|r| r.range == used);
        sx::check(hit == (want == Some(i)), "a use of a constant is listed under another one, or missing");
    }
    let ranges = q.constant_definition_ranges(&pp, &cc);
    let mut expect = Vec::new();
    if let Some(i) = want {
        sx::cover("resolved");
        expect = place[i].iter().flatten().copied().collect();
        sx::check(q.constant_reference_ranges(&pp, &cc) == vec![used], "the uses of a constant are wrong");
    } else {
        sx::cover("unresolved");
    }
    // signature declarations are shown only when there is nothing else
    let all = expect.clone();
    if origin == SourceKind::Signature {
        if expect.iter().any(|r| r.file_id == f) {
            expect.retain(|r| r.file_id == f);
        }
    }
    let mut sorted = ranges.clone();
    sorted.sort_by_key(|r| (r.file_id, r.start_byte));
    sx::check(sorted == expect, "the definitions of a constant are wrong");
    // renaming edits every definition and use in the project, and nothing else
    let rename = q.constant_rename_target(&pp, &cc);
    let editable: Vec<TextRange> = all.iter().filter(|r| !gem || r.file_id == f).map(|r| TextRange::new(r.file_id, r.start_byte + 6, r.start_byte + 7)).collect();
    match rename {
        None => sx::check(editable.is_empty(), "a constant of the project cannot be renamed"),
        Some(t) => {
            sx::cover("renamed");
            let mut all = editable.clone();
            sx::check(!all.is_empty(), "a constant outside the project can be renamed");
            all.push(last);
            all.sort_by_key(|r| (r.file_id, r.start_byte));
            sx::check(t.ranges == all, "renaming a constant misses a place or edits another one");
            sx::check(Some(t.fqn) == want.map(|i| fqn(i, def[i])), "renaming edits another constant");
        }
    }
}

#[no_mangle]
pub extern "C" fn h_hierarchy() {
    let links = sx::param(0, 3) as usize;
    let unresolved = sx::param(1, 0) == 1;
    const NAME: [&str; 4] = ["A", "B", "M", "N"];
    let mut e = AnalysisEngine::new();
    let f = reg(&mut e, "a.rb", SourceKind::Project);
    let mut facts = FileFacts::default();
    for i in 0..4 {
        let kind = if i < 2 { GraphNodeKind::Class } else { GraphNodeKind::Module };
        facts.graph_nodes.push(GraphNodeFact::new(ns(&[NAME[i]]), kind, rg(f, 1 + i as u32)));
    }
    // every link: from, to, kind (0 superclass, 1 include, 2 prepend, 3 extend)
    let mut link: Vec<(usize, usize, GraphEdgeKind)> = Vec::new();
    const PAIRS: [(usize, usize); 7] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (3, 2)];
    let mut prev = 0;
    for k in 0..links {
        let at = sx::choice(8) as usize;
        if at == 7 {
            break;
        }
        sx::assume(k == 0 || at > prev);
        prev = at;
        let (a, b) = PAIRS[at];
        let kind = edge_kind();
        sx::assume((b < 2) == (kind == GraphEdgeKind::Superclass));
        link.push((a, b, kind));
    }
    for (k, (a, b, kind)) in link.iter().enumerate() {
        let r = rg(f, 20 + 4 * k as u32);
        if unresolved {
            facts.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(ns(&[NAME[*a]]), path(&[NAME[*b]]), false, ns(&[]), *kind, r));
        } else {
            facts.graph_edges.push(GraphEdgeFact::new(ns(&[NAME[*a]]), ns(&[NAME[*b]]), *kind, r));
        }
    }
    let m = RubyMethod::new("m").unwrap();
    let mut has = [false; 4];
    for i in 0..4 {
        has[i] = sx::flag();
        if has[i] {
            facts.methods.push(MethodFact::new(meth(&[NAME[i]], "m"), ns(&[NAME[i]]), rg(f, 100 + 10 * i as u32)));
        }
    }
    e.replace_facts(f, facts, ResolveMode::Immediate);
    let q = e.query();
    let inverse = |r: TypeHierarchyRelation| match r {
        TypeHierarchyRelation::Superclass => TypeHierarchyRelation::Subclass,
        TypeHierarchyRelation::Include => TypeHierarchyRelation::IncludedBy,
        TypeHierarchyRelation::Prepend => TypeHierarchyRelation::PrependedBy,
        _ => TypeHierarchyRelation::ExtendedBy,
    };
    let relation = |k: GraphEdgeKind| match k {
        GraphEdgeKind::Superclass => TypeHierarchyRelation::Superclass,
        GraphEdgeKind::Include => TypeHierarchyRelation::Include,
        GraphEdgeKind::Prepend => TypeHierarchyRelation::Prepend,
        _ => TypeHierarchyRelation::Extend,
    };
    let mut down = [[false; 4]; 4];
    for i in 0..4 {
        let sup = q.supertypes(&ns(&[NAME[i]]));
        let sub = q.subtypes(&ns(&[NAME[i]]));
        for j in 0..4 {
            let it = link.iter().find(|l| l.0 == i && l.1 == j);
            let s: Vec<_> = sup.iter().filter(|x| x.fqn == ns(&[NAME[j]])).collect();
            sx::check(s.len() == it.is_some() as usize, "a supertype is missing or listed twice");
            if let (Some(l), Some(x)) = (it, s.first()) {
                sx::cover("related");
                sx::check(x.relation == relation(l.2) && !x.unresolved, "a supertype is listed under another relation");
                sx::check(x.range == rg(f, 1 + j as u32), "a supertype is listed at another place");
            }
            let back = link.iter().find(|l| l.0 == j && l.1 == i);
            let s: Vec<_> = sub.iter().filter(|x| x.fqn == ns(&[NAME[j]])).collect();
            sx::check(s.len() == back.is_some() as usize, "a subtype is missing or listed twice");
            if let (Some(l), Some(x)) = (back, s.first()) {
                sx::check(x.relation == inverse(relation(l.2)), "a subtype is listed under another relation");
                down[i][j] = true;
            }
        }
        sx::check(sup.len() + 0 == link.iter().filter(|l| l.0 == i).count(), "an unrelated supertype is listed");
        sx::check(sub.len() == link.iter().filter(|l| l.1 == i).count(), "an unrelated subtype is listed");
    }
    // who inherits from or mixes in a namespace, directly or not
    for _ in 0..3 {
        for i in 0..4 {
            for j in 0..4 {
                if down[i][j] {
                    for k in 0..4 {
                        if down[j][k] {
                            down[i][k] = true;
                        }
                    }
                }
            }
        }
    }
    for i in 0..4 {
        let got = q.implementor_namespaces(&ns(&[NAME[i]]));
        for j in 0..4 {
            if i != j {
                let n = got.iter().filter(|x| **x == ns(&[NAME[j]])).count();
                sx::check(n == down[i][j] as usize, "an implementor is missing, wrong or listed twice");
                if n > 0 {
                    sx::cover("implementor");
                }
            }
        }
        let mut at = q.method_implementation_ranges(&ns(&[NAME[i]]), &m);
        at.sort_by_key(|r| r.start_byte);
        let want: Vec<TextRange> = (0..4).filter(|j| *j != i && down[i][*j] && has[*j]).map(|j| rg(f, 100 + 10 * j as u32)).collect();
        sx::check(at == want, "the implementations of a method are wrong");
    }
}

/// Callers and callees mirror each other, and name every call once.
#[no_mangle]
pub extern "C" fn h_call_hierarchy() {
    let calls = sx::param(0, 3) as usize;
    const NAME: [&str; 3] = ["A", "B", "C"];
    let mut e = AnalysisEngine::new();
    let f = reg(&mut e, "a.rb", SourceKind::Project);
    let f2 = reg(&mut e, "b.rb", SourceKind::Project);
    let mut facts = FileFacts::default();
    let mut other = FileFacts::default();
    for i in 0..3 {
        let (t, file) = if i == 2 { (&mut other, f2) } else { (&mut facts, f) };
        t.graph_nodes.push(GraphNodeFact::new(ns(&[NAME[i]]), GraphNodeKind::Class, rg(file, 1 + i as u32)));
        t.methods.push(MethodFact::new(meth(&[NAME[i]], "m"), ns(&[NAME[i]]), rg(file, 100 + 10 * i as u32)));
    }
    let inherits = sx::flag(); // B < A: calls on B's k reach A's m when only A has it
    if inherits {
        facts.graph_edges.push(GraphEdgeFact::new(ns(&["B"]), ns(&["C"]), GraphEdgeKind::Superclass, rg(f, 10)));
    }
    let mut made: Vec<(usize, usize, TextRange)> = Vec::new();
    let mut at: Vec<u32> = Vec::new();
    for _ in 0..calls {
        let from = sx::choice(3) as usize;
        let to = sx::choice(3) as usize;
        let p = sx::range(200, 240) as u32;
        for x in &at {
            sx::assume(p > *x + 2 || *x > p + 2);
        }
        at.push(p);
        let (t, file) = if from == 2 { (&mut other, f2) } else { (&mut facts, f) };
        t.reference_candidates.push(ReferenceCandidate::method_target(rg(file, p), path(&[NAME[to]]), NamespaceKind::Instance, RubyMethod::new("m").unwrap(), Some(meth(&[NAME[from]], "m"))));
        made.push((from, to, rg(file, p)));
    }
    e.replace_facts(f, facts, ResolveMode::Deferred);
    e.replace_facts(f2, other, ResolveMode::Deferred);
    e.resolve();
    let q = e.query();
    for i in 0..3 {
        let inc = q.incoming_calls(&meth(&[NAME[i]], "m"));
        let out = q.outgoing_calls(&meth(&[NAME[i]], "m"));
        let mut n = 0;
        for c in &inc {
            let j = (0..3).find(|j| c.from.fqn == meth(&[NAME[*j]], "m"));
            sx::check(j.is_some(), "a caller is not one of the callers");
            for r in &c.from_ranges {
                n += 1;
                sx::check(made.iter().any(|(a, b, x)| Some(*a) == j && *b == i && x == r), "a call is attributed to another caller");
            }
        }
        sx::check(n == made.iter().filter(|c| c.1 == i).count(), "a caller is missing or listed twice");
        let mut n = 0;
        for c in &out {
            let j = (0..3).find(|j| c.to.fqn == meth(&[NAME[*j]], "m"));
            sx::check(j.is_some(), "a callee is not one of the callees");
            for r in &c.from_ranges {
                n += 1;
                sx::check(made.iter().any(|(a, b, x)| *a == i && Some(*b) == j && x == r), "a call is attributed to another callee");
            }
        }
        sx::check(n == made.iter().filter(|c| c.0 == i).count(), "a callee is missing or listed twice");
        if n > 0 {
            sx::cover("calls");
        }
        for a in [&inc.iter().map(|c| c.from.fqn.clone()).collect::<Vec<_>>(), &out.iter().map(|c| c.to.fqn.clone()).collect::<Vec<_>>()] {
            for x in 0..a.len() {
                for y in 0..x {
                    sx::check(a[x] != a[y], "a method is listed twice among callers or callees");
                }
            }
        }
    }
}
