//! Method dispatch over a small class graph, against Ruby's own lookup order.
use crate::engine::*;
use crate::sx;
use ruby_analysis::core::method_store::MethodVisibility;
use ruby_analysis::core::*;
use ruby_analysis::engine::*;

const A: usize = 0;
const B: usize = 1;
const M: usize = 2;
const N: usize = 3;
const NAME: [&str; 4] = ["A", "B", "M", "N"];

#[derive(Clone, Copy, PartialEq)]
enum Mix {
    None,
    Include,
    Prepend,
}

fn mix() -> Mix {
    match sx::choice(3) {
        0 => Mix::None,
        1 => Mix::Include,
        _ => Mix::Prepend,
    }
}

/// what each namespace mixes in, in source order, and the superclass of A
struct Graph {
    mixins: [Vec<(Mix, usize)>; 4],
    a_inherits_b: bool,
}

/// the order in which Ruby looks through the ancestors (no module reached twice)
fn ancestors(g: &Graph, n: usize, out: &mut Vec<usize>) {
    for (k, t) in g.mixins[n].iter().rev() {
        if *k == Mix::Prepend {
            ancestors(g, *t, out);
        }
    }
    out.push(n);
    for (k, t) in g.mixins[n].iter().rev() {
        if *k == Mix::Include {
            ancestors(g, *t, out);
        }
    }
    if n == A && g.a_inherits_b {
        ancestors(g, B, out);
    }
}

fn fqn(i: usize, singleton: bool) -> FullyQualifiedName {
    if singleton && i < 2 {
        sing(&[NAME[i]])
    } else {
        ns(&[NAME[i]])
    }
}

#[no_mangle]
pub extern "C" fn h_dispatch() {
    let singleton = sx::param(0, 0) == 1;
    let unresolved = sx::param(1, 0) == 1;
    let two_files = sx::param(2, 0) == 1;
    let vis = sx::param(3, 0) >= 1; // 1: without N; 2: also `private :m` and the like in A and B
    let set = sx::param(3, 0) == 2;
    let mut e = AnalysisEngine::new();
    let f = reg(&mut e, "a.rb", SourceKind::Project);
    let f2 = reg(&mut e, "b.rb", SourceKind::Project);
    let fb = if two_files { f2 } else { f };
    let mut g = Graph { mixins: [Vec::new(), Vec::new(), Vec::new(), Vec::new()], a_inherits_b: sx::flag() };
    let am = mix();
    let an = if vis { Mix::None } else { mix() };
    let swap = am != Mix::None && an != Mix::None && sx::flag();
    let (p, q) = (sx::range(20, 35) as u32, sx::range(40, 55) as u32);
    let (p, q) = if swap { (q, p) } else { (p, q) };
    if am != Mix::None && an != Mix::None {
        if !swap {
            g.mixins[A] = vec![(am, M), (an, N)];
        } else {
            g.mixins[A] = vec![(an, N), (am, M)];
        }
    } else if am != Mix::None {
        g.mixins[A] = vec![(am, M)];
    } else if an != Mix::None {
        g.mixins[A] = vec![(an, N)];
    }
    let bm = mix();
    if bm != Mix::None {
        g.mixins[B] = vec![(bm, M)];
    }
    let mn = if vis { Mix::None } else { mix() };
    if mn != Mix::None {
        g.mixins[M] = vec![(mn, N)];
    }
    let mut order = Vec::new();
    ancestors(&g, A, &mut order);
    for i in 0..order.len() {
        for j in 0..i {
            // a module reached along two ways keeps the place it got first when the program runs
            sx::assume(order[i] != order[j]);
        }
    }
    let mut border = Vec::new();
    ancestors(&g, B, &mut border);

    let mut fa = FileFacts::default();
    let mut fo = FileFacts::default();
    for i in 0..4 {
        let file = if i == A { f } else { fb };
        let kind = if i < 2 { GraphNodeKind::Class } else { GraphNodeKind::Module };
        let t = if i == A { &mut fa } else { &mut fo };
        t.graph_nodes.push(GraphNodeFact::new(ns(&[NAME[i]]), kind, rg(file, 1 + i as u32)));
        if i < 2 {
            t.graph_nodes.push(GraphNodeFact::new(sing(&[NAME[i]]), kind, rg(file, 1 + i as u32)));
        }
    }
    let mut link = |t: &mut FileFacts, file: SourceFileId, from: usize, to: usize, kind: GraphEdgeKind, at: u32| {
        if unresolved {
            t.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(fqn(from, singleton), path(&[NAME[to]]), false, ns(&[NAME[from]]), kind, rg(file, at)));
        } else {
            t.graph_edges.push(GraphEdgeFact::new(fqn(from, singleton), if kind == GraphEdgeKind::Superclass { fqn(to, singleton) } else { ns(&[NAME[to]]) }, kind, rg(file, at)));
        }
    };
    let ek = |m: Mix| if m == Mix::Include { GraphEdgeKind::Include } else { GraphEdgeKind::Prepend };
    if am != Mix::None {
        link(&mut fa, f, A, M, ek(am), p);
    }
    if an != Mix::None {
        link(&mut fa, f, A, N, ek(an), q);
    }
    if bm != Mix::None {
        link(&mut fo, fb, B, M, ek(bm), 62);
    }
    if mn != Mix::None {
        link(&mut fo, fb, M, N, ek(mn), 64);
    }
    if g.a_inherits_b {
        if unresolved {
            // the companion link between the singleton classes is the engine's own work
            fa.unresolved_graph_edges.push(UnresolvedGraphEdgeFact::new(ns(&["A"]), path(&["B"]), false, ns(&[]), GraphEdgeKind::Superclass, rg(f, 10)));
        } else {
            link(&mut fa, f, A, B, GraphEdgeKind::Superclass, 10);
        }
    }
    let m = RubyMethod::new("m").unwrap();
    let mut has = [false; 4];
    let mut visible = [MethodVisibility::Public; 4];
    for i in 0..4 {
        has[i] = !(vis && i == N) && sx::flag();
        if !has[i] {
            continue;
        }
        if vis {
            visible[i] = visibility();
        }
        let file = if i == A { f } else { fb };
        let t = if i == A { &mut fa } else { &mut fo };
        t.methods.push(MethodFact::new(meth(&[NAME[i]], "m"), fqn(i, singleton), rg(file, 100 + 10 * i as u32)).with_visibility(visible[i]));
    }
    // `private :m`, `public :m` in a class, for a method of its own or an inherited one
    let mut changed: [Option<MethodVisibility>; 4] = [None; 4];
    if set {
        for i in [A, B] {
            if sx::flag() {
                let v = visibility();
                changed[i] = Some(v);
                let (t, file) = if i == A { (&mut fa, f) } else { (&mut fo, fb) };
                t.method_visibility_overrides.push(MethodVisibilityOverrideFact::new(fqn(i, singleton), m, v, rg(file, 150 + 10 * i as u32)));
            }
        }
    }
    fa.reference_candidates.push(ReferenceCandidate::method_target(
        rg(f, 200),
        path(&["A"]),
        if singleton { NamespaceKind::Singleton } else { NamespaceKind::Instance },
        m,
        Some(meth(&["A"], "k")),
    ));
    if two_files {
        e.replace_facts(f, fa, ResolveMode::Deferred);
        e.replace_facts(f2, fo, ResolveMode::Deferred);
    } else {
        fa.graph_nodes.extend(fo.graph_nodes);
        fa.graph_edges.extend(fo.graph_edges);
        fa.unresolved_graph_edges.extend(fo.unresolved_graph_edges);
        fa.methods.extend(fo.methods);
        fa.method_visibility_overrides.extend(fo.method_visibility_overrides);
        e.replace_facts(f, fa, ResolveMode::Deferred);
    }
    e.resolve();

    let at = |i: usize| rg(if i == A { f } else { fb }, 100 + 10 * i as u32);
    for (recv, order) in [(A, &order), (B, &border)] {
        let want = order.iter().copied().find(|i| has[*i]);
        let got = e.query().resolve_method_callees(&fqn(recv, singleton), &m).unwrap_or_default();
        match want {
            Some(w) => {
                sx::cover("found");
                sx::check(got.len() == 1, "a call on a class does not have one target");
                sx::check(got[0].resolution == MethodCalleeResolution::Exact, "a defined method is not found");
                sx::check(got[0].definition_ranges == vec![at(w)], "a call goes to another method than the one Ruby runs");
                sx::check(got[0].owner == fqn(w, singleton), "a call names another owner than the one Ruby runs");
            }
            None => {
                sx::cover("undefined");
                sx::check(got.iter().all(|c| c.resolution != MethodCalleeResolution::Exact), "an undefined method is found");
            }
        }
        let public = e.query().resolve_public_method_callees(&fqn(recv, singleton), &m).unwrap_or_default();
        // what the caller may use is decided on the definition Ruby finds, never on one behind it
        let effective = want.map(|w| {
            let upto = order.iter().position(|i| *i == w).unwrap();
            order[..=upto].iter().find_map(|i| changed[*i]).unwrap_or(visible[w])
        });
        let exact = public.iter().filter(|c| c.resolution == MethodCalleeResolution::Exact).count();
        match (want, effective) {
            (Some(w), Some(MethodVisibility::Public)) => {
                sx::check(public.len() == 1 && exact == 1 && public[0].definition_ranges == vec![at(w)], "a public call goes to another method than the one Ruby runs");
            }
            (Some(_), Some(_)) => {
                sx::cover("not public");
                sx::check(exact == 0, "a private or protected method, or one hidden behind it, is reachable from outside");
            }
            _ => sx::check(exact == 0, "an undefined method is found"),
        }
        // super from the class itself
        let after = order.iter().copied().skip_while(|i| *i != recv).skip(1).find(|i| has[*i]);
        let sup = e.query().resolve_super_method_callee(&fqn(recv, singleton), &m);
        match (after, &sup) {
            (Some(w), Some(s)) => {
                sx::cover("super found");
                sx::check(s.definition_ranges == vec![at(w)], "super goes to another method than the one Ruby runs");
            }
            (None, None) => {}
            _ => sx::fail("super is resolved where Ruby has none, or not resolved"),
        }
    }
    // super from a module's own method, as far as the module itself tells
    for recv in [M, N] {
        let mut order = Vec::new();
        ancestors(&g, recv, &mut order);
        let after = order.iter().copied().skip_while(|i| *i != recv).skip(1).find(|i| has[*i]);
        let sup = e.query().resolve_super_method_callee(&fqn(recv, singleton), &m);
        match (after, &sup) {
            (Some(w), Some(s)) => {
                sx::cover("super of a module found");
                sx::check(s.definition_ranges == vec![at(w)], "super in a module goes to another method than the one Ruby runs");
            }
            (None, None) => {}
            _ => sx::fail("super in a module is resolved where nothing is known to follow, or not resolved"),
        }
    }
    // references are recorded under exactly the method the call reaches
    let want = order.iter().copied().find(|i| has[*i]);
    for i in 0..4 {
        let r = e.query().references_for_fqn(&meth(&[NAME[i]], "m"));
        let hit = r.iter().any(|x| x.range == rg(f, 200));
        if has[i] {
            sx::check(hit == (want == Some(i)), "a call is listed under a method it does not reach, or missing from the one it reaches");
        }
    }
    let d = e.query().resolved_reference_definition_ranges_at(f, 201);
    match want {
        Some(w) => sx::check(d == vec![at(w)], "the definition of a call is not the method Ruby runs"),
        None => sx::check(d.is_empty(), "an undefined method has a definition"),
    }
}
