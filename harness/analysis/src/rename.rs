//! Renaming a method: the edits cover its definitions and the calls that reach it, and
//! afterwards every call still reaches the definition it reached before.
use crate::engine::*;
use crate::sx;
use ruby_analysis::core::method_store::MethodVisibility;
use ruby_analysis::core::*;
use ruby_analysis::engine::*;

const A: usize = 0;
const B: usize = 1;
const M: usize = 2;
const NAME: [&str; 3] = ["A", "B", "M"];

struct Program {
    a_mix: u64,
    b_inherits: bool,
    b_mix: bool,
    /// definitions of m and of k
    m: [bool; 3],
    k: [bool; 3],
    singleton: bool,
    super_call: bool,
    private: bool,
    vis: MethodVisibility,
    explicit: bool,
    /// the second call is made on an A or a B
    union: bool,
}

/// where the name of the definition of m (0) or k (1) in namespace i stands
fn def_at(which: usize, i: usize) -> u32 {
    20 + 80 * which as u32 + 20 * i as u32
}
const SINGLETON: u32 = 84;
const PRIVATE: u32 = 180;
/// calls: receiver, name
const CALLS: [(usize, &str, u32); 4] = [(A, "m", 200), (B, "m", 210), (B, "k", 220), (A, "k", 230)];
const SUPER: u32 = 240;

fn build(p: &Program, kind: SourceKind, name: &dyn Fn(TextRange, &'static str) -> &'static str) -> (AnalysisEngine, SourceFileId, SourceFileId) {
    let mut e = AnalysisEngine::new();
    let f = reg(&mut e, "a.rb", SourceKind::Project);
    let g = reg(&mut e, "m.rb", kind);
    let mut x = FileFacts::default();
    let mut y = FileFacts::default();
    for i in 0..3 {
        let (t, file) = if i == M { (&mut y, g) } else { (&mut x, f) };
        t.graph_nodes.push(GraphNodeFact::new(ns(&[NAME[i]]), if i == M { GraphNodeKind::Module } else { GraphNodeKind::Class }, rg(file, 1 + 4 * i as u32)));
        for (which, old) in ["m", "k"].into_iter().enumerate() {
            if [p.m[i], p.k[i]][which] {
                let at = def_at(which, i);
                let token = TextRange::new(file, at, at + 1);
                let n = name(token, old);
                let d = MethodFact::new(meth(&[NAME[i]], n), ns(&[NAME[i]]), TextRange::new(file, at - 4, at + 6)).with_name_range(token);
                t.methods.push(d);
            }
        }
    }
    if p.singleton {
        let token = TextRange::new(f, SINGLETON, SINGLETON + 1);
        let d = MethodFact::new(meth(&["A"], name(token, "m")), sing(&["A"]), TextRange::new(f, SINGLETON - 4, SINGLETON + 6)).with_name_range(token);
        x.methods.push(d);
    }
    if p.private {
        let token = TextRange::new(f, PRIVATE, PRIVATE + 1);
        x.method_visibility_overrides.push(MethodVisibilityOverrideFact::new(ns(&["A"]), RubyMethod::new(name(token, "m")).unwrap(), p.vis, token));
    }
    let mut link = |from: usize, to: usize, kind: GraphEdgeKind, at: u32| {
        x.graph_edges.push(GraphEdgeFact::new(ns(&[NAME[from]]), ns(&[NAME[to]]), kind, rg(f, at)));
    };
    match p.a_mix {
        1 => link(A, M, GraphEdgeKind::Include, 14),
        2 => link(A, M, GraphEdgeKind::Prepend, 14),
        _ => {}
    }
    if p.b_inherits {
        link(B, A, GraphEdgeKind::Superclass, 10);
    }
    if p.b_mix {
        link(B, M, GraphEdgeKind::Include, 12);
    }
    for (recv, old, at) in CALLS {
        let token = TextRange::new(f, at, at + 1);
        x.reference_candidates.push(call(token, recv, name(token, old), false, if p.explicit { MethodReferenceAccess::ExplicitReceiver } else { MethodReferenceAccess::Normal }, p.union && at == 210));
    }
    if p.super_call {
        let own = TextRange::new(f, def_at(0, B), def_at(0, B) + 1);
        x.reference_candidates.push(call(TextRange::new(f, SUPER, SUPER + 5), B, name(own, "m"), true, MethodReferenceAccess::Normal, false));
    }
    e.replace_facts(g, y, ResolveMode::Deferred);
    e.replace_facts(f, x, ResolveMode::Deferred);
    e.resolve();
    (e, f, g)
}

fn call(range: TextRange, recv: usize, name: &str, is_super: bool, access: MethodReferenceAccess, union: bool) -> ReferenceCandidate {
    ReferenceCandidate::method(
        range,
        MethodReferenceCandidate {
            owner: path(&[NAME[recv]]),
            owner_kind: NamespaceKind::Instance,
            method: RubyMethod::new(name).unwrap(),
            is_super,
            access,
            caller: if is_super { Some(meth(&[NAME[recv]], name)) } else { None },
            call_expression_range: None,
            preferred_definition_range: None,
            diagnostics: MethodReferenceDiagnostics {
                diagnostic_range: range,
                receiver_label: None,
                receiver_expression_range: None,
                receiver_type: if union { Some(Box::new(RubyType::union([RubyType::Class(ns(&["A"])), RubyType::Class(ns(&["B"]))]))) } else { None },
                diagnose_unresolved: true,
                allow_unindexed_owner: false,
                signature: None,
            },
        },
    )
}

#[no_mangle]
pub extern "C" fn h_rename_method() {
    let set = sx::param(0, 0);
    let mut p = Program {
        a_mix: sx::choice(3),
        b_inherits: sx::flag(),
        b_mix: false,
        m: [false; 3],
        k: [false; 3],
        singleton: false,
        super_call: false,
        private: false,
        vis: MethodVisibility::Public,
        explicit: set >= 2,
        union: set == 3,
    };
    // a module is mixed in along one way only
    p.b_mix = (p.a_mix == 0 || !p.b_inherits) && sx::flag();
    for i in 0..3 {
        p.m[i] = sx::flag();
        p.k[i] = (set == 0 || set >= 2 && i == B) && sx::flag();
    }
    if set == 1 {
        p.singleton = sx::flag();
        p.super_call = p.m[B] && sx::flag();
    }
    if set == 1 || set == 2 {
        p.private = p.m[A] && sx::flag();
        p.vis = visibility();
    }
    let editable = sx::flag();
    let kind = if editable { SourceKind::Project } else { SourceKind::Gem };
    let (e, f, g) = build(&p, kind, &|_, n| n);
    let cursor = sx::range(0, 255) as u32;
    let new = RubyMethod::new("k").unwrap();
    let q = e.query();
    let at = |e: &AnalysisEngine, pos: u32| e.query().resolved_reference_definition_ranges_at(f, pos);
    let got = q.method_rename_target_for_name_at(f, cursor, new);
    let definition = |i: usize| {
        let d = def_at(0, i);
        TextRange::new(if i == M { g } else { f }, d - 4, d + 6)
    };
    let Some(t) = got else {
        sx::cover("refused");
        // nothing else is called k, nothing is shared and all is in the project: renaming A#m at its definition works
        if set == 1 && p.m[A] && editable && !p.super_call && e.method_facts_for(&meth(&["A"], "m")).len() == 1 {
            sx::check(!TextRange::new(f, def_at(0, A), def_at(0, A) + 1).contains_offset(f, cursor), "a method that can be renamed is not");
        }
        return;
    };
    sx::cover("renamed");
    // the owner is the one the token under the cursor means
    let owner = (0..3).find(|i| ns(&[NAME[*i]]) == t.owner);
    let single = t.owner == sing(&["A"]);
    sx::check(owner.is_some() || single, "the renamed method belongs to no known namespace");
    sx::check(t.current_name == RubyMethod::new("m").unwrap(), "another method than the one under the cursor is renamed");
    let mut want = Vec::new();
    let is_target = |d: &Vec<TextRange>| match owner {
        Some(i) => *d == vec![definition(i)],
        None => *d == vec![TextRange::new(f, SINGLETON - 4, SINGLETON + 6)],
    };
    match owner {
        Some(i) => {
            sx::check(p.m[i], "a method without a definition is renamed");
            sx::check(i != M || editable, "a method defined outside the project is renamed");
            let file = if i == M { g } else { f };
            want.push(TextRange::new(file, def_at(0, i), def_at(0, i) + 1));
            if i == A && p.private {
                want.push(TextRange::new(f, PRIVATE, PRIVATE + 1));
            }
        }
        None => want.push(TextRange::new(f, SINGLETON, SINGLETON + 1)),
    }
    for (_, n, pos) in CALLS {
        if n == "m" && is_target(&at(&e, pos)) {
            want.push(TextRange::new(f, pos, pos + 1));
        }
    }
    want.sort_by_key(|r| (r.file_id, r.start_byte));
    sx::check(t.ranges == want, "renaming a method edits something else than its definitions and the calls that reach it");
    sx::check(want.iter().any(|r| r.contains_offset(f, cursor)) || p.super_call, "the token under the cursor is not renamed");
    // the program after the edit
    let (after, _, _) = build(&p, kind, &|token, old| if t.ranges.contains(&token) { "k" } else { old });
    for (_, _, pos) in CALLS {
        let before = at(&e, pos);
        if !before.is_empty() {
            sx::cover("call kept its target");
            sx::check(at(&after, pos) == before, "after renaming a method a call reaches another definition");
        }
    }
    if p.super_call {
        let before = at(&e, SUPER);
        if !before.is_empty() {
            sx::check(at(&after, SUPER) == before, "after renaming a method super reaches another definition");
        }
    }
}
