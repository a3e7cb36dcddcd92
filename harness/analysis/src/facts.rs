//! Every kind of fact a file contributes: after any history of replacements, each answer is
//! that of an index built afresh from the current facts.
use crate::engine::*;
use crate::sx;
use ruby_analysis::core::method_store::MethodVisibility;
use ruby_analysis::core::*;
use ruby_analysis::engine::*;

fn konst(n: &str) -> FullyQualifiedName {
    FullyQualifiedName::constant(path(&["A", n]))
}
fn ivar() -> FullyQualifiedName {
    FullyQualifiedName::instance_variable("@a".into()).unwrap()
}
fn subjects() -> Vec<TypeSubject> {
    vec![
        TypeSubject::Constant(konst("K")),
        TypeSubject::MethodReturn(meth(&["A"], "m")),
        TypeSubject::Parameter { method: meth(&["A"], "m"), name: "x".into() },
        TypeSubject::InstanceVariable { owner: ns(&["A"]), name: "@a".into() },
    ]
}
pub const ASPECTS: u64 = 12;

/// Version `v` of a file's facts about one aspect (0 none, 1 and 2 different ones).
fn version(f: SourceFileId, aspect: u64, v: u64, at: u32) -> FileFacts {
    let mut x = FileFacts::default();
    let r = |k: u32| rg(f, at + 4 * k);
    let a = ns(&["A"]);
    // the file reopens A as long as it contributes anything
    if v == 0 {
        return x;
    }
    x.graph_nodes.push(GraphNodeFact::new(a.clone(), GraphNodeKind::Class, r(0)));
    x.symbols.push(SymbolFact::new(a.clone(), SymbolKind::Class, r(0)));
    let one = v == 1;
    match aspect {
        0 => {
            x.symbols.push(SymbolFact::new(konst(if one { "K" } else { "L" }), SymbolKind::Constant, r(1)));
            x.reference_candidates.push(ReferenceCandidate::constant(r(2), path(&["K"]), path(&["A"])));
        }
        1 => {
            x.methods.push(MethodFact::new(meth(&["A"], if one { "m" } else { "n" }), a.clone(), r(1)));
            x.methods.push(MethodFact::new(meth(&["A"], if one { "n" } else { "m" }), sing(&["A"]), r(2)));
            x.reference_candidates.push(ReferenceCandidate::method_target(r(3), path(&["A"]), NamespaceKind::Instance, RubyMethod::new("m").unwrap(), None));
        }
        2 => {
            x.methods.push(MethodFact::new(meth(&["A"], "m"), a.clone(), r(1)));
            let v = if one { MethodVisibility::Private } else { MethodVisibility::Public };
            x.method_visibility_overrides.push(MethodVisibilityOverrideFact::new(a, RubyMethod::new("m").unwrap(), v, r(2)));
        }
        3 => {
            let t = if one { RubyType::integer() } else { RubyType::string() };
            for (i, s) in subjects().into_iter().enumerate() {
                if one || i != 3 {
                    x.types.push(TypeFact::new(s, t.clone(), r(1 + i as u32), TypeProvenance::Yard));
                }
            }
            x.methods.push(MethodFact::new(meth(&["A"], "m"), ns(&["A"]), r(6)));
            x.symbols.push(SymbolFact::new(konst("K"), SymbolKind::Constant, r(7)));
        }
        4 => {
            x.graph_nodes.push(GraphNodeFact::new(ns(&["M"]), GraphNodeKind::Module, r(1)));
            x.graph_edges.push(GraphEdgeFact::new(a, ns(&["M"]), if one { GraphEdgeKind::Include } else { GraphEdgeKind::Prepend }, r(2)));
            x.methods.push(MethodFact::new(meth(&["M"], "m"), ns(&["M"]), r(3)));
            if one {
                x.methods.push(MethodFact::new(meth(&["A"], "m"), ns(&["A"]), r(4)));
            }
        }
        5 => {
            let target = if one { meth(&["A"], "m") } else { konst("K") };
            x.reference_candidates.push(ReferenceCandidate::resolved(r(1), target, Some(meth(&["A"], "n"))));
            x.methods.push(MethodFact::new(meth(&["A"], "m"), a, r(2)));
            x.symbols.push(SymbolFact::new(konst("K"), SymbolKind::Constant, r(3)));
        }
        6 => {
            x.diagnostics.push(DiagnosticFact::new(r(1), DiagnosticSeverity::Warning, if one { "one" } else { "two" }, "said"));
            if one {
                x.diagnostics.push(DiagnosticFact::new(r(2), DiagnosticSeverity::Error, "three", "said"));
            }
        }
        7 => {
            let arg = if one { RaiseArgCandidate::Constant("E".into()) } else { RaiseArgCandidate::NonExceptionLiteral };
            x.diagnostic_candidates.push(DiagnosticCandidate::new(r(1), DiagnosticCandidateKind::RaiseNonException { arg_repr: "E".into(), arg }));
            if !one {
                x.graph_nodes.push(GraphNodeFact::new(ns(&["E"]), GraphNodeKind::Class, r(2)));
                x.symbols.push(SymbolFact::new(ns(&["E"]), SymbolKind::Class, r(2)));
            }
        }
        8 => {
            x.execution_contexts.push(ExecutionContextFact {
                range: TextRange::new(f, at + 4, at + 20),
                lexical_namespace: a.clone(),
                implicit_receiver: a.clone(),
                method_definition_owner: a,
                lexical_scope: ExecutionScopeMode::Preserve,
                local_scope: ExecutionScopeMode::Preserve,
                extension_id: if one { "one" } else { "two" }.into(),
            });
        }
        9 => {
            let t = if one { RubyType::integer() } else { RubyType::string() };
            x.local_read_types = vec![(r(1), t)].into_boxed_slice();
        }
        10 => {
            x.symbols.push(SymbolFact::new(ivar(), SymbolKind::InstanceVariable, r(1)));
            x.reference_candidates.push(ReferenceCandidate::resolved(r(2), ivar(), None));
            if !one {
                x.reference_candidates.push(ReferenceCandidate::resolved(r(3), ivar(), None));
            }
        }
        _ => {
            // several definitions of one method in one file
            x.methods.push(MethodFact::with_param_facts(meth(&["A"], "m"), a.clone(), r(1), vec![MethodParamFact::new("x", MethodParamKind::Required)]));
            if !one {
                x.methods.push(MethodFact::new(meth(&["A"], "m"), a, r(2)));
            }
            x.reference_candidates.push(ReferenceCandidate::method_target(r(3), path(&["A"]), NamespaceKind::Instance, RubyMethod::new("m").unwrap(), None));
        }
    }
    x
}

fn same<T: PartialEq>(a: Vec<T>, b: Vec<T>) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    for x in &a {
        match (0..b.len()).find(|j| !used[*j] && b[*j] == *x) {
            Some(j) => used[j] = true,
            None => return false,
        }
    }
    true
}

fn compare(a: &AnalysisEngine, b: &AnalysisEngine, files: &[SourceFileId], hashed: bool) {
    let (p, q) = (a.query(), b.query());
    let names = [ns(&["A"]), sing(&["A"]), ns(&["M"]), ns(&["E"]), konst("K"), konst("L"), meth(&["A"], "m"), meth(&["A"], "n"), meth(&["M"], "m"), ivar()];
    for n in &names {
        sx::check(same(a.symbol_facts_for(n), b.symbol_facts_for(n)), "the declarations of a name are not those of the current files");
        sx::check(same(a.method_facts_for(n), b.method_facts_for(n)), "the definitions of a method are not those of the current files");
        sx::check(same(a.graph_nodes_for(n), b.graph_nodes_for(n)), "a namespace is not the one in the current files");
        let refs = |e: &AnalysisEngine| e.query().references_for_fqn(n).iter().map(|r| (r.range, r.caller.and_then(|c| e.fqn_for_id(c).cloned()))).collect::<Vec<_>>();
        sx::check(same(refs(a), refs(b)), "the references to a name are not those in the current files");
    }
    for n in &names[..4] {
        sx::check(same(a.graph_edges_from(n), b.graph_edges_from(n)), "the links of a namespace are not those in the current files");
        sx::check(same(a.graph_edges_to(n), b.graph_edges_to(n)), "the users of a namespace are not those in the current files");
        sx::check(same(a.method_names_for_owner(n), b.method_names_for_owner(n)), "the method names of a namespace are not those in the current files");
        sx::check(same(p.method_facts_matching(n, ""), q.method_facts_matching(n, "")), "the methods offered for a namespace are not those in the current files");
        sx::check(p.namespace_exists(n) == q.namespace_exists(n), "a namespace exists that the current files do not define, or is missing");
        for m in ["m", "n"] {
            let m = RubyMethod::new(m).unwrap();
            sx::check(same(a.method_facts_matching_owner_name(n, &m), b.method_facts_matching_owner_name(n, &m)), "the definitions of a name in a namespace are not those of the current files");
            sx::check(p.resolve_method_callees(n, &m) == q.resolve_method_callees(n, &m), "a call goes elsewhere than in the current files");
            sx::check(p.resolve_public_method_callees(n, &m) == q.resolve_public_method_callees(n, &m), "a public call goes elsewhere than in the current files");
            sx::check(same(a.method_visibility_overrides_matching_owner_name(n, &m), b.method_visibility_overrides_matching_owner_name(n, &m)), "the visibility of a method is not that in the current files");
        }
    }
    for s in subjects() {
        sx::check(same(a.type_facts_for(&s), b.type_facts_for(&s)), "the types known of a name are not those in the current files");
    }
    sx::check(p.constant_value_type(&konst("K")) == q.constant_value_type(&konst("K")), "the type of a constant is not that in the current files");
    for f in files {
        sx::check(same(a.symbol_facts_in_file(*f), b.symbol_facts_in_file(*f)), "the declarations in a file are not the current ones");
        sx::check(same(a.method_facts_in_file(*f), b.method_facts_in_file(*f)), "the methods in a file are not the current ones");
        sx::check(same(p.type_facts_in_file(*f), q.type_facts_in_file(*f)), "the types in a file are not the current ones");
        sx::check(same(p.method_visibility_overrides_in_file(*f), q.method_visibility_overrides_in_file(*f)), "the visibility changes in a file are not the current ones");
        sx::check(same(a.graph_nodes_in_file(*f), b.graph_nodes_in_file(*f)), "the namespaces in a file are not the current ones");
        sx::check(same(a.graph_edges_in_file(*f), b.graph_edges_in_file(*f)), "the links in a file are not the current ones");
        sx::check(same(a.diagnostic_facts_in_file(*f), b.diagnostic_facts_in_file(*f)), "the warnings in a file are not the current ones");
        let refs = |e: &AnalysisEngine| e.query().references_in_file(*f).iter().map(|r| (r.range, r.caller.and_then(|c| e.fqn_for_id(c).cloned()))).collect::<Vec<_>>();
        sx::check(same(refs(a), refs(b)), "the references in a file are not the current ones");
        for o in [5, 7, 12, 40] {
            sx::check(a.execution_context_at(*f, o) == b.execution_context_at(*f, o), "the execution context at a place is not the current one");
            sx::check(p.local_read_type_at(*f, o) == q.local_read_type_at(*f, o), "the type read at a place is not the current one");
        }
        sx::check(a.semantic_export_fingerprint(*f).is_some() && (!hashed || a.semantic_export_fingerprint(*f) == b.semantic_export_fingerprint(*f)), "what a file exports is not the current content");
    }
    sx::check(same(a.all_symbol_facts(), b.all_symbol_facts()), "the project's declarations are not the current ones");
    sx::check(same(a.all_method_facts(), b.all_method_facts()), "the project's methods are not the current ones");
    sx::check(same(a.all_graph_edges(), b.all_graph_edges()), "the project's links are not the current ones");
    sx::check(same(a.all_diagnostic_facts(), b.all_diagnostic_facts()), "the project's warnings are not the current ones");
    sx::check(same(a.all_method_visibility_overrides(), b.all_method_visibility_overrides()), "the project's visibility changes are not the current ones");
    sx::check(p.known_namespace_fqns() == q.known_namespace_fqns(), "the known namespaces are not the current ones");
    if hashed {
        let found = |q: &AnalysisQuery, s: &str| q.search_workspace_symbols(s, 50).into_iter().map(|m| (m.name, m.kind, m.range, m.container_name)).collect::<Vec<_>>();
        for s in ["", "K", "m", "a"] {
            sx::check(same(found(&p, s), found(&q, s)), "the symbols found in the workspace are not the current ones");
        }
        sx::check(a.semantic_result_fingerprint() == b.semantic_result_fingerprint(), "the index is not the one of the current files");
        sx::check(p.namespace_tree_hash(false) == q.namespace_tree_hash(false), "the namespace tree is not the current one");
    }
}

#[no_mangle]
pub extern "C" fn h_index_facts() {
    let steps = sx::param(0, 3);
    let hashed = sx::param(1, 0) == 0; // places are cases and hashes are compared, or symbolic
    let aspect = sx::choice(ASPECTS);
    let mut a = AnalysisEngine::new();
    let mut b = AnalysisEngine::new();
    let mut files = Vec::new();
    for n in ["a.rb", "b.rb"] {
        files.push(reg(&mut a, n, SourceKind::Project));
        reg(&mut b, n, SourceKind::Project);
    }
    let mut last = [(0, 4); 2];
    let mut seen = [false; 2];
    for step in 0..steps {
        let i = sx::choice(2) as usize;
        let v = sx::choice(3);
        let at = if hashed { 4 } else { sx::range(4, 11) as u32 };
        let now = step + 1 == steps || sx::flag();
        a.replace_facts(files[i], version(files[i], aspect, v, at), if now { ResolveMode::Immediate } else { ResolveMode::Deferred });
        if !now && step % 2 == 1 {
            a.shrink_to_fit();
        }
        last[i] = (v, at);
        seen[i] = true;
    }
    for i in 0..2 {
        if !seen[i] {
            a.replace_facts(files[i], FileFacts::default(), ResolveMode::Deferred);
        }
        b.replace_facts(files[i], version(files[i], aspect, last[i].0, last[i].1), ResolveMode::Deferred);
    }
    b.resolve();
    sx::cover("compared");
    compare(&a, &b, &files, hashed);
}
