From 61b463cd87ea63e9e2effed8f6bfe19d8456595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:23 +0000
Subject: [PATCH 01/12] fix: report the end of a file without a trailing
 newline on its last line

Offset-to-position conversion treated the end-of-text sentinel in the line
table as the start of a further line, so the end of `class A\nend` was
(2, 0) instead of (1, 3).
---
 crates/ruby-analysis/src/engine/state.rs            | 11 +++++++++++
 crates/ruby-analysis/src/indexer/source_document.rs |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/crates/ruby-analysis/src/engine/state.rs b/crates/ruby-analysis/src/engine/state.rs
index ebac430..24dbc6e 100644
--- a/crates/ruby-analysis/src/engine/state.rs
+++ b/crates/ruby-analysis/src/engine/state.rs
@@ -155,6 +155,7 @@ pub struct SourceLineIndex {
     line_offsets: Vec<u32>,
     len: u32,
     ascii: bool,
+    ends_with_newline: bool,
 }
 
 impl SourceLineIndex {
@@ -182,6 +183,7 @@ impl SourceLineIndex {
             line_offsets,
             len,
             ascii: source.is_ascii(),
+            ends_with_newline: source.ends_with('\n'),
         }
     }
 
@@ -213,6 +215,15 @@ impl SourceFile {
             return None;
         }
         let line_index = match self.line_index.line_offsets.binary_search(&target) {
+            // The final entry is the end of the source, which starts a line of its
+            // own only after a newline.
+            Ok(exact)
+                if exact > 0
+                    && target == self.line_index.len
+                    && !self.line_index.ends_with_newline =>
+            {
+                exact - 1
+            }
             Ok(exact) => exact,
             Err(after) => after.saturating_sub(1),
         };
diff --git a/crates/ruby-analysis/src/indexer/source_document.rs b/crates/ruby-analysis/src/indexer/source_document.rs
index 378617f..b65cb3f 100644
--- a/crates/ruby-analysis/src/indexer/source_document.rs
+++ b/crates/ruby-analysis/src/indexer/source_document.rs
@@ -42,6 +42,9 @@ impl SourceDocument {
             offset -= 1;
         }
         let line_index = match self.line_offsets.binary_search(&offset) {
+            // The final entry is the end of the text, which starts a line of its
+            // own only after a newline.
+            Ok(exact) if exact > 0 && !content[..offset].ends_with('\n') => exact - 1,
             Ok(exact) => exact,
             Err(after) => after - 1,
         };
-- 
2.43.0


From 309f4feb6bb1f437b2aeb359fbe46046c87de557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:25 +0000
Subject: [PATCH 02/12] fix: compare exact Hash shapes by field names rather
 than by field count

---
 crates/ruby-analysis/src/core/shape_type.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/core/shape_type.rs b/crates/ruby-analysis/src/core/shape_type.rs
index d00e2a4..52161dc 100644
--- a/crates/ruby-analysis/src/core/shape_type.rs
+++ b/crates/ruby-analysis/src/core/shape_type.rs
@@ -407,7 +407,10 @@ impl ShapeType {
         if target.exactness == ShapeExactness::Exact {
             return self.exactness == ShapeExactness::Exact
                 && self.rest.is_none()
-                && self.fields.len() == target.fields.len();
+                && self
+                    .fields
+                    .iter()
+                    .all(|field| target.field(&field.key).is_some());
         }
 
         let Some(target_rest) = target.rest.as_deref() else {
-- 
2.43.0


From 15082d6cade87f428db571c91bce32de897cf3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:20 +0000
Subject: [PATCH 03/12] fix: wake indexing work that fits beside an admitted
 request

---
 src/indexing_resources.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/indexing_resources.rs b/src/indexing_resources.rs
index 402176a..868976c 100644
--- a/src/indexing_resources.rs
+++ b/src/indexing_resources.rs
@@ -693,6 +693,9 @@ impl IndexingResourceGovernor {
                             );
                         }
                         registration.admitted = true;
+                        drop(admission);
+                        // A waiter that saw this entry as the winner may fit beside it.
+                        self.state.changed.notify_waiters();
                         return Ok(ActiveResourceLease {
                             state: self.state.clone(),
                             spec: queued.spec,
-- 
2.43.0


From 3e481f9511afe80d96cc2c1bbf8d7004c1d2f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:32 +0000
Subject: [PATCH 04/12] fix: resolve lazily linked ancestors again when
 namespaces are defined or removed

---
 crates/ruby-analysis/src/core/graph_store.rs | 66 ++++++++++++++++++++
 crates/ruby-analysis/src/engine/state.rs     | 20 +++---
 2 files changed, 76 insertions(+), 10 deletions(-)

diff --git a/crates/ruby-analysis/src/core/graph_store.rs b/crates/ruby-analysis/src/core/graph_store.rs
index cc7c28a..c2fa72c 100644
--- a/crates/ruby-analysis/src/core/graph_store.rs
+++ b/crates/ruby-analysis/src/core/graph_store.rs
@@ -246,6 +246,12 @@ pub struct SemanticGraph {
     edges_by_file: HashMap<SourceFileId, Vec<GraphEdgeId>>,
     unresolved_by_file: HashMap<SourceFileId, Vec<StoredUnresolvedGraphEdgeFact>>,
     unresolved_explicit_superclasses_by_source: HashMap<FqnId, usize>,
+    /// Edges produced by resolving an unresolved lookup, kept with that lookup
+    /// so they can be resolved again when the defined namespaces change.
+    resolved_lookups_by_file:
+        HashMap<SourceFileId, Vec<(StoredUnresolvedGraphEdgeFact, Vec<GraphEdgeId>)>>,
+    /// Namespace kinds whose definedness differs from the last lookup pass.
+    changed_namespaces: HashSet<(FqnId, GraphNodeKind)>,
 }
 
 impl SemanticGraph {
@@ -256,6 +262,9 @@ impl SemanticGraph {
     pub fn add_node(&mut self, fact: StoredGraphNodeFact) {
         self.node_definition_files.insert(fact.range.file_id);
         let node = self.nodes.entry(fact.fqn).or_default();
+        if !node_defines_kind(node, fact.kind) {
+            toggle(&mut self.changed_namespaces, (fact.fqn, fact.kind));
+        }
         node.definitions.push(GraphNodeDefinition {
             kind: fact.kind,
             range: fact.range,
@@ -405,8 +414,15 @@ impl SemanticGraph {
         if self.node_definition_files.remove(&file_id) {
             let mut empty_nodes = Vec::new();
             for (fqn, node) in &mut self.nodes {
+                let kinds = [GraphNodeKind::Class, GraphNodeKind::Module]
+                    .map(|kind| (kind, node_defines_kind(node, kind)));
                 node.definitions
                     .retain(|definition| definition.range.file_id != file_id);
+                for (kind, defined) in kinds {
+                    if defined && !node_defines_kind(node, kind) {
+                        toggle(&mut self.changed_namespaces, (*fqn, kind));
+                    }
+                }
                 if node.definitions.is_empty() && node_has_no_edges(node) {
                     empty_nodes.push(*fqn);
                 }
@@ -422,6 +438,7 @@ impl SemanticGraph {
             }
         }
 
+        self.resolved_lookups_by_file.remove(&file_id);
         let Some(stale_edges) = self.edges_by_file.remove(&file_id) else {
             return;
         };
@@ -512,6 +529,43 @@ impl SemanticGraph {
             .push(edge);
     }
 
+    /// Replace one unresolved lookup by the edges it resolves to.
+    pub fn add_resolved_lookup(
+        &mut self,
+        lookup: StoredUnresolvedGraphEdgeFact,
+        edges: impl IntoIterator<Item = StoredGraphEdgeFact>,
+    ) {
+        let ids = edges
+            .into_iter()
+            .map(|edge| self.insert_edge(edge.into()))
+            .collect();
+        self.resolved_lookups_by_file
+            .entry(lookup.range.file_id)
+            .or_default()
+            .push((lookup, ids));
+    }
+
+    /// Return resolved lookups to the unresolved state when a namespace was
+    /// defined or removed since the last pass, because either can change what
+    /// a constant path refers to.
+    pub fn reopen_resolved_lookups(&mut self) {
+        if std::mem::take(&mut self.changed_namespaces).is_empty() {
+            return;
+        }
+        for (file_id, lookups) in std::mem::take(&mut self.resolved_lookups_by_file) {
+            let stale: HashSet<_> = lookups.iter().flat_map(|(_, ids)| ids).copied().collect();
+            if let Some(file_edges) = self.edges_by_file.get_mut(&file_id) {
+                file_edges.retain(|id| !stale.contains(id));
+            }
+            for id in stale {
+                self.remove_edge(id);
+            }
+            for (lookup, _) in lookups {
+                self.add_unresolved_edge(lookup);
+            }
+        }
+    }
+
     fn remove_unresolved_explicit_superclass_source(
         &mut self,
         edge: StoredUnresolvedGraphEdgeFact,
@@ -716,6 +770,18 @@ impl GraphNode {
     }
 }
 
+fn node_defines_kind(node: &GraphNode, kind: GraphNodeKind) -> bool {
+    node.definitions
+        .iter()
+        .any(|definition| definition.kind == kind)
+}
+
+fn toggle(set: &mut HashSet<(FqnId, GraphNodeKind)>, value: (FqnId, GraphNodeKind)) {
+    if !set.remove(&value) {
+        set.insert(value);
+    }
+}
+
 fn node_has_no_edges(node: &GraphNode) -> bool {
     node.superclasses.is_empty()
         && node.includes.is_empty()
diff --git a/crates/ruby-analysis/src/engine/state.rs b/crates/ruby-analysis/src/engine/state.rs
index 24dbc6e..26087df 100644
--- a/crates/ruby-analysis/src/engine/state.rs
+++ b/crates/ruby-analysis/src/engine/state.rs
@@ -3758,6 +3758,7 @@ impl AnalysisEngine {
     }
 
     fn retry_unresolved_graph_edges(&mut self) {
+        self.graph.reopen_resolved_lookups();
         if self.graph.unresolved_edges().is_empty() {
             return;
         }
@@ -3768,19 +3769,17 @@ impl AnalysisEngine {
                 let singleton_superclass =
                     self.resolved_singleton_superclass_companion(&unresolved, &target);
                 let target = self.names.intern_fqn(target);
-                self.graph.add_edge(
-                    StoredGraphEdgeFact::new(
-                        unresolved.source,
-                        target,
-                        unresolved.kind,
-                        unresolved.range,
-                    )
-                    .with_provenance(unresolved.provenance),
-                );
+                let mut edges = vec![StoredGraphEdgeFact::new(
+                    unresolved.source,
+                    target,
+                    unresolved.kind,
+                    unresolved.range,
+                )
+                .with_provenance(unresolved.provenance)];
                 if let Some((source, target)) = singleton_superclass {
                     let source = self.names.intern_fqn(source);
                     let target = self.names.intern_fqn(target);
-                    self.graph.add_edge(
+                    edges.push(
                         StoredGraphEdgeFact::new(
                             source,
                             target,
@@ -3790,6 +3789,7 @@ impl AnalysisEngine {
                         .with_provenance(unresolved.provenance),
                     );
                 }
+                self.graph.add_resolved_lookup(unresolved, edges);
             } else {
                 self.graph.add_unresolved_edge(unresolved);
             }
-- 
2.43.0


From 267613fe11eb64920968946fcdbb2f87ec248390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:08 +0000
Subject: [PATCH 05/12] fix: drop cached lookup chains when unresolved links
 are resolved

---
 crates/ruby-analysis/src/engine/state.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/engine/state.rs b/crates/ruby-analysis/src/engine/state.rs
index 26087df..a79d55d 100644
--- a/crates/ruby-analysis/src/engine/state.rs
+++ b/crates/ruby-analysis/src/engine/state.rs
@@ -2261,7 +2261,7 @@ impl AnalysisEngine {
         self.sources.files.values()
     }
 
-    fn replace_facts_deferred(&mut self, file_id: SourceFileId, mut facts: FileFacts) {
+    fn invalidate_query_caches(&mut self) {
         self.semantic_revision = self.semantic_revision.checked_add(1).expect(
             "INVARIANT VIOLATED: analysis engine semantic revision exhausted u64. \
              This is a bug because cached queries require monotonic invalidation. \
@@ -2269,6 +2269,10 @@ impl AnalysisEngine {
         );
         *self.top_level_method_lookup_chain_cache.get_mut() = None;
         *self.universal_object_method_lookup_chain_cache.get_mut() = None;
+    }
+
+    fn replace_facts_deferred(&mut self, file_id: SourceFileId, mut facts: FileFacts) {
+        self.invalidate_query_caches();
         self.assert_known_file_id(file_id, "file analysis references unknown source file id");
         for (range, ruby_type) in facts.local_read_types.as_ref() {
             assert_eq!(
@@ -3763,6 +3767,7 @@ impl AnalysisEngine {
             return;
         }
 
+        self.invalidate_query_caches();
         let pending = self.graph.take_unresolved_edges();
         for unresolved in pending {
             if let Some(target) = self.resolve_unresolved_graph_target(&unresolved) {
-- 
2.43.0


From fd020c592069a9ed20ac6cacd9368aaffa6d8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:34 +0000
Subject: [PATCH 06/12] fix: stop public method lookup at a definition the
 caller may not use

---
 crates/ruby-analysis/src/engine/resolution.rs | 53 +++++++++++--------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/crates/ruby-analysis/src/engine/resolution.rs b/crates/ruby-analysis/src/engine/resolution.rs
index dbac6da..75c3618 100644
--- a/crates/ruby-analysis/src/engine/resolution.rs
+++ b/crates/ruby-analysis/src/engine/resolution.rs
@@ -2826,19 +2826,28 @@ pub(super) fn method_facts_in_chain(
                 ancestor_chain.iter().any(|chain_fqn| {
                     chain_fqn.namespace_parts() == fact.owner.namespace_parts()
                         && chain_fqn.namespace_kind() == fact.owner.namespace_kind()
-                }) && {
-                    let (visibility, owner) =
-                        effective_method_visibility_for_chain(engine, ancestor_chain, fact, method);
-                    method_visibility_allowed(
-                        engine,
-                        visibility,
-                        &owner,
-                        allow_private,
-                        protected_caller,
-                    )
-                }
+                })
             })
             .collect::<Vec<_>>();
+        if facts.is_empty() {
+            continue;
+        }
+        facts.retain(|fact| {
+            let (visibility, owner) =
+                effective_method_visibility_for_chain(engine, ancestor_chain, fact, method);
+            method_visibility_allowed(
+                engine,
+                visibility,
+                &owner,
+                allow_private,
+                protected_caller,
+            )
+        });
+        if facts.is_empty() {
+            // Ruby stops at the first definition: one the caller may not use
+            // hides the inherited ones instead of falling through to them.
+            return None;
+        }
 
         if facts.iter().any(|fact| {
             engine
@@ -2864,18 +2873,16 @@ pub(super) fn method_facts_in_chain(
             });
         }
 
-        if !facts.is_empty() {
-            facts.sort_by_key(|fact| {
-                (
-                    fact.range.file_id,
-                    fact.range.start_byte,
-                    fact.range.end_byte,
-                    fact.fqn.to_string(),
-                )
-            });
-            facts.dedup();
-            return Some((ancestor.clone(), facts));
-        }
+        facts.sort_by_key(|fact| {
+            (
+                fact.range.file_id,
+                fact.range.start_byte,
+                fact.range.end_byte,
+                fact.fqn.to_string(),
+            )
+        });
+        facts.dedup();
+        return Some((ancestor.clone(), facts));
     }
 
     None
-- 
2.43.0


From 32bfbfbf523fb6faf2f36d2d626fb7a5f02ddb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:25 +0000
Subject: [PATCH 07/12] fix: count the order of mixins as part of what a file
 exports

---
 crates/ruby-analysis/src/engine/state.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/ruby-analysis/src/engine/state.rs b/crates/ruby-analysis/src/engine/state.rs
index a79d55d..c505320 100644
--- a/crates/ruby-analysis/src/engine/state.rs
+++ b/crates/ruby-analysis/src/engine/state.rs
@@ -369,9 +369,32 @@ impl SemanticExportFingerprint {
                 stable_graph_node_kind(hasher, fact.kind);
             }));
         }
+        // Ruby searches later mixins first, so the order in which a namespace
+        // links its ancestors is part of what it exports.
+        let mut link_starts: HashMap<&FullyQualifiedName, Vec<u32>> = HashMap::new();
+        for (source, range) in facts
+            .graph_edges
+            .iter()
+            .map(|fact| (&fact.source, fact.range))
+            .chain(
+                facts
+                    .unresolved_graph_edges
+                    .iter()
+                    .map(|fact| (&fact.source, fact.range)),
+            )
+        {
+            link_starts.entry(source).or_default().push(range.start_byte);
+        }
+        for starts in link_starts.values_mut() {
+            starts.sort_unstable();
+        }
+        let link_position = |source: &FullyQualifiedName, range: TextRange| {
+            link_starts[source].partition_point(|start| *start < range.start_byte)
+        };
         for fact in &facts.graph_edges {
             exports.push(export_hash(|hasher| {
                 stable_u8(hasher, 6);
+                stable_len(hasher, link_position(&fact.source, fact.range));
                 stable_fqn(hasher, &fact.source);
                 stable_fqn(hasher, &fact.target);
                 stable_graph_edge_kind(hasher, fact.kind);
@@ -381,6 +404,7 @@ impl SemanticExportFingerprint {
         for fact in &facts.unresolved_graph_edges {
             exports.push(export_hash(|hasher| {
                 stable_u8(hasher, 7);
+                stable_len(hasher, link_position(&fact.source, fact.range));
                 stable_fqn(hasher, &fact.source);
                 stable_len(hasher, fact.target_parts.len());
                 for part in &fact.target_parts {
-- 
2.43.0


From 6fc43f47aeb51734bd65fe70dd967f19887524e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:45 +0000
Subject: [PATCH 08/12] fix: refuse array descriptors with more dimensions than
 the JVM accepts

---
 crates/jvm-metadata/src/descriptor.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/jvm-metadata/src/descriptor.rs b/crates/jvm-metadata/src/descriptor.rs
index 363247a..9eafc11 100644
--- a/crates/jvm-metadata/src/descriptor.rs
+++ b/crates/jvm-metadata/src/descriptor.rs
@@ -1,3 +1,7 @@
+/// The JVM accepts no array type with more dimensions. The bound also keeps an
+/// arbitrary descriptor from nesting types deeper than a thread's stack.
+const MAX_ARRAY_DIMENSIONS: usize = 255;
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum JvmType {
     Byte,
@@ -110,8 +114,19 @@ impl<'a> DescriptorCursor<'a> {
                 Ok(JvmType::Object(self.source[start..end].to_string()))
             }
             Some(b'[') => {
-                let element = self.parse_type(false)?;
-                Ok(JvmType::Array(Box::new(element)))
+                let mut dimensions = 1usize;
+                while self.peek() == Some(b'[') {
+                    self.offset += 1;
+                    dimensions += 1;
+                }
+                if dimensions > MAX_ARRAY_DIMENSIONS {
+                    return Err("array type has too many dimensions");
+                }
+                let mut ty = self.parse_type(false)?;
+                for _ in 0..dimensions {
+                    ty = JvmType::Array(Box::new(ty));
+                }
+                Ok(ty)
             }
             Some(_) => Err("unknown descriptor type tag"),
             None => Err("missing descriptor type"),
-- 
2.43.0


From fe8f2c8e6c16728b21b256fa93642c638230e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:13 +0000
Subject: [PATCH 09/12] fix: read Multi-Release from the main section of the
 manifest only

---
 crates/jvm-metadata/src/archive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jvm-metadata/src/archive.rs b/crates/jvm-metadata/src/archive.rs
index 11850db..20fb798 100644
--- a/crates/jvm-metadata/src/archive.rs
+++ b/crates/jvm-metadata/src/archive.rs
@@ -313,7 +313,8 @@ fn manifest_is_multi_release(bytes: &[u8]) -> bool {
     let Ok(contents) = std::str::from_utf8(bytes) else {
         return false;
     };
-    contents.lines().any(|line| {
+    let mut main_section = contents.lines().take_while(|line| !line.is_empty());
+    main_section.any(|line| {
         line.split_once(':').is_some_and(|(name, value)| {
             name.eq_ignore_ascii_case("Multi-Release") && value.trim().eq_ignore_ascii_case("true")
         })
-- 
2.43.0


From 43a5d335cf0ee047de5f0140805451b19b7c8be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:01 +0000
Subject: [PATCH 10/12] fix: keep the arrow of a hash type from closing a
 bracket in YARD types

---
 crates/ruby-analysis/src/indexer/yard/converter.rs | 2 ++
 crates/ruby-analysis/src/indexer/yard/parser.rs    | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/yard/converter.rs b/crates/ruby-analysis/src/indexer/yard/converter.rs
index 00c6058..783f9e3 100644
--- a/crates/ruby-analysis/src/indexer/yard/converter.rs
+++ b/crates/ruby-analysis/src/indexer/yard/converter.rs
@@ -277,6 +277,8 @@ impl YardTypeConverter {
                     depth += 1;
                     current.push(c);
                 }
+                // the arrow of `Hash{K => V}` closes nothing
+                '>' if current.ends_with('=') => current.push(c),
                 '>' | '}' => {
                     depth -= 1;
                     current.push(c);
diff --git a/crates/ruby-analysis/src/indexer/yard/parser.rs b/crates/ruby-analysis/src/indexer/yard/parser.rs
index d302592..cbf72f1 100644
--- a/crates/ruby-analysis/src/indexer/yard/parser.rs
+++ b/crates/ruby-analysis/src/indexer/yard/parser.rs
@@ -207,6 +207,8 @@ impl YardParser {
         for (i, c) in types_str.char_indices() {
             match c {
                 '<' | '{' => depth += 1,
+                // the arrow of `Hash{K => V}` closes nothing
+                '>' if types_str[..i].ends_with('=') => {}
                 '>' | '}' => depth -= 1,
                 ',' if depth == 0 => {
                     result.push((start, i, &types_str[start..i]));
@@ -585,9 +587,9 @@ fn parse_type_list(types_str: &str) -> Vec<String> {
                 angle_depth += 1;
                 current.push(ch);
             }
-            '>' if angle_depth > 0 => {
+            '>' if angle_depth > 0 && !current.ends_with('=') => {
                 // Only treat > as closing bracket if we're inside angle brackets
-                // This prevents `=>` in Hash{K => V} from being misinterpreted
+                // and it is not the arrow of Hash{K => V}
                 angle_depth -= 1;
                 current.push(ch);
             }
-- 
2.43.0


From fb85ee4e5fded24b80aad8ee179d7ecc54bd7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 11/12] fix: count YARD type positions in UTF-16 columns

---
 .../ruby-analysis/src/indexer/yard/parser.rs  | 47 ++++++++++++++-----
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/yard/parser.rs b/crates/ruby-analysis/src/indexer/yard/parser.rs
index cbf72f1..6946ae9 100644
--- a/crates/ruby-analysis/src/indexer/yard/parser.rs
+++ b/crates/ruby-analysis/src/indexer/yard/parser.rs
@@ -142,7 +142,7 @@ impl YardParser {
             let bracket_end = full_match.end();
 
             // Check if position is within the brackets
-            let char_pos = position.character as usize;
+            let char_pos = utf16_column_to_byte(line, position.character);
             if char_pos >= bracket_start && char_pos < bracket_end {
                 // Position is inside [Type], find which type
                 let types_str = types_match.as_str();
@@ -165,8 +165,14 @@ impl YardParser {
 
                         if !base_type.is_empty() {
                             let range = Range::new(
-                                Position::new(position.line, (types_start + type_start) as u32),
-                                Position::new(position.line, (types_start + type_end) as u32),
+                                Position::new(
+                                    position.line,
+                                    utf16_len(&line[..types_start + type_start]),
+                                ),
+                                Position::new(
+                                    position.line,
+                                    utf16_len(&line[..types_start + type_end]),
+                                ),
                             );
                             return Some(YardTypeAtPosition {
                                 type_name: base_type,
@@ -183,8 +189,8 @@ impl YardParser {
                     let base_type = Self::extract_base_type(types_str.trim());
                     if !base_type.is_empty() {
                         let range = Range::new(
-                            Position::new(position.line, types_start as u32),
-                            Position::new(position.line, (types_start + types_str.len()) as u32),
+                            Position::new(position.line, utf16_len(&line[..types_start])),
+                            Position::new(position.line, utf16_len(&line[..types_match.end()])),
                         );
                         return Some(YardTypeAtPosition {
                             type_name: base_type,
@@ -342,8 +348,8 @@ impl YardParser {
                 comment_lines.push(CommentLineInfo {
                     content,
                     line_number,
-                    content_start_char: (leading_ws + hash_and_space) as u32,
-                    line_length: original_line.len() as u32,
+                    content_start_char: utf16_len(&original_line[..leading_ws + hash_and_space]),
+                    line_length: utf16_len(original_line),
                 });
             } else if !trimmed.is_empty() {
                 break;
@@ -446,11 +452,11 @@ impl YardParser {
                     Range {
                         start: Position {
                             line: line_info.line_number,
-                            character: line_info.content_start_char + bracket_start as u32,
+                            character: line_info.content_start_char + utf16_len(&line[..bracket_start]),
                         },
                         end: Position {
                             line: line_info.line_number,
-                            character: line_info.content_start_char + bracket_end as u32,
+                            character: line_info.content_start_char + utf16_len(&line[..bracket_end]),
                         },
                     }
                 })
@@ -498,11 +504,11 @@ impl YardParser {
                     Range {
                         start: Position {
                             line: line_info.line_number,
-                            character: line_info.content_start_char + bracket_start as u32,
+                            character: line_info.content_start_char + utf16_len(&line[..bracket_start]),
                         },
                         end: Position {
                             line: line_info.line_number,
-                            character: line_info.content_start_char + bracket_end as u32,
+                            character: line_info.content_start_char + utf16_len(&line[..bracket_end]),
                         },
                     }
                 })
@@ -556,6 +562,25 @@ impl YardParser {
 // Helper Functions
 // =============================================================================
 
+/// Length of a text in the UTF-16 code units of editor positions.
+fn utf16_len(text: &str) -> u32 {
+    u32::try_from(text.encode_utf16().count()).expect(
+        "INVARIANT VIOLATED: YARD comment column exceeded u32. This is a bug because editor protocol positions use u32 columns. Fix: reject lines longer than u32::MAX code units.",
+    )
+}
+
+/// Byte offset of an editor column in a line, clamped to the end of the line.
+fn utf16_column_to_byte(line: &str, column: u32) -> usize {
+    let mut units = 0;
+    for (offset, character) in line.char_indices() {
+        units += character.len_utf16();
+        if units > column as usize {
+            return offset;
+        }
+    }
+    line.len()
+}
+
 /// Convert an optional string to None if empty.
 fn non_empty_string(s: Option<&str>) -> Option<String> {
     s.filter(|s| !s.is_empty()).map(|s| s.to_string())
-- 
2.43.0


From 019a0f5f57f221f9c6b67010f46e60cb7fa69f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 12/12] hooks: verification access to navigation demand and
 dependency products

---
 Cargo.toml                            |   2 +
 crates/ruby-analysis/Cargo.toml       |   3 +
 crates/ruby-analysis/src/lib.rs       |   2 +
 crates/ruby-analysis/src/rsx_hooks.rs | 208 ++++++++++++++++++++++++++
 src/lib.rs                            |   4 +
 src/persistent_cache.rs               |  33 ++++
 src/rsx_demand_hooks.rs               |  78 ++++++++++
 src/rsx_product_hooks.rs              |  25 ++++
 8 files changed, 355 insertions(+)
 create mode 100644 crates/ruby-analysis/src/rsx_hooks.rs
 create mode 100644 src/rsx_demand_hooks.rs
 create mode 100644 src/rsx_product_hooks.rs

diff --git a/Cargo.toml b/Cargo.toml
index ec4ab78..660fe26 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -132,6 +132,8 @@ sha2 = "0.10.9"
 default = ["jemalloc"]
 memory-profiling = []
 jemalloc = ["dep:tikv-jemallocator"]
+rsx-demand-hooks = []
+rsx-product-hooks = ["ruby-analysis/rsx-hooks"]
 
 [profile.release]
 opt-level = "z"
diff --git a/crates/ruby-analysis/Cargo.toml b/crates/ruby-analysis/Cargo.toml
index 1959090..e93cde6 100644
--- a/crates/ruby-analysis/Cargo.toml
+++ b/crates/ruby-analysis/Cargo.toml
@@ -21,5 +21,8 @@ url = "2.5"
 smallvec = "1.13"
 indexmap = "2.14"
 
+[features]
+rsx-hooks = []
+
 [dev-dependencies]
 postcard = { version = "1.1.3", features = ["alloc"] }
diff --git a/crates/ruby-analysis/src/lib.rs b/crates/ruby-analysis/src/lib.rs
index 06336e4..81690b9 100644
--- a/crates/ruby-analysis/src/lib.rs
+++ b/crates/ruby-analysis/src/lib.rs
@@ -4,6 +4,8 @@ pub mod core;
 pub mod engine;
 pub mod indexer;
 pub mod inference;
+#[cfg(feature = "rsx-hooks")]
+pub mod rsx_hooks;
 
 pub use core::*;
 pub use engine::*;
diff --git a/crates/ruby-analysis/src/rsx_hooks.rs b/crates/ruby-analysis/src/rsx_hooks.rs
new file mode 100644
index 0000000..0569127
--- /dev/null
+++ b/crates/ruby-analysis/src/rsx_hooks.rs
@@ -0,0 +1,208 @@
+//! Access for verification harnesses to crate-private declaration evidence.
+//! Compiled only with `the feature `rsx-hooks``; nothing here adds behaviour.
+use crate::core::{
+    CallableBlockTemplate, CallableBodyExpression, CallableBodyParameter,
+    CallableBodyParameterKind, CallableBodySummary, CallableParameterTemplate, CallableSignature,
+    CallableTypeTemplate, ConstantCallableBodyFact, DirectYieldCall, ForwardedBlockCall,
+    FullyQualifiedName, LiteralKey, MethodFact, MethodParamKind, RubyMethod, RubyType, TextRange,
+};
+use crate::engine::FileFacts;
+
+#[derive(Clone)]
+pub struct Template(CallableTypeTemplate);
+
+impl Template {
+    pub fn concrete(ruby_type: RubyType) -> Self {
+        Self(CallableTypeTemplate::Concrete(ruby_type))
+    }
+
+    pub fn receiver() -> Self {
+        Self(CallableTypeTemplate::Receiver)
+    }
+
+    pub fn variable(name: &str) -> Self {
+        Self(CallableTypeTemplate::Variable(name.to_string()))
+    }
+
+    pub fn array(element: Self) -> Self {
+        Self(CallableTypeTemplate::Array(Box::new(element.0)))
+    }
+
+    pub fn hash(key: Self, value: Self) -> Self {
+        Self(CallableTypeTemplate::Hash(
+            Box::new(key.0),
+            Box::new(value.0),
+        ))
+    }
+
+    pub fn union(members: Vec<Self>) -> Self {
+        Self(CallableTypeTemplate::Union(
+            members.into_iter().map(|member| member.0).collect(),
+        ))
+    }
+
+    pub fn unconstrained() -> Self {
+        Self(CallableTypeTemplate::Unconstrained)
+    }
+}
+
+#[derive(Clone)]
+pub struct Signature(CallableSignature);
+
+impl Signature {
+    pub fn new(
+        receiver_type_parameters: Vec<String>,
+        type_parameters: Vec<String>,
+        parameters: Vec<(MethodParamKind, Template)>,
+        block_parameters: Vec<Template>,
+        block_return: Template,
+        block_required: bool,
+        return_type: Template,
+    ) -> Self {
+        Self(CallableSignature {
+            receiver_type_parameters,
+            type_parameters,
+            parameters: parameters
+                .into_iter()
+                .map(|(kind, template)| CallableParameterTemplate {
+                    kind,
+                    ruby_type: template.0,
+                })
+                .collect(),
+            block: CallableBlockTemplate {
+                parameters: block_parameters.into_iter().map(|it| it.0).collect(),
+                return_type: block_return.0,
+                required: block_required,
+            },
+            return_type: return_type.0,
+        })
+    }
+}
+
+pub fn with_block_evidence(
+    fact: MethodFact,
+    signatures: Vec<Signature>,
+    forwarded: Option<(String, RubyMethod)>,
+    yielded: Option<Vec<String>>,
+) -> MethodFact {
+    fact.with_callable_signatures(signatures.into_iter().map(|it| it.0).collect())
+        .with_forwarded_block_call(forwarded.map(|(receiver_parameter, method)| {
+            ForwardedBlockCall {
+                receiver_parameter,
+                method,
+            }
+        }))
+        .with_direct_yield_call(yielded.map(|parameter_names| DirectYieldCall { parameter_names }))
+}
+
+#[derive(Clone)]
+pub struct Body(CallableBodyExpression);
+
+impl Body {
+    pub fn literal(ruby_type: RubyType) -> Self {
+        Self(CallableBodyExpression::Literal(ruby_type))
+    }
+
+    pub fn parameter(index: usize) -> Self {
+        Self(CallableBodyExpression::Parameter(index))
+    }
+
+    pub fn capture(name: &str) -> Self {
+        Self(CallableBodyExpression::Capture(name.to_string()))
+    }
+
+    pub fn array(values: Vec<Self>) -> Self {
+        Self(CallableBodyExpression::Array(
+            values.into_iter().map(|it| it.0).collect(),
+        ))
+    }
+
+    pub fn shape(fields: Vec<(LiteralKey, Self)>) -> Self {
+        Self(CallableBodyExpression::Shape(
+            fields.into_iter().map(|(key, it)| (key, it.0)).collect(),
+        ))
+    }
+
+    pub fn call(receiver: Self, method: RubyMethod, arguments: Vec<(Option<LiteralKey>, Self)>) -> Self {
+        let (literal_argument_keys, arguments) =
+            arguments.into_iter().map(|(key, it)| (key, it.0)).unzip();
+        Self(CallableBodyExpression::Call {
+            receiver: Box::new(receiver.0),
+            method,
+            arguments,
+            literal_argument_keys,
+        })
+    }
+
+    pub fn any_of(values: Vec<Self>) -> Self {
+        Self(CallableBodyExpression::ExhaustiveUnion(
+            values.into_iter().map(|it| it.0).collect(),
+        ))
+    }
+}
+
+fn nodes(expression: &CallableBodyExpression) -> u8 {
+    1 + match expression {
+        CallableBodyExpression::Array(values) | CallableBodyExpression::ExhaustiveUnion(values) => {
+            values.iter().map(nodes).sum()
+        }
+        CallableBodyExpression::Shape(fields) => fields.iter().map(|(_, it)| nodes(it)).sum(),
+        CallableBodyExpression::Call {
+            receiver,
+            arguments,
+            ..
+        } => nodes(receiver) + arguments.iter().map(nodes).sum::<u8>(),
+        CallableBodyExpression::Literal(_)
+        | CallableBodyExpression::Parameter(_)
+        | CallableBodyExpression::Capture(_) => 0,
+    }
+}
+
+/// Adds a constant holding a lambda. A parameter is named, optional when it has
+/// a default, and the rest parameter when `rest` says so.
+pub fn add_constant_body(
+    facts: &mut FileFacts,
+    constant: FullyQualifiedName,
+    range: TextRange,
+    strict_arity: bool,
+    parameters: Vec<(String, Option<Body>, bool)>,
+    captures: Vec<String>,
+    result: Body,
+) {
+    let parameters: Vec<CallableBodyParameter> = parameters
+        .into_iter()
+        .map(|(name, default, rest)| CallableBodyParameter {
+            name,
+            kind: match (&default, rest) {
+                (_, true) => CallableBodyParameterKind::Rest,
+                (Some(_), _) => CallableBodyParameterKind::Optional,
+                (None, _) => CallableBodyParameterKind::Required,
+            },
+            default: default.map(|it| it.0),
+        })
+        .collect();
+    let node_count = nodes(&result.0)
+        + parameters
+            .iter()
+            .filter_map(|it| it.default.as_ref())
+            .map(nodes)
+            .sum::<u8>();
+    facts
+        .inference
+        .constant_callable_bodies
+        .push(ConstantCallableBodyFact {
+            constant,
+            summary: CallableBodySummary {
+                strict_arity,
+                parameters,
+                captures,
+                result: result.0,
+                node_count,
+            },
+            range,
+        });
+}
+
+pub fn same_constant_bodies(left: &FileFacts, right: &FileFacts) -> bool {
+    left.inference.constant_callable_bodies == right.inference.constant_callable_bodies
+}
diff --git a/src/lib.rs b/src/lib.rs
index 3bcf8c6..b2933d6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,10 @@ mod navigation_demand;
 pub mod perf;
 pub mod persistent_cache;
 pub mod query;
+#[cfg(feature = "rsx-demand-hooks")]
+pub mod rsx_demand_hooks;
+#[cfg(feature = "rsx-product-hooks")]
+pub mod rsx_product_hooks;
 pub mod runtime;
 pub mod server;
 pub mod single_flight;
diff --git a/src/persistent_cache.rs b/src/persistent_cache.rs
index 69bf812..5f43d89 100644
--- a/src/persistent_cache.rs
+++ b/src/persistent_cache.rs
@@ -1219,6 +1219,39 @@ fn sync_directory(path: &Path) -> Result<()> {
     Ok(())
 }
 
+/// Stored-entry codecs for verification harnesses; compiled only with
+/// `--cfg rsx_hooks`.
+#[cfg(feature = "rsx-product-hooks")]
+pub mod rsx_hooks {
+    use super::*;
+
+    fn kind(index: u64) -> PersistentProductKind {
+        match index {
+            0 => PersistentProductKind::Gem,
+            1 => PersistentProductKind::JavaArtifact,
+            _ => PersistentProductKind::CompiledWasm,
+        }
+    }
+
+    pub fn encode_entry(index: u64, payload: &[u8]) -> Result<Vec<u8>> {
+        let kind = kind(index);
+        encode_envelope(kind.magic(), kind.max_logical_entry_bytes(), payload)
+    }
+
+    pub fn decode_entry(index: u64, encoded: &[u8]) -> Result<Vec<u8>> {
+        let kind = kind(index);
+        decode_envelope(kind.magic(), kind.max_logical_entry_bytes(), encoded)
+    }
+
+    pub fn encode_wasm(key: &CompiledWasmProductKey, artifact: &[u8]) -> Result<Vec<u8>> {
+        encode_compiled_wasm_payload(key, artifact)
+    }
+
+    pub fn decode_wasm(key: &CompiledWasmProductKey, payload: Vec<u8>) -> Result<Vec<u8>> {
+        decode_compiled_wasm_payload(key, payload)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{
diff --git a/src/rsx_demand_hooks.rs b/src/rsx_demand_hooks.rs
new file mode 100644
index 0000000..56b2baa
--- /dev/null
+++ b/src/rsx_demand_hooks.rs
@@ -0,0 +1,78 @@
+//! Access for verification harnesses to crate-private state machines. Compiled only with
+//! the feature `rsx-demand-hooks`; nothing here adds behaviour.
+use crate::navigation_demand::{
+    NavigationDemandController, NavigationDemandOutcome, NavigationDemandStage,
+    MAX_PENDING_NAVIGATION_DEMAND_KEYS,
+};
+use std::future::Future;
+
+pub const MAX_DEMAND_KEYS: usize = MAX_PENDING_NAVIGATION_DEMAND_KEYS;
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum DemandOutcome {
+    TargetProcessed,
+    StageComplete,
+    Superseded,
+    Cancelled,
+    Saturated,
+}
+
+#[derive(Clone, Default)]
+pub struct Demand(NavigationDemandController);
+
+fn stage(dependency: bool) -> NavigationDemandStage {
+    if dependency {
+        NavigationDemandStage::Dependency
+    } else {
+        NavigationDemandStage::Project
+    }
+}
+
+impl Demand {
+    pub fn begin_generation(&self, generation: u64) {
+        self.0.begin_generation(generation);
+    }
+
+    pub fn request(
+        &self,
+        generation: u64,
+        dependency: bool,
+        key: &str,
+    ) -> impl Future<Output = DemandOutcome> {
+        let ticket = self.0.request(generation, stage(dependency), key);
+        async move {
+            match ticket.wait().await {
+                NavigationDemandOutcome::TargetProcessed => DemandOutcome::TargetProcessed,
+                NavigationDemandOutcome::StageComplete => DemandOutcome::StageComplete,
+                NavigationDemandOutcome::Superseded => DemandOutcome::Superseded,
+                NavigationDemandOutcome::Cancelled => DemandOutcome::Cancelled,
+                NavigationDemandOutcome::Saturated => DemandOutcome::Saturated,
+            }
+        }
+    }
+
+    pub fn drain(&self, generation: u64, dependency: bool) -> Vec<String> {
+        self.0.drain(generation, stage(dependency))
+    }
+
+    pub fn claim_if_requested(&self, generation: u64, dependency: bool, key: &str) -> bool {
+        self.0
+            .claim_if_requested(generation, stage(dependency), key)
+    }
+
+    pub fn complete_keys(&self, generation: u64, dependency: bool, keys: &[String]) {
+        self.0.complete_keys(generation, stage(dependency), keys);
+    }
+
+    pub fn complete_stage(&self, generation: u64, dependency: bool) {
+        self.0.complete_stage(generation, stage(dependency));
+    }
+
+    pub fn cancel_generation(&self, generation: u64) {
+        self.0.cancel_generation(generation);
+    }
+}
+
+pub fn normalize_key(name: &str) -> String {
+    crate::navigation_demand::normalize_navigation_key(name)
+}
diff --git a/src/rsx_product_hooks.rs b/src/rsx_product_hooks.rs
new file mode 100644
index 0000000..d8f6c34
--- /dev/null
+++ b/src/rsx_product_hooks.rs
@@ -0,0 +1,25 @@
+//! Access for verification harnesses to crate-private product encodings. Compiled only with
+//! the feature `rsx-product-hooks`; nothing here adds behaviour.
+pub use crate::dependency_product::{
+    GemDependencyBinding, GemDependencyFileTemplate, GemDependencyManifest, GemDependencyProduct,
+    GemDependencySource,
+};
+
+pub fn encode_product(product: &GemDependencyProduct) -> anyhow::Result<Vec<u8>> {
+    product.encode_persistent_payload()
+}
+
+pub fn decode_product(
+    manifest: &GemDependencyManifest,
+    payload: &[u8],
+) -> anyhow::Result<GemDependencyProduct> {
+    GemDependencyProduct::decode_persistent_payload(manifest, payload)
+}
+
+pub fn same_identity(left: &GemDependencyManifest, right: &GemDependencyManifest) -> bool {
+    left.key() == right.key()
+}
+
+pub fn cache_id(manifest: &GemDependencyManifest) -> String {
+    manifest.cache_id()
+}
-- 
2.43.0

