From 883708739d765a2fa1f5792f00b2860256f54d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:22 +0000
Subject: [PATCH 1/5] fix: adding a term twice must not count it twice

---
 src/liblevenshtein/collection/sorted_dawg.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index 7d8afa6..e1b9867 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -18,9 +18,16 @@ auto SortedDawg::add(const std::string &term) -> bool {
   }
 
   if (term.empty()) {
-    _root->is_final(true);
+    if (!_root->is_final()) {
+      _root->is_final(true);
+      _size += 1;
+    }
     _prev_term = term;
-    _size += 1;
+    return true;
+  }
+
+  // The term is already in the dictionary, it must not be counted again
+  if (term == _prev_term) {
     return true;
   }
 
-- 
2.43.0


From f9e12ecd63f0b01cce03389855b4515ccd5a2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:22 +0000
Subject: [PATCH 2/5] fix: report a failure to write the buffered rest of a
 serialized dictionary

---
 src/liblevenshtein/serialization/serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 80bdeee..f7f0ca7 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -30,8 +30,8 @@ auto serialize_protobuf(Dawg *dawg, const char *path) -> bool {
   std::fstream output(path, std::fstream::out | std::fstream::trunc |
                                 std::fstream::binary);
   bool serialized = serialize_protobuf(dawg, output);
-  output.close();
-  return serialized;
+  output.close(); // flushes what is still buffered, which may fail
+  return serialized && !output.fail();
 }
 
 auto serialize_protobuf(Dawg *dawg, std::ostream &output) -> bool {
-- 
2.43.0


From b7a199c03873b6e97fd1aa2d33bb5aeefc68b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:08 +0000
Subject: [PATCH 3/5] fix: do not load a truncated or corrupt dictionary

---
 .../serialization/serializer.cpp              | 60 +++++++++++++++++--
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index f7f0ca7..6067b8f 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -125,6 +125,36 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary * {
   return dict_proto;
 }
 
+/**
+ * Counts the terms that may be formed from the given node.
+ *
+ * @param node DawgNode from which to count the terms.
+ * @param counts Number of terms that may be formed from each visited node.
+ * @param path Nodes on the path to the given node.
+ * @return Whether the nodes reachable from the given one form no cycle.
+ */
+static auto count_terms(DawgNode *node, std::map<DawgNode *, uint64_t> &counts,
+                        std::set<DawgNode *> &path) -> bool {
+  if (path.contains(node)) {
+    return false;
+  }
+  if (counts.contains(node)) {
+    return true;
+  }
+  path.insert(node);
+  bool is_acyclic = true;
+  uint64_t count = node->is_final() ? 1 : 0;
+  node->for_each_edge([&](char label, DawgNode *target) {
+    is_acyclic = is_acyclic && count_terms(target, counts, path);
+    if (is_acyclic) {
+      count += counts[target];
+    }
+  });
+  path.erase(node);
+  counts[node] = count;
+  return is_acyclic;
+}
+
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
   std::set<uint64_t> final_node_ids;
   for (int index = 0; index < dict_proto.final_node_id_size(); index += 1) {
@@ -142,19 +172,37 @@ auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
     }
   }
 
+  bool is_valid = true;
   for (int index = 0; index < dict_proto.edge_size(); index += 1) {
     const llp::Dictionary_Edge &edge_proto = dict_proto.edge(index);
     uint64_t source_id = edge_proto.source_id();
     char label = (char)edge_proto.label();
     uint64_t target_id = edge_proto.target_id();
-    DawgNode *source = nodes[source_id];
-    DawgNode *target = nodes[target_id];
-    source->add_edge(label, target);
+    auto source = nodes.find(source_id);
+    auto target = nodes.find(target_id);
+    if (source == nodes.end() || target == nodes.end() ||
+        source->second->transition(label) != nullptr) {
+      is_valid = false;
+      break;
+    }
+    source->second->add_edge(label, target->second);
   }
 
-  DawgNode *root = nodes[dict_proto.root_id()];
-  auto *dawg = new SortedDawg(root, dict_proto.size());
-  return dawg;
+  // Do not load a dictionary that is incomplete (e.g. truncated) or corrupt
+  auto root = nodes.find(dict_proto.root_id());
+  std::map<DawgNode *, uint64_t> counts;
+  std::set<DawgNode *> path;
+  is_valid = is_valid && root != nodes.end() &&
+             count_terms(root->second, counts, path) &&
+             counts[root->second] == dict_proto.size();
+
+  for (const auto &[node_id, node] : nodes) {
+    if (!is_valid || !counts.contains(node)) {
+      delete node;
+    }
+  }
+
+  return is_valid ? new SortedDawg(root->second, dict_proto.size()) : nullptr;
 }
 
 } // namespace liblevenshtein
-- 
2.43.0


From 9548730bbf84b5d43f2d1e0912ce1f008a2f4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 4/5] fix: visit each node of a dictionary once when freeing it

---
 src/liblevenshtein/collection/dawg.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/liblevenshtein/collection/dawg.cpp b/src/liblevenshtein/collection/dawg.cpp
index 2e8fbf9..0c412a3 100644
--- a/src/liblevenshtein/collection/dawg.cpp
+++ b/src/liblevenshtein/collection/dawg.cpp
@@ -28,13 +28,16 @@ Dawg::~Dawg() {
 auto Dawg::all_nodes() const -> std::unordered_set<DawgNode *> {
   std::unordered_set<DawgNode *> nodes;
   std::queue<DawgNode *> pending;
+  nodes.insert(_root);
   pending.push(_root);
   while (!pending.empty()) {
     DawgNode *node = pending.front();
     pending.pop();
-    nodes.insert(node);
     node->for_each_edge([&](char label, DawgNode *target) {
-      pending.push(target);
+      // a node may be reached over many paths; expand it only once
+      if (nodes.insert(target).second) {
+        pending.push(target);
+      }
     });
   }
   return nodes;
-- 
2.43.0


From 9d836890e286422c459e561bcdeadd0ede059a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:56 +0000
Subject: [PATCH 5/5] fix: refuse a file whose number of terms overflows, and
 do not recurse while counting them

---
 .../serialization/serializer.cpp              | 64 ++++++++++++-------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 6067b8f..1f5b8eb 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -5,6 +5,7 @@
 #include <map>
 #include <set>
 #include <utility>
+#include <vector>
 
 #include "liblevenshtein/collection/dawg.h"
 #include "liblevenshtein/collection/dawg_node.h"
@@ -126,33 +127,51 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary * {
 }
 
 /**
- * Counts the terms that may be formed from the given node.
+ * Counts the terms that may be formed from each node.
  *
- * @param node DawgNode from which to count the terms.
- * @param counts Number of terms that may be formed from each visited node.
- * @param path Nodes on the path to the given node.
- * @return Whether the nodes reachable from the given one form no cycle.
+ * @param root DawgNode from which the counted nodes may be reached.
+ * @param counts Number of terms that may be formed from each reachable node.
+ * @return Whether the nodes form no cycle and fewer than 2^64 terms.
  */
-static auto count_terms(DawgNode *node, std::map<DawgNode *, uint64_t> &counts,
-                        std::set<DawgNode *> &path) -> bool {
-  if (path.contains(node)) {
+static auto count_terms(DawgNode *root, std::map<DawgNode *, uint64_t> &counts)
+    -> bool {
+  // count the edges into each node
+  std::map<DawgNode *, uint64_t> incoming;
+  std::vector<DawgNode *> reachable = {root};
+  for (std::size_t index = 0; index < reachable.size(); index += 1) {
+    reachable[index]->for_each_edge([&](char label, DawgNode *target) {
+      if (incoming[target]++ == 0 && target != root) {
+        reachable.push_back(target);
+      }
+    });
+  }
+  if (incoming[root] > 0) {
     return false;
   }
-  if (counts.contains(node)) {
-    return true;
+
+  // order the nodes such that each one precedes its targets
+  std::vector<DawgNode *> ordered = {root};
+  for (std::size_t index = 0; index < ordered.size(); index += 1) {
+    ordered[index]->for_each_edge([&](char label, DawgNode *target) {
+      if (--incoming[target] == 0) {
+        ordered.push_back(target);
+      }
+    });
+  }
+  if (ordered.size() != reachable.size()) {
+    return false;
   }
-  path.insert(node);
-  bool is_acyclic = true;
-  uint64_t count = node->is_final() ? 1 : 0;
-  node->for_each_edge([&](char label, DawgNode *target) {
-    is_acyclic = is_acyclic && count_terms(target, counts, path);
-    if (is_acyclic) {
+
+  bool is_countable = true;
+  for (auto node = ordered.rbegin(); node != ordered.rend(); ++node) {
+    uint64_t count = (*node)->is_final() ? 1 : 0;
+    (*node)->for_each_edge([&](char label, DawgNode *target) {
       count += counts[target];
-    }
-  });
-  path.erase(node);
-  counts[node] = count;
-  return is_acyclic;
+      is_countable = is_countable && count >= counts[target];
+    });
+    counts[*node] = count;
+  }
+  return is_countable;
 }
 
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
@@ -191,9 +210,8 @@ auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
   // Do not load a dictionary that is incomplete (e.g. truncated) or corrupt
   auto root = nodes.find(dict_proto.root_id());
   std::map<DawgNode *, uint64_t> counts;
-  std::set<DawgNode *> path;
   is_valid = is_valid && root != nodes.end() &&
-             count_terms(root->second, counts, path) &&
+             count_terms(root->second, counts) &&
              counts[root->second] == dict_proto.size();
 
   for (const auto &[node_id, node] : nodes) {
-- 
2.43.0

