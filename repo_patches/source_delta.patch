From 6d420e7c32f83d9931ee6486a3b796c747b6f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 01/60] fix: mutable_graph::new_node: an appended vertex
 contains itself

---
 lib/data_structure/mutable_graph.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index a4447fb..a18ed73 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -96,9 +96,10 @@ class mutable_graph {
 
     NodeID new_node() {
         if (last_node == vertices.size()) {
-            contained_in_this.emplace_back(last_node);
-            current_position.emplace_back();
+            contained_in_this.emplace_back(1, last_node);
+            current_position.resize(last_node + 1);
             current_position[last_node] = vertices.size();
+            original_nodes = current_position.size();
             vertices.emplace_back();
             partition_index.emplace_back();
             node_in_cut.emplace_back();
-- 
2.43.0


From d04e2747a820c0982432c134720d7a707e5839fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 02/60] fix: mutable_graph::deleteVertex: also drop the
 contained vertices of the removed slot

---
 lib/data_structure/mutable_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index a18ed73..f190257 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -407,6 +407,7 @@ class mutable_graph {
         weighted_degree.pop_back();
         partition_index.pop_back();
         node_in_cut.pop_back();
+        contained_in_this.pop_back();
     }
 
     // Contraction methods
-- 
2.43.0


From 4dd40547327ecf46b2e8432c7b511c3bef050a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 03/60] fix: mutable_graph: serialization of graphs with more
 vertices than edges

---
 lib/data_structure/mutable_graph.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index f190257..09629e1 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -846,6 +846,8 @@ class mutable_graph {
         uint64_t num_nodes = v[0];
         size_t num_edges = v[1];
         uint64_t original_nodes = v[3];
+        // markers of the vertices have to differ from all edge targets
+        uint64_t node_marker = std::max<uint64_t>(num_nodes, num_edges);
         G->start_construction(num_nodes);
         G->set_partition_count(v[2]);
         G->setOriginalNodes(original_nodes);
@@ -853,11 +855,11 @@ class mutable_graph {
         size_t deserial = 4;
         while (n < num_nodes) {
             uint64_t next = v[deserial++];
-            if (next >= num_edges) {
+            if (next >= node_marker) {
                 if (next == UNDEFINED_EDGE) {
                     break;
                 }
-                n = next - num_edges;
+                n = next - node_marker;
                 continue;
             }
             uint64_t wgt = v[deserial++];
@@ -887,9 +889,10 @@ class mutable_graph {
         serial[2] = static_cast<uint64_t>(partition_count);
         serial[3] = static_cast<uint64_t>(original_nodes);
         size_t next = 4;
+        uint64_t node_marker = std::max<uint64_t>(vertices.size(), num_edges);
 
         for (NodeID n : nodes()) {
-            serial[next++] = static_cast<uint64_t>(num_edges + n);
+            serial[next++] = node_marker + n;
             for (const auto& [t, w, r, f, l] : vertices[n]) {
                 // I am deeply sorry for this ugly code, but structured bindings
                 // seem to not work in combination with maybe_unused to suppress
-- 
2.43.0


From 23f4e44d932d02785f007d44df6cd58934871c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 04/60] fix: mutable_graph::from_graph_access: add weights of
 parallel edges only once

---
 lib/data_structure/mutable_graph.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 09629e1..7b26d6d 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -808,6 +808,9 @@ class mutable_graph {
                 if (last_incident[t] == n) {
                     // double edge
                     // LOG1 << "double edge";
+                    // every edge is only added from its smaller vertex
+                    if (n > t)
+                        continue;
 
                     for (EdgeID e2 : m_G->edges_of(n)) {
                         if (m_G->getEdgeTarget(n, e2) == t) {
-- 
2.43.0


From b88d0ed058265f4e849befc565b8350d855681f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 05/60] fix: cactus: track vertex locations even if save_cut is
 not set

---
 .../global_mincut/cactus/cactus_mincut.h       |  3 +++
 .../global_mincut/minimum_cut_helpers.h        | 18 ++++++++++++++++++
 lib/parallel/algorithm/parallel_cactus.h       |  3 +++
 3 files changed, 24 insertions(+)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 9a97994..379ad0f 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -73,6 +73,9 @@ class cactus_mincut : public minimum_cut {
             return std::make_tuple(
                 -1, empty, std::vector<std::pair<NodeID, EdgeID> > { });
         }
+        // contraction only keeps track of where a vertex went when cuts are
+        // saved, and that is needed to unpack the cactus
+        save_cut_guard keep_vertex_locations;
         recursive_cactus<GraphPtr> rc;
         EdgeWeight mincut = graphs.back()->getMinDegree();
         timer t;
diff --git a/lib/algorithms/global_mincut/minimum_cut_helpers.h b/lib/algorithms/global_mincut/minimum_cut_helpers.h
index f1e8615..edce7f4 100644
--- a/lib/algorithms/global_mincut/minimum_cut_helpers.h
+++ b/lib/algorithms/global_mincut/minimum_cut_helpers.h
@@ -21,6 +21,24 @@
 #include "data_structure/graph_access.h"
 #include "data_structure/mutable_graph.h"
 
+// enables save_cut and goes back to the previous setting when leaving the scope
+class save_cut_guard {
+ public:
+    save_cut_guard() : previous(configuration::getConfig()->save_cut) {
+        configuration::getConfig()->save_cut = true;
+    }
+
+    ~save_cut_guard() {
+        configuration::getConfig()->save_cut = previous;
+    }
+
+    save_cut_guard(const save_cut_guard&) = delete;
+    save_cut_guard& operator = (const save_cut_guard&) = delete;
+
+ private:
+    bool previous;
+};
+
 template <class GraphPtr>
 class minimum_cut_helpers {
  private:
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 3417342..f9017eb 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -81,6 +81,9 @@ class parallel_cactus : public minimum_cut {
             return std::make_tuple(
                 -1, empty, std::vector<std::pair<NodeID, EdgeID> > { });
         }
+        // contraction only keeps track of where a vertex went when cuts are
+        // saved, and that is needed to unpack the cactus
+        save_cut_guard keep_vertex_locations;
         timer t;
         EdgeWeight mincut = graphs.back()->getMinDegree();
         recursive_cactus<GraphPtr> rc;
-- 
2.43.0


From 4c5df4175b5cb95b32cf3ee1396c4e35eb440bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 06/60] fix: degrees and queue keys of more than 32 bits are
 truncated

---
 lib/coarsening/contraction_tests.h                  | 2 +-
 lib/common/definitions.h                            | 2 +-
 lib/parallel/algorithm/exact_parallel_minimum_cut.h | 2 +-
 lib/parallel/coarsening/contraction_tests.h         | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index b944909..02fa2be 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -65,7 +65,7 @@ class tests {
             for (EdgeID e : G->edges_of(n)) {
                 auto [t, wgt] = G->getEdge(n, e);
                 NodeID target = uf.Find(t);
-                NodeID t_wgt = G->getWeightedNodeDegree(t);
+                NodeWeight t_wgt = G->getWeightedNodeDegree(t);
                 NodeID source = uf.Find(n);
 
                 if (wgt >= limit) {
diff --git a/lib/common/definitions.h b/lib/common/definitions.h
index 6a4b870..47231b8 100644
--- a/lib/common/definitions.h
+++ b/lib/common/definitions.h
@@ -30,7 +30,7 @@ typedef double EdgeRatingType;
 typedef uint64_t EdgeID;
 typedef uint64_t PathID;
 typedef uint32_t PartitionID;
-typedef uint32_t NodeWeight;
+typedef uint64_t NodeWeight;
 typedef uint64_t EdgeWeight;
 typedef NodeWeight Gain;
 typedef int32_t Color;
diff --git a/lib/parallel/algorithm/exact_parallel_minimum_cut.h b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
index 287e3d5..f494260 100644
--- a/lib/parallel/algorithm/exact_parallel_minimum_cut.h
+++ b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
@@ -183,7 +183,7 @@ class exact_parallel_minimum_cut : public minimum_cut {
         for (int i = 0; i < omp_get_num_threads(); ++i) {
             fifo_node_bucket_pq pq(G->number_of_nodes(), mincut + 1);
             std::vector<bool> blacklisted(G->number_of_nodes(), false);
-            std::vector<NodeID> r_v(G->number_of_nodes(), 0);
+            std::vector<EdgeWeight> r_v(G->number_of_nodes(), 0);
             std::vector<bool> local_visited(G->number_of_nodes(), false);
 
             NodeID starting_node = start_nodes[i];
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index 9266e8f..b072676 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -137,10 +137,10 @@ class tests {
                     }
                 }
 
-                NodeID deg_n = G->getWeightedNodeDegree(n);
+                EdgeWeight deg_n = G->getWeightedNodeDegree(n);
                 for (EdgeID e1 : G->edges_of(n)) {
                     auto [tgt, w1] = G->getEdge(n, e1);
-                    NodeID deg_tgt = G->getWeightedNodeDegree(tgt);
+                    EdgeWeight deg_tgt = G->getWeightedNodeDegree(tgt);
                     finished[tgt] = true;
                     EdgeWeight wgt_sum = w1;
                     if (tgt > n) {
-- 
2.43.0


From c512d04de59fe9e63347fd0294b8b204dd23d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 07/60] fix: exact_parallel_minimum_cut: respect the selected
 queue, bucket queues exhaust memory on large weights

---
 .../algorithm/exact_parallel_minimum_cut.h       | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/parallel/algorithm/exact_parallel_minimum_cut.h b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
index f494260..128d0c9 100644
--- a/lib/parallel/algorithm/exact_parallel_minimum_cut.h
+++ b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
@@ -181,7 +181,9 @@ class exact_parallel_minimum_cut : public minimum_cut {
 
 #pragma omp parallel for
         for (int i = 0; i < omp_get_num_threads(); ++i) {
-            fifo_node_bucket_pq pq(G->number_of_nodes(), mincut + 1);
+            // bucket queues need memory linear in mincut
+            std::unique_ptr<priority_queue_interface> pq(
+                noi_minimum_cut<GraphPtr>::selectPq(G, mincut + 1));
             std::vector<bool> blacklisted(G->number_of_nodes(), false);
             std::vector<EdgeWeight> r_v(G->number_of_nodes(), 0);
             std::vector<bool> local_visited(G->number_of_nodes(), false);
@@ -189,13 +191,13 @@ class exact_parallel_minimum_cut : public minimum_cut {
             NodeID starting_node = start_nodes[i];
             NodeID current_node = starting_node;
 
-            pq.insert(current_node, 0);
+            pq->insert(current_node, 0);
 
             timer t;
             size_t elements = 0;
 
-            while (!pq.empty()) {
-                current_node = pq.deleteMax();
+            while (!pq->empty()) {
+                current_node = pq->deleteMax();
                 elements++;
                 local_visited[current_node] = true;
 
@@ -224,10 +226,10 @@ class exact_parallel_minimum_cut : public minimum_cut {
                                              mincut);
                                 r_v[tgt] = new_rv;
                                 if (!visited[tgt] && !local_visited[tgt]) {
-                                    if (pq.contains(tgt)) {
-                                        pq.increaseKey(tgt, new_rv);
+                                    if (pq->contains(tgt)) {
+                                        pq->increaseKey(tgt, new_rv);
                                     } else {
-                                        pq.insert(tgt, new_rv);
+                                        pq->insert(tgt, new_rv);
                                     }
                                 }
                             }
-- 
2.43.0


From 8a636a2e4536812062bdb01697d366adfa071241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 08/60] fix: parallel_cactus: inverted check for a known
 minimum cut

---
 lib/parallel/algorithm/parallel_cactus.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index f9017eb..7bcef6f 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -88,7 +88,7 @@ class parallel_cactus : public minimum_cut {
         EdgeWeight mincut = graphs.back()->getMinDegree();
         recursive_cactus<GraphPtr> rc;
         exact_parallel_minimum_cut<GraphPtr> mc;
-        if (known_mincut != UNDEFINED_NODE) {
+        if (known_mincut == UNDEFINED_NODE) {
 #ifdef PARALLEL
             viecut<GraphPtr> heuristic_mc;
             auto G2 = graphs.back();
-- 
2.43.0


From 80d7076933fff3dd9aad9059a10fd3fa1340ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 09/60] fix: matula, padberg_rinaldi: do not contract the input
 graph in place

---
 lib/algorithms/global_mincut/matula_approx.h   | 3 ++-
 lib/algorithms/global_mincut/padberg_rinaldi.h | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/matula_approx.h b/lib/algorithms/global_mincut/matula_approx.h
index 3f36082..f162bfe 100644
--- a/lib/algorithms/global_mincut/matula_approx.h
+++ b/lib/algorithms/global_mincut/matula_approx.h
@@ -57,7 +57,8 @@ class matula_approx : public minimum_cut {
             auto uf = noi.modified_capforest(
                 graphs.back(),
                 std::max(mincut / 2, static_cast<EdgeWeight>(1)));
-            graphs.emplace_back(contraction::fromUnionFind(graphs.back(), &uf));
+            graphs.emplace_back(
+                contraction::fromUnionFind(graphs.back(), &uf, true));
             mincut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, mincut);
         }
 
diff --git a/lib/algorithms/global_mincut/padberg_rinaldi.h b/lib/algorithms/global_mincut/padberg_rinaldi.h
index 09a4b04..0c1a0ec 100644
--- a/lib/algorithms/global_mincut/padberg_rinaldi.h
+++ b/lib/algorithms/global_mincut/padberg_rinaldi.h
@@ -54,12 +54,14 @@ class padberg_rinaldi : public minimum_cut {
                && graphs.back()->number_of_nodes() < last_nodes) {
             last_nodes = graphs.back()->number_of_nodes();
             union_find uf_34 = tests::prTests34(graphs.back(), cut);
-            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34);
+            auto G_34 = contraction::fromUnionFind(
+                graphs.back(), &uf_34, true);
             graphs.push_back(G_34);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
 
             union_find uf_12 = tests::prTests12(graphs.back(), cut);
-            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12);
+            auto G_12 = contraction::fromUnionFind(
+                graphs.back(), &uf_12, true);
             graphs.push_back(G_12);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
         }
-- 
2.43.0


From 105de0efbce5d5e194bfe340f3f5d716c5c595f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 10/60] fix: viecut: cut found by the exact algorithm on a
 coarse graph is not saved for the input graph

---
 .../global_mincut/minimum_cut_helpers.h          | 16 ++++++++++++++++
 lib/algorithms/global_mincut/viecut.h            |  6 +++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/minimum_cut_helpers.h b/lib/algorithms/global_mincut/minimum_cut_helpers.h
index edce7f4..0494a5a 100644
--- a/lib/algorithms/global_mincut/minimum_cut_helpers.h
+++ b/lib/algorithms/global_mincut/minimum_cut_helpers.h
@@ -103,6 +103,22 @@ class minimum_cut_helpers {
         }
     }
 
+    // copies the cut stored in the coarsest graph to the input graph
+    static void liftCut(const std::vector<GraphPtr>& graphs) {
+        if (!configuration::getConfig()->save_cut || graphs.size() < 2) {
+            return;
+        }
+
+        for (NodeID idx : graphs[0]->nodes()) {
+            NodeID coarseID = idx;
+            for (size_t lv = 0; lv < graphs.size() - 1; ++lv) {
+                coarseID = graphs[lv]->getPartitionIndex(coarseID);
+            }
+            graphs[0]->setNodeInCut(
+                idx, graphs.back()->getNodeInCut(coarseID));
+        }
+    }
+
     static void retrieveMinimumCut(
         std::vector<GraphPtr> graphs) {
         GraphPtr G = graphs[0];
diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index 0a7e601..1063e52 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -106,7 +106,11 @@ class viecut : public minimum_cut {
         if (graphs.back()->number_of_nodes() > 1) {
             timer t;
             noi_minimum_cut<GraphPtr> noi;
-            cut = std::min(cut, noi.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight exact_cut = noi.perform_minimum_cut(graphs.back(), true);
+            if (exact_cut < cut) {
+                cut = exact_cut;
+                minimum_cut_helpers<GraphPtr>::liftCut(graphs);
+            }
 
             LOGC(timing) << "Exact Algorithm:"
                          << t.elapsedToZero() << " deg: "
-- 
2.43.0


From ee375635919f9ce0c975c1c8f750fc00a63ebd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 11/60] fix: ks_minimum_cut: saved cut uses the mapping of the
 other recursive call

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index c34eb35..e372201 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -198,13 +198,20 @@ class ks_minimum_cut : public minimum_cut {
 
         if (graphs.back()->number_of_nodes() > 50) {
             auto w1 = recurse(current_position, iteration);
+            // the second call contracts G2 again and overwrites this mapping
+            std::vector<PartitionID> w1_mapping;
+            for (NodeID n : G2->nodes()) {
+                w1_mapping.emplace_back(G2->getPartitionIndex(n));
+            }
             /* pseudo-random seed */
             auto w2 = recurse(current_position, iteration + 9273);
 
             if (configuration::getConfig()->save_cut) {
-                size_t u_from = w1.first < w2.first ? w1.second : w2.second;
+                bool use_w1 = w1.first < w2.first;
+                size_t u_from = use_w1 ? w1.second : w2.second;
                 for (NodeID n : G2->nodes()) {
-                    NodeID ctr = G2->getPartitionIndex(n);
+                    NodeID ctr = use_w1 ? w1_mapping[n]
+                                 : G2->getPartitionIndex(n);
                     PartitionID pid = graphs[u_from]->getNodeInCut(ctr);
                     G2->setNodeInCut(n, pid);
                 }
-- 
2.43.0


From e5128a96b6fa3b48419d2ad78e8e82b07d73c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 12/60] fix: ks_minimum_cut: support mutable_graph, which the
 mincut executable uses

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index e372201..ee29e14 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -82,6 +82,18 @@ class ks_minimum_cut : public minimum_cut {
         return mincut;
     }
 
+    EdgeWeight perform_minimum_cut(mutableGraphPtr G) {
+        if (!G) {
+            return -1;
+        }
+        graphAccessPtr static_graph = G->to_graph_access();
+        EdgeWeight mincut = perform_minimum_cut(static_graph);
+        for (NodeID n : G->nodes()) {
+            G->setNodeInCut(n, static_graph->getNodeInCut(n));
+        }
+        return mincut;
+    }
+
     NodeID sample_contractible(graphAccessPtr G,
                                NodeID currentN,
                                union_find* uf,
-- 
2.43.0


From aec46834ac400e8c62bd0fad0f80e0312cfb74f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 13/60] fix: mincut: option -q selects the priority queue

---
 app/mincut.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/mincut.cpp b/app/mincut.cpp
index b8b3034..1051941 100644
--- a/app/mincut.cpp
+++ b/app/mincut.cpp
@@ -50,7 +50,7 @@ int main(int argn, char** argv) {
     cmdl.add_stringlist('p', "proc", procs, "number of processes");
 #endif
     cmdl.add_param_string("algo", cfg->algorithm, "algorithm name");
-    cmdl.add_string('q', "pq", cfg->queue_type,
+    cmdl.add_string('q', "pq", cfg->pq,
                     "name of priority queue implementation");
     cmdl.add_size_t('i', "iter", num_iterations, "number of iterations");
     cmdl.add_bool('l', "disable_limiting", cfg->disable_limiting,
-- 
2.43.0


From 09db7274080d8919413c745db045e4f68565b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 14/60] fix: cactus: saved cut is not a minimum cut

---
 .../global_mincut/cactus/cactus_mincut.h          | 15 +++++++++++----
 lib/parallel/algorithm/parallel_cactus.h          | 11 +++++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 379ad0f..3bc46db 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -84,13 +84,12 @@ class cactus_mincut : public minimum_cut {
             mincut = vc.perform_minimum_cut(graphs.back());
         } else {
             mincut = known_mincut;
+            minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
         }
         noi_minimum_cut<GraphPtr> noi;
         std::vector<std::vector<std::pair<NodeID, NodeID> > > guaranteed_edges;
         std::vector<size_t> ge_ids;
 
-        minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
-
         NodeID previous_size = UNDEFINED_NODE;
         while (graphs.back()->number_of_nodes() * 1.01 < previous_size) {
             previous_size = graphs.back()->number_of_nodes();
@@ -167,8 +166,16 @@ class cactus_mincut : public minimum_cut {
             }
         }
 
-        if (graphs.back()->number_of_nodes() > 1)
-            mincut = noi.perform_minimum_cut(graphs.back());
+        if (graphs.back()->number_of_nodes() > 1) {
+            EdgeWeight kernel_cut = noi.perform_minimum_cut(graphs.back());
+            if (kernel_cut < mincut) {
+                // guaranteed edges are no cactus edges, as in the loop above
+                mincut = kernel_cut;
+                guaranteed_edges.clear();
+                ge_ids.clear();
+                minimum_cut_helpers<GraphPtr>::liftCut(graphs);
+            }
+        }
 
         rc.setMincut(mincut);
         auto out_graph = rc.flowMincut(graphs);  // This is the cactus graph!
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 7bcef6f..366749e 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -194,8 +194,15 @@ class parallel_cactus : public minimum_cut {
 
         // check whether there is a small cut hidden in graphs.back()
         if (graphs.back()->number_of_nodes() > 1) {
-            mincut = std::min(mincut,
-                              mc.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight kernel_cut =
+                mc.perform_minimum_cut(graphs.back(), true);
+            if (kernel_cut < mincut) {
+                // guaranteed edges are no cactus edges, as in the loop above
+                mincut = kernel_cut;
+                guaranteed_edges.clear();
+                ge_ids.clear();
+                minimum_cut_helpers<GraphPtr>::liftCut(graphs);
+            }
         }
 
         rc.setMincut(mincut);
-- 
2.43.0


From 17f612ed695dcd12060bba5dd34a0930fa76456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 15/60] fix: cactus: vertices removed from the graph show up in
 other cactus vertices

---
 .../global_mincut/cactus/recursive_cactus.h          | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 14a9f97..4c953ba 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -330,12 +330,12 @@ class recursive_cactus {
         for (NodeID n : contract->nodes()) {
             contract->setContainedVertices(n, { });
         }
-        for (NodeID n = 0; n < G->getOriginalNodes(); ++n) {
-            NodeID pos = G->getCurrentPosition(n);
-            if (pos < G->n()) {
-                NodeID n_in_contract = v[G->getCurrentPosition(n)];
-                contract->addContainedVertex(n_in_contract, n);
-                contract->setCurrentPosition(n, n_in_contract);
+        // only vertices that are still part of G. vertices which were removed
+        // to be re-inserted later might have an outdated position.
+        for (NodeID n : G->nodes()) {
+            for (NodeID c : G->containedVertices(n)) {
+                contract->addContainedVertex(v[n], c);
+                contract->setCurrentPosition(c, v[n]);
             }
         }
         for (NodeID n : contract->nodes()) {
-- 
2.43.0


From 007586883d99d72f29a55eb2478712f00120a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 16/60] fix: dynamic_mincut: path in cactus misses vertices
 that join two cycles

findPath returned the vertices between two cycles only if they had a tree
edge on the path, and vertices inside of a cycle if the two searches met
there. Contracting the former set leaves a graph that is no cactus and
represents cuts that are not minimum, contracting the latter loses cuts.
---
 .../global_mincut/dynamic/cactus_path.h       | 89 +++++++++----------
 .../global_mincut/dynamic/dynamic_mincut.h    |  4 +-
 2 files changed, 45 insertions(+), 48 deletions(-)

diff --git a/lib/algorithms/global_mincut/dynamic/cactus_path.h b/lib/algorithms/global_mincut/dynamic/cactus_path.h
index 7a6afb7..d5f28dc 100644
--- a/lib/algorithms/global_mincut/dynamic/cactus_path.h
+++ b/lib/algorithms/global_mincut/dynamic/cactus_path.h
@@ -11,9 +11,9 @@
 
 #pragma once
 
-#include <queue>
-#include <tuple>
+#include <algorithm>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 #include "common/definitions.h"
@@ -24,56 +24,53 @@ class cactus_path {
     cactus_path() { }
     ~cactus_path() { }
 
+    // vertices of the cactus that lie on every path from s to t. Vertices of a
+    // cycle that are only on one of its two sides are not part of the set.
     static std::unordered_set<NodeID> findPath(mutableGraphPtr cactus, NodeID s,
-                                               NodeID t, EdgeWeight mincut) {
-        // BFS from both vertices
-        std::vector<std::tuple<NodeID, NodeID, bool> > parents(
-            cactus->n(), std::make_tuple(UNDEFINED_NODE, UNDEFINED_NODE, true));
-        std::queue<NodeID> nodes;
-        nodes.push(s);
-        nodes.push(t);
-        parents[s] = std::make_tuple(s, s, true);
-        parents[t] = std::make_tuple(t, t, true);
+                                               NodeID t) {
+        // DFS from s, low is the earliest visited neighbor of the DFS subtree
+        std::vector<NodeID> order(cactus->n(), UNDEFINED_NODE);
+        std::vector<NodeID> low(cactus->n(), UNDEFINED_NODE);
+        std::vector<NodeID> parent(cactus->n(), UNDEFINED_NODE);
+        std::vector<std::pair<NodeID, EdgeID> > stack;
+        NodeID visited = 0;
+        order[s] = low[s] = visited++;
+        stack.emplace_back(s, 0);
 
-        while (!nodes.empty()) {
-            NodeID n = nodes.front();
-            nodes.pop();
-            NodeID myRoot = std::get<1>(parents[n]);
-            for (EdgeID e : cactus->edges_of(n)) {
-                auto [tgt, wgt] = cactus->getEdge(n, e);
-                NodeID tgtRoot = std::get<1>(parents[tgt]);
-                if (tgtRoot != UNDEFINED_NODE && tgtRoot != myRoot) {
-                    // found path!
-                    std::unordered_set<NodeID> pathST;
-                    pathST.insert(tgt);
-                    pathST.insert(n);
-                    NodeID nToS = myRoot == s ? n : tgt;
-                    bool onTree = std::get<2>(parents[n]);
-                    while (nToS != s) {
-                        nToS = std::get<0>(parents[nToS]);
-                        if (onTree || std::get<2>(parents[nToS]))
-                            pathST.insert(nToS);
-                        onTree = std::get<2>(parents[nToS]);
-                    }
-                    NodeID tgtToT = myRoot == s ? tgt : n;
-                    onTree = std::get<2>(parents[tgt]);
-                    while (tgtToT != t) {
-                        tgtToT = std::get<0>(parents[tgtToT]);
-                        if (onTree || std::get<2>(parents[tgtToT]))
-                            pathST.insert(tgtToT);
-                        onTree = std::get<2>(parents[tgtToT]);
-                    }
-                    return pathST;
+        while (!stack.empty()) {
+            auto& [n, e] = stack.back();
+            if (e < cactus->get_first_invalid_edge(n)) {
+                NodeID tgt = cactus->getEdgeTarget(n, e++);
+                if (order[tgt] == UNDEFINED_NODE) {
+                    order[tgt] = low[tgt] = visited++;
+                    parent[tgt] = n;
+                    stack.emplace_back(tgt, 0);
+                } else {
+                    low[n] = std::min(low[n], order[tgt]);
                 }
-
-                if (tgtRoot == UNDEFINED_NODE) {
-                    parents[tgt] = std::make_tuple(n, myRoot, wgt == mincut);
-                    nodes.push(tgt);
+            } else {
+                NodeID p = parent[n];
+                if (p != UNDEFINED_NODE) {
+                    low[p] = std::min(low[p], low[n]);
                 }
+                stack.pop_back();
             }
         }
 
-        LOG1 << "Error: didn't find path!";
-        return std::unordered_set<NodeID> { };
+        if (order[t] == UNDEFINED_NODE) {
+            LOG1 << "Error: didn't find path!";
+            return std::unordered_set<NodeID> { };
+        }
+
+        std::unordered_set<NodeID> pathST;
+        pathST.insert(t);
+        for (NodeID n = t; n != s; n = parent[n]) {
+            // subtree of n can not bypass its parent
+            if (low[n] >= order[parent[n]]) {
+                pathST.insert(parent[n]);
+            }
+        }
+        pathST.insert(s);
+        return pathST;
     }
 };
diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index c4b1a0c..9d3d0c2 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -109,7 +109,7 @@ class dynamic_mincut {
                 }
             } else {
                 auto vtxset = cactus_path::findPath(out_cactus, sCactusPos,
-                                                    tCactusPos, current_cut);
+                                                    tCactusPos);
                 if (vtxset.size() == out_cactus->n()) {
                     LOGC(verbose) << "full recompute";
                     checkCacheAndRecompute();
@@ -163,7 +163,7 @@ class dynamic_mincut {
             NodeID tCactusPos = cachedCactus[mincut]->getCurrentPosition(t);
             if (sCactusPos != tCactusPos) {
                 auto vtxset = cactus_path::findPath(
-                    cachedCactus[mincut], sCactusPos, tCactusPos, current_cut);
+                    cachedCactus[mincut], sCactusPos, tCactusPos);
                 if (vtxset.size() == cachedCactus[mincut]->n()) {
                     auto [cut, outg, b] = cactus.findAllMincuts(original_graph);
                     callsOfStaticAlgorithm++;
-- 
2.43.0


From 590e0bb8d26e036e32fa16144fbdaa18a4d58250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 17/60] fix: dynamic_mincut: cached cacti are used although
 edges were deleted since

A cached cactus was used without regard to deletions, also of the edge whose
deletion caused the caching. The list of insertions of a cactus was also
incomplete if a cactus of smaller cut value was overwritten in the meantime,
and the number of cached cut values was counted as number of insertions.
---
 .../global_mincut/dynamic/dynamic_mincut.h    | 163 +++++++++---------
 1 file changed, 78 insertions(+), 85 deletions(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index 9d3d0c2..9812bb9 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -11,8 +11,11 @@
 
 #pragma once
 
+#include <algorithm>
+#include <map>
 #include <tuple>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 #ifdef PARALLEL
@@ -37,12 +40,11 @@ class dynamic_mincut {
     size_t max_cache_size = 1000;
     size_t callsOfStaticAlgorithm;
 
-    size_t numCachedMincuts;
-    EdgeWeight lowestCachedMincut;
-    std::vector<mutableGraphPtr> cachedCactus;
-    std::vector<std::vector<std::tuple<NodeID, NodeID, EdgeWeight> > >
-    cachedInserts;
-    std::vector<bool> currentlyCaching;
+    // cacti of previous graphs, by minimum cut value, each with the number of
+    // changes that were made before it
+    std::map<EdgeWeight, std::pair<mutableGraphPtr, size_t> > cachedCactus;
+    // insertions (true) and deletions (false) since the oldest cached cactus
+    std::vector<std::tuple<NodeID, NodeID, EdgeWeight, bool> > changes;
     push_relabel<true, false> pr;
 
 #ifdef PARALLEL
@@ -61,9 +63,9 @@ class dynamic_mincut {
     EdgeWeight initialize(mutableGraphPtr graph) {
         timer t;
         auto [cut, outgraph, balanced] = cactus.findAllMincuts(graph);
-        numCachedMincuts = 0;
+        cachedCactus.clear();
+        changes.clear();
         callsOfStaticAlgorithm = 1;
-        lowestCachedMincut = UNDEFINED_EDGE;
         original_graph = graph;
         out_cactus = outgraph;
         current_cut = cut;
@@ -75,15 +77,12 @@ class dynamic_mincut {
 
     void checkCacheAndRecompute() {
         EdgeWeight mincut = UNDEFINED_NODE;
-        if (lowestCachedMincut != UNDEFINED_EDGE) {
+        if (!cachedCactus.empty()) {
             noi_minimum_cut<mutableGraphPtr> noi;
             mincut = noi.perform_minimum_cut(original_graph);
         }
 
-        if (mincut == lowestCachedMincut &&
-            2 * cachedInserts.size() < cachedCactus[mincut]->n()) {
-            buildCactusFromCache(mincut);
-        } else {
+        if (!buildCactusFromCache(mincut)) {
             auto [cut, outg, b] = cactus.findAllMincuts(
                 original_graph, mincut);
             callsOfStaticAlgorithm++;
@@ -97,7 +96,7 @@ class dynamic_mincut {
         NodeID sCactusPos = out_cactus->getCurrentPosition(s);
         NodeID tCactusPos = out_cactus->getCurrentPosition(t);
         original_graph->new_edge_order(s, t, w);
-        cacheEdge(s, t, w);
+        cacheChange(s, t, w, true);
         if (sCactusPos != tCactusPos) {
             if (current_cut == 0) {
                 if (out_cactus->n() == 2) {
@@ -128,55 +127,51 @@ class dynamic_mincut {
         return current_cut;
     }
 
-    void buildCactusFromCache(EdgeWeight mincut) {
-        numCachedMincuts--;
-        currentlyCaching[mincut] = false;
-        if (numCachedMincuts == 0) {
-            lowestCachedMincut = UNDEFINED_EDGE;
-        } else {
-            for (size_t i = mincut + 1; i < currentlyCaching.size(); ++i) {
-                if (currentlyCaching[i]) {
-                    lowestCachedMincut = i;
-                    break;
-                }
-            }
+    // The cached cactus can be used if all changes since then add up to
+    // insertions. Then all current minimum cuts were minimum cuts there.
+    bool buildCactusFromCache(EdgeWeight mincut) {
+        auto cached = cachedCactus.find(mincut);
+        if (cached == cachedCactus.end()) {
+            return false;
+        }
+        auto [cactus, first_change] = cached->second;
+        cachedCactus.erase(cached);
 
-            if (cachedInserts[mincut].size()
-                + cachedInserts[lowestCachedMincut].size() > max_cache_size) {
-                if (numCachedMincuts > 0) {
-                    // delete all larger mincut cacti by shrinking the vector
-                    cachedCactus.resize(mincut + 1);
-                    cachedInserts.resize(mincut + 1);
-                    currentlyCaching.resize(mincut + 1);
-                    numCachedMincuts = 0;
-                }
-                lowestCachedMincut = UNDEFINED_EDGE;
-            } else {
-                for (auto x : cachedInserts[mincut]) {
-                    cachedInserts[lowestCachedMincut].emplace_back(x);
-                }
+        if (2 * (changes.size() - first_change) >= cactus->n()) {
+            return false;
+        }
+
+        std::map<std::pair<NodeID, NodeID>,
+                 std::pair<EdgeWeight, EdgeWeight> > difference;
+        for (size_t i = first_change; i < changes.size(); ++i) {
+            auto [s, t, w, inserted] = changes[i];
+            auto& diff = difference[std::minmax(s, t)];
+            (inserted ? diff.first : diff.second) += w;
+        }
+
+        for (const auto& [edge, diff] : difference) {
+            if (diff.first < diff.second) {
+                return false;
             }
         }
 
-        for (auto [s, t, w] : cachedInserts[mincut]) {
-            NodeID sCactusPos = cachedCactus[mincut]->getCurrentPosition(s);
-            NodeID tCactusPos = cachedCactus[mincut]->getCurrentPosition(t);
-            if (sCactusPos != tCactusPos) {
-                auto vtxset = cactus_path::findPath(
-                    cachedCactus[mincut], sCactusPos, tCactusPos);
-                if (vtxset.size() == cachedCactus[mincut]->n()) {
-                    auto [cut, outg, b] = cactus.findAllMincuts(original_graph);
-                    callsOfStaticAlgorithm++;
-                    out_cactus = outg;
-                    current_cut = cut;
-                    return;
-                } else {
-                    contractVertexSet(cachedCactus[mincut], vtxset);
+        for (const auto& [edge, diff] : difference) {
+            if (diff.first > diff.second) {
+                NodeID sCactusPos = cactus->getCurrentPosition(edge.first);
+                NodeID tCactusPos = cactus->getCurrentPosition(edge.second);
+                if (sCactusPos != tCactusPos) {
+                    auto vtxset = cactus_path::findPath(
+                        cactus, sCactusPos, tCactusPos);
+                    if (vtxset.size() == cactus->n()) {
+                        return false;
+                    }
+                    contractVertexSet(cactus, vtxset);
                 }
             }
         }
-        out_cactus = cachedCactus[mincut];
+        out_cactus = cactus;
         current_cut = mincut;
+        return true;
     }
 
     void contractVertexSet(
@@ -261,6 +256,7 @@ class dynamic_mincut {
 
         EdgeWeight wgt = original_graph->getEdgeWeight(s, eToT);
         original_graph->deleteEdge(s, eToT);
+        cacheChange(s, t, wgt, false);
         NodeID sCactusPos = out_cactus->getCurrentPosition(s);
         NodeID tCactusPos = out_cactus->getCurrentPosition(t);
 
@@ -279,7 +275,7 @@ class dynamic_mincut {
             /* auto [cut, outg, b] = cactus.findAllMincuts(original_graph);
             out_cactus = outg;
             current_cut = cut;   */
-            putIntoCache(out_cactus, current_cut);
+            putIntoCache(out_cactus, current_cut, s, t, wgt);
             size_t fpid = flow_problem_id++;
             recursive_cactus<mutableGraphPtr> rc;
             size_t flow = pr.solve_max_flow_min_cut(
@@ -294,7 +290,7 @@ class dynamic_mincut {
                 original_graph, { s, t }, 0, false,
                 current_cut, fp);
             if (static_cast<EdgeWeight>(flow) < current_cut) {
-                putIntoCache(out_cactus, current_cut);
+                putIntoCache(out_cactus, current_cut, s, t, wgt);
                 recursive_cactus<mutableGraphPtr> rc;
                 auto new_g = rc.decrementalRebuild(original_graph, s, flow, fp);
                 current_cut = flow;
@@ -329,39 +325,36 @@ class dynamic_mincut {
         return current_cut;
     }
 
-    void putIntoCache(mutableGraphPtr cactusToCache, EdgeWeight cactusCut) {
-        numCachedMincuts++;
-        if (cactusCut < lowestCachedMincut) {
-            lowestCachedMincut = cactusCut;
+    // cache the cactus before the deletion of edge (s, t)
+    void putIntoCache(mutableGraphPtr cactusToCache, EdgeWeight cactusCut,
+                      NodeID s, NodeID t, EdgeWeight wgt) {
+        if (cachedCactus.empty()) {
+            changes.emplace_back(s, t, wgt, false);
         }
+        cachedCactus[cactusCut] =
+            std::make_pair(cactusToCache, changes.size() - 1);
+    }
 
-        if (cachedCactus.size() < cactusCut + 1) {
-            cachedCactus.resize(cactusCut + 1);
-            cachedInserts.resize(cactusCut + 1);
-            currentlyCaching.resize(cactusCut + 1, false);
+    void cacheChange(NodeID s, NodeID t, EdgeWeight wgt, bool inserted) {
+        if (!cachedCactus.empty()) {
+            changes.emplace_back(s, t, wgt, inserted);
         }
 
-        cachedCactus[cactusCut] = cactusToCache;
-        cachedInserts[cactusCut].clear();
-        currentlyCaching[cactusCut] = true;
-    }
+        // drop cacti that are too old to be used, and the changes before them
+        size_t oldest = changes.size();
+        for (auto it = cachedCactus.begin(); it != cachedCactus.end();) {
+            if (changes.size() - it->second.second > max_cache_size) {
+                it = cachedCactus.erase(it);
+            } else {
+                oldest = std::min(oldest, it->second.second);
+                ++it;
+            }
+        }
 
-    void cacheEdge(NodeID s, NodeID t, EdgeWeight wgt) {
-        if (numCachedMincuts > 0
-            && cachedInserts[lowestCachedMincut].size() <= max_cache_size) {
-            cachedInserts[lowestCachedMincut].emplace_back(s, t, wgt);
-        } else {
-            if (numCachedMincuts > 0) {
-                numCachedMincuts--;
-                currentlyCaching[lowestCachedMincut] = false;
-                if (numCachedMincuts > 0) {
-                    // delete all larger mincut cacti by shrinking the vector
-                    cachedCactus.resize(lowestCachedMincut + 1);
-                    cachedInserts.resize(lowestCachedMincut + 1);
-                    currentlyCaching.resize(lowestCachedMincut + 1);
-                    numCachedMincuts = 0;
-                }
-                lowestCachedMincut = UNDEFINED_EDGE;
+        if (oldest > max_cache_size || cachedCactus.empty()) {
+            changes.erase(changes.begin(), changes.begin() + oldest);
+            for (auto& [cut, cached] : cachedCactus) {
+                cached.second -= oldest;
             }
         }
     }
-- 
2.43.0


From f77ccd10910801a8d6a5aac3d9b9700574226939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:22 +0000
Subject: [PATCH 18/60] fix: dynamic_mincut: new minimum cuts after a deletion
 are not in the cactus

If the deletion of an edge inside of a cactus vertex leaves the minimum cut
value as it was, cuts that separate the endpoints can become minimum.
---
 lib/algorithms/global_mincut/dynamic/dynamic_mincut.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index 9812bb9..c7c2dce 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -288,7 +288,7 @@ class dynamic_mincut {
             size_t fp = flow_problem_id++;
             auto [flow, sourceset] = pr.solve_max_flow_min_cut(
                 original_graph, { s, t }, 0, false,
-                current_cut, fp);
+                current_cut + 1, fp);
             if (static_cast<EdgeWeight>(flow) < current_cut) {
                 putIntoCache(out_cactus, current_cut, s, t, wgt);
                 recursive_cactus<mutableGraphPtr> rc;
@@ -296,6 +296,12 @@ class dynamic_mincut {
                 current_cut = flow;
                 out_cactus = new_g;
                 LOGC(verbose) << "recomputing, minimum cut changed to " << flow;
+            } else if (static_cast<EdgeWeight>(flow) == current_cut) {
+                LOGC(verbose) << "new minimum cuts of same value, recompute";
+                auto [cut, outg, b] = cactus.findAllMincuts(
+                    original_graph, current_cut);
+                callsOfStaticAlgorithm++;
+                out_cactus = outg;
             }
         }
         LOGC(verbose) << "t " << timer.elapsed() << " cut " << current_cut
-- 
2.43.0


From 5879524dfecd5857d3160faebc2fb20e4f062cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 19/60] fix: dynamic_mincut: insertion of an edge that exists
 breaks the static algorithms

Repeated insertions add parallel edges to the graph, on which the cactus
algorithm crashes or returns wrong results.
---
 .../global_mincut/cactus/recursive_cactus.h   |  1 +
 .../global_mincut/dynamic/dynamic_mincut.h    | 15 +++++++++++---
 lib/data_structure/mutable_graph.h            | 20 +++++++++++++++++++
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 4c953ba..237ef67 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -92,6 +92,7 @@ class recursive_cactus {
         strongly_connected_components scc;
         auto [v, num_comp, blocksizes] = scc.strong_components(graph, fpid);
         auto STCactus = findSTCactus(v, graph, s, num_comp);
+        STCactus->mergeParallelEdges();
         return STCactus;
     }
 
diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index c7c2dce..ede1d61 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -75,16 +75,25 @@ class dynamic_mincut {
         return cut;
     }
 
+    // Repeated insertions of an edge are parallel edges, which the static
+    // algorithms do not support.
+    mutableGraphPtr graphWithoutParallelEdges() {
+        auto simple_graph = std::make_shared<mutable_graph>(*original_graph);
+        simple_graph->mergeParallelEdges();
+        return simple_graph;
+    }
+
     void checkCacheAndRecompute() {
+        auto simple_graph = graphWithoutParallelEdges();
         EdgeWeight mincut = UNDEFINED_NODE;
         if (!cachedCactus.empty()) {
             noi_minimum_cut<mutableGraphPtr> noi;
-            mincut = noi.perform_minimum_cut(original_graph);
+            mincut = noi.perform_minimum_cut(simple_graph);
         }
 
         if (!buildCactusFromCache(mincut)) {
             auto [cut, outg, b] = cactus.findAllMincuts(
-                original_graph, mincut);
+                simple_graph, mincut);
             callsOfStaticAlgorithm++;
             out_cactus = outg;
             current_cut = cut;
@@ -299,7 +308,7 @@ class dynamic_mincut {
             } else if (static_cast<EdgeWeight>(flow) == current_cut) {
                 LOGC(verbose) << "new minimum cuts of same value, recompute";
                 auto [cut, outg, b] = cactus.findAllMincuts(
-                    original_graph, current_cut);
+                    graphWithoutParallelEdges(), current_cut);
                 callsOfStaticAlgorithm++;
                 out_cactus = outg;
             }
diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 7b26d6d..765c3d8 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -937,6 +937,26 @@ class mutable_graph {
         return G;
     }
 
+    // replace parallel edges with one edge of their total weight
+    void mergeParallelEdges() {
+        std::vector<EdgeID> edge_to(number_of_nodes(), UNDEFINED_EDGE);
+        for (NodeID n : nodes()) {
+            for (EdgeID e = 0; e < get_first_invalid_edge(n);) {
+                EdgeID& first = edge_to[getEdgeTarget(n, e)];
+                if (first == UNDEFINED_EDGE) {
+                    first = e++;
+                } else {
+                    setEdgeWeight(n, first, getEdgeWeight(n, first)
+                                  + getEdgeWeight(n, e));
+                    deleteEdge(n, e);
+                }
+            }
+            for (EdgeID e : edges_of(n)) {
+                edge_to[getEdgeTarget(n, e)] = UNDEFINED_EDGE;
+            }
+        }
+    }
+
     void resetContainedvertices() {
         original_nodes = vertices.size();
         for (NodeID n : nodes()) {
-- 
2.43.0


From 082080e57bc03c127e9cd613ffb57f9cd55b66e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 20/60] fix: cactus: Padberg-Rinaldi tests contract vertices
 that are separated by a minimum cut

The degree of contracted vertices was updated for one edge between them, it is
too large if more edges connect them. Vertices that are the side of a minimum
cut were then contracted and this cut was missing in the cactus.
---
 .../global_mincut/cactus/all_cut_local_red.h  | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
index f92a43e..d08f270 100644
--- a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
+++ b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
@@ -39,21 +39,20 @@ class all_cut_local_red {
 
         for (NodeID n : G->nodes()) {
             for (EdgeID e : G->edges_of(n)) {
-                NodeID target = uf.Find(G->getEdgeTarget(n, e));
+                NodeID tgt = G->getEdgeTarget(n, e);
+                NodeID target = uf.Find(tgt);
                 NodeID source = uf.Find(n);
                 EdgeWeight wgt = G->getEdgeWeight(n, e);
 
+                // conditions on the vertices of G and not on sets of already
+                // contracted vertices, as the degree of such a set is unknown
+                // if more than one edge connects it with another set
                 if (target != source
                     && (wgt > limit
-                        || 2 * wgt > degrees[source]
-                        || 2 * wgt > degrees[target])
-                    && degrees[source] > limit
-                    && degrees[target] > limit) {
-                    EdgeWeight new_w =
-                        degrees[source] + degrees[target] - (2 * wgt);
-
-                    degrees[source] = new_w;
-                    degrees[target] = new_w;
+                        || 2 * wgt > degrees[n]
+                        || 2 * wgt > degrees[tgt])
+                    && degrees[n] > limit
+                    && degrees[tgt] > limit) {
                     uf.Union(source, target);
                 }
             }
-- 
2.43.0


From ee87bee8f2ef136f04ab3f563ee9e8fbb89666ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 21/60] fix: parallel contract_graph: read past the end if all
 vertices are in one block

---
 lib/parallel/coarsening/contract_graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index 281f40c..4871d96 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -302,7 +302,8 @@ class contraction {
         NodeID block0 = 0;
         NodeID block1 = 0;
 
-        if (G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
+        if (num_nodes > 1
+            && G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
             std::vector<uint32_t> el(num_nodes);
             for (size_t i = 0; i < mapping.size(); ++i) {
                 ++el[mapping[i]];
-- 
2.43.0


From 2f806277d216b686211ed8b49e1273c622faa0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 22/60] fix: push_relabel: flow of an earlier problem is used
 if its problem id repeats

---
 lib/algorithms/flow/push_relabel.h                   | 12 +++++++++++-
 .../global_mincut/cactus/recursive_cactus.h          |  6 +++---
 .../global_mincut/dynamic/dynamic_mincut.h           |  6 ++----
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/algorithms/flow/push_relabel.h b/lib/algorithms/flow/push_relabel.h
index eb6a41a..13f6abe 100644
--- a/lib/algorithms/flow/push_relabel.h
+++ b/lib/algorithms/flow/push_relabel.h
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <algorithm>
+#include <atomic>
 #include <iostream>
 #include <memory>
 #include <queue>
@@ -33,6 +34,15 @@ const int WORK_OP_RELABEL = 9;
 const double GLOBAL_UPDATE_FRQ = 0.51;
 const int WORK_NODE_TO_EDGES = 4;
 
+// Flow stays on the edges of a graph, marked with the id of its flow problem.
+// An id must never be used again (also not by a generator with equal seed), as
+// the flow of the previous problem would be used as flow of the new one.
+inline size_t newFlowProblemId() {
+    static std::atomic<size_t> next_id(
+        static_cast<size_t>(UNDEFINED_NODE) + 1);
+    return next_id++;
+}
+
 template <bool limited = false, bool parallel_flows = false>
 class push_relabel {
  public:
@@ -343,7 +353,7 @@ class push_relabel {
         NodeID curr_source,
         bool compute_source_set,
         FlowType limit = 0,
-        size_t problem_id = random_functions::nextInt(0, UNDEFINED_NODE)) {
+        size_t problem_id = newFlowProblemId()) {
         t.restart();
         for (NodeID s : sources) {
             if (s >= G->number_of_nodes()) {
diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 237ef67..29722a9 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -51,7 +51,7 @@ class recursive_cactus {
  public:
     recursive_cactus() { }
     explicit recursive_cactus(EdgeWeight mincut)
-        : mincut(mincut), problem_id(random_functions::next()) { }
+        : mincut(mincut) { }
     ~recursive_cactus() { }
 
     static constexpr bool debug = false;
@@ -154,7 +154,7 @@ class recursive_cactus {
         {
             std::vector<NodeID> vtcs = { s, tgt };
             push_relabel pr;
-            problem_id++;
+            problem_id = newFlowProblemId();
             max_flow = pr.solve_max_flow_min_cut(
                 G, vtcs, 0, false, false, problem_id).first;
         }
@@ -614,5 +614,5 @@ class recursive_cactus {
 
     timer t;
     EdgeWeight mincut;
-    size_t problem_id;
+    size_t problem_id = 0;
 };
diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index ede1d61..4d2d531 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -36,7 +36,6 @@ class dynamic_mincut {
     mutableGraphPtr original_graph;
     mutableGraphPtr out_cactus;
     EdgeWeight current_cut;
-    size_t flow_problem_id;
     size_t max_cache_size = 1000;
     size_t callsOfStaticAlgorithm;
 
@@ -69,7 +68,6 @@ class dynamic_mincut {
         original_graph = graph;
         out_cactus = outgraph;
         current_cut = cut;
-        flow_problem_id = random_functions::next();
         LOGC(verbose) << "initialize t " << t.elapsed() << " cut " << cut
                       << " cactus_vtcs " << outgraph->n();
         return cut;
@@ -285,7 +283,7 @@ class dynamic_mincut {
             out_cactus = outg;
             current_cut = cut;   */
             putIntoCache(out_cactus, current_cut, s, t, wgt);
-            size_t fpid = flow_problem_id++;
+            size_t fpid = newFlowProblemId();
             recursive_cactus<mutableGraphPtr> rc;
             size_t flow = pr.solve_max_flow_min_cut(
                 original_graph, { s, t }, 0, false, current_cut, fpid).first;
@@ -294,7 +292,7 @@ class dynamic_mincut {
             current_cut = flow;
             out_cactus = new_g;
         } else {
-            size_t fp = flow_problem_id++;
+            size_t fp = newFlowProblemId();
             auto [flow, sourceset] = pr.solve_max_flow_min_cut(
                 original_graph, { s, t }, 0, false,
                 current_cut + 1, fp);
-- 
2.43.0


From 9eaf4bdfd97b8c074b63fdbc9dbd42acb8aa0166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 23/60] fix: push_relabel: depth of partial relabeling larger
 than the graph writes past the end of the counters

---
 lib/algorithms/flow/push_relabel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/algorithms/flow/push_relabel.h b/lib/algorithms/flow/push_relabel.h
index 13f6abe..5e9746d 100644
--- a/lib/algorithms/flow/push_relabel.h
+++ b/lib/algorithms/flow/push_relabel.h
@@ -94,6 +94,8 @@ class push_relabel {
         size_t depthPR = configuration::getConfig()->depthOfPartialRelabeling;
 
         if constexpr (limited && initial) {
+            // distances (and m_count) are limited by the number of vertices
+            depthPR = std::min<size_t>(depthPR, m_G->n() - 1);
             size_t fillValue = depthPR + 1;
             std::fill(m_distance.begin(), m_distance.end(), fillValue);
             m_count[0] = 0;
-- 
2.43.0


From 1e8e11ee81cec59ce77625d20c5cb599f2616dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 24/60] fix: multiterminal cut: best solution of other
 processes starts at a 32 bit value

Values of 2^32 and more were treated as worse than a solution nobody has,
and the final broadcast was asked for from a process that does not exist.
---
 lib/algorithms/multicut/mpi_communication.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 9af06b0..c437c72 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -25,7 +25,7 @@ class mpi_communication {
     static const bool debug = false;
 
     mpi_communication() : bestSolutionLocal(false),
-                          best_solution(UNDEFINED_NODE) {
+                          best_solution(UNDEFINED_FLOW) {
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
         req.resize(mpi_size);
-- 
2.43.0


From 23c0e70e3bf1f3c67ef1511d4a7517c63fb2820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 25/60] fix: multiterminal cut: solution of a component looked
 up at the wrong index

Components with fewer than two terminals have no problem of their own, so
the number of a component is not the index of its problem.
---
 lib/algorithms/multicut/multiterminal_cut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 801884b..8853ff7 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -265,7 +265,7 @@ class multiterminal_cut {
 
                 for (size_t i = 0; i < mapping.size(); ++i) {
                     NodeID n = mapping[i];
-                    nodeProblemMapping[n] = problem;
+                    nodeProblemMapping[n] = problems.size();
                     if (positionInProblem[n] != UNDEFINED_NODE) {
                         LOG1 << "ERROR: NODE IN MULTIPLE CCs";
                         exit(1);
-- 
2.43.0


From 5aca71f126a2f65be44192d22ca263ffe68335ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 26/60] fix: multiterminal cut: terminals lose their block in
 finished problems

Contracting vertices does not keep the block set for a terminal, so a
problem without edges, or with one terminal left, was turned into an
assignment in which a terminal was in the block of another one (exit with
an error) or in which vertices were cut off from the only terminal left.
---
 lib/algorithms/multicut/branch_multicut.h    |  2 ++
 lib/algorithms/multicut/graph_contraction.h  | 10 ++++++++++
 lib/algorithms/multicut/maximum_flow.h       |  8 ++------
 lib/algorithms/multicut/problem_management.h | 18 +++++++++++++++---
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 10f18fd..c180297 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -546,6 +546,8 @@ class branch_multicut {
         graph_contraction::deleteTermEdges(problem, original_terminals);
         if (!problem->graph->number_of_edges()) {
             problem->upper_bound = problem->deleted_weight;
+            // contractions do not keep the block of a terminal
+            graph_contraction::setTerminalBlocks(problem, original_terminals);
             auto sol = msm.getSolution(problem);
             updateBestSolution(&sol, problem->terminals.size());
             return;
diff --git a/lib/algorithms/multicut/graph_contraction.h b/lib/algorithms/multicut/graph_contraction.h
index e1354e4..4a421c6 100644
--- a/lib/algorithms/multicut/graph_contraction.h
+++ b/lib/algorithms/multicut/graph_contraction.h
@@ -109,6 +109,16 @@ class graph_contraction {
         setTerminals(mcp, original_terminals);
     }
 
+    static void setTerminalBlocks(
+        problemPointer problem,
+        const std::vector<NodeID>& original_terminals) {
+        for (size_t i = 0; i < original_terminals.size(); ++i) {
+            NodeID o = problem->mapped(original_terminals[i]);
+            problem->graph->setPartitionIndex(
+                problem->graph->getCurrentPosition(o), i);
+        }
+    }
+
     static void setTerminals(problemPointer problem,
                              const std::vector<NodeID>& original_terminals) {
         std::unordered_map<NodeID, bool> invalid_flows;
diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index 17d418c..16e840c 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -48,16 +48,12 @@ class maximum_flow {
             G->setPartitionIndex(n, term1);
         }
 
-        for (size_t i = 0; i < original_terminals.size(); ++i) {
-            NodeID c =
-                G->getCurrentPosition(problem->mapped(original_terminals[i]));
-            G->setPartitionIndex(c, i);
-        }
-
         for (NodeID n : isolating_block) {
             G->setPartitionIndex(n, term0);
         }
 
+        graph_contraction::setTerminalBlocks(problem, original_terminals);
+
         problem->upper_bound = flow + problem->deleted_weight;
     }
 
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index c856bce..993260d 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -216,9 +216,21 @@ class problem_management {
     std::optional<FlowType> processNewProblem(
         problemPointer new_p, size_t thread_id) {
         size_t numTerminals = new_p->terminals.size();
-        if (numTerminals < 2 && runLocalSearch(new_p)) {
-            auto sol = msm.getSolution(new_p);
-            return findBestSolution(&sol, numTerminals);
+        if (numTerminals < 2) {
+            // everything that is still connected belongs to the last terminal
+            new_p->upper_bound = new_p->deleted_weight;
+            if (numTerminals == 1) {
+                for (NodeID n : new_p->graph->nodes()) {
+                    new_p->graph->setPartitionIndex(
+                        n, new_p->terminals[0].original_id);
+                }
+            }
+            graph_contraction::setTerminalBlocks(new_p, original_terminals);
+            if (runLocalSearch(new_p)) {
+                auto sol = msm.getSolution(new_p);
+                return findBestSolution(&sol, numTerminals);
+            }
+            return std::nullopt;
         }
 
         if (numTerminals == 2) {
-- 
2.43.0


From 72a69f30c408816e3da2c04cfff0337cd78a7d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 27/60] fix: multiterminal cut: search for a flow source takes
 as many tries as the largest degree

With large edge weights and no suitable vertex the loop does not end in
reasonable time, and when it gave up, the source could be a terminal.
---
 lib/algorithms/multicut/maximum_flow.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index 16e840c..f290d07 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -113,16 +113,22 @@ class maximum_flow {
         for (size_t i = 0; i < configuration::getConfig()->random_flows; ++i) {
             NodeID r = random_functions::nextInt(0, problem->graph->n() - 1);
             EdgeWeight max = problem->graph->getMaxDegree();
+            // number of tries must not depend on the edge weights
+            size_t max_tries = std::min<EdgeWeight>(max, problem->graph->n());
+            EdgeWeight step = max / std::max<size_t>(max_tries, 1);
             size_t num_tries = 0;
             while (((max >= (problem->graph->getWeightedNodeDegree(r)
-                             + num_tries++))
+                             + step * num_tries++))
                     || uf.Find(r) != r
                     || previous.count(r) > 0
                     || !active[r])
-                   && num_tries < max) {
+                   && num_tries < max_tries) {
                 r = random_functions::nextInt(0, problem->graph->n() - 1);
             }
 
+            if (uf.Find(r) != r || previous.count(r) > 0)
+                continue;
+
             previous.insert(r);
             std::vector<NodeID> terms;
             for (const auto& t : problem->terminals) {
@@ -154,7 +160,7 @@ class maximum_flow {
             NodeID last = hdv.size() - 1;
             NodeID idx = random_functions::nextInt(last * hd_factor, last);
             NodeID r = hdv[idx];
-            if (uf.Find(r) != r) {
+            if (uf.Find(r) != r || previous.count(r) > 0) {
                 continue;
             }
 
-- 
2.43.0


From 37b5a7e63d9a6fcfb08e4953b1f692a40ee3f813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 28/60] fix: multiterminal cut: terminal contracted into its
 neighbour

A terminal of degree three that loses a neighbour of degree one was
treated like any other vertex and merged with its larger neighbour.
---
 lib/algorithms/multicut/kernelization_criteria.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 50c16a1..63c0390 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -186,7 +186,8 @@ class kernelization_criteria {
             if (graph->getUnweightedNodeDegree(n) == 1) {
                 NodeID tgt = graph->getEdgeTarget(n, 0);
                 uf.Union(n, tgt);
-                if (graph->getUnweightedNodeDegree(tgt) == 3) {
+                if (!terminals[tgt]
+                    && graph->getUnweightedNodeDegree(tgt) == 3) {
                     // this will become a degree 2 vertex
                     // so we run the degree 2 contraction
                     EdgeID reverse = graph->getReverseEdge(n, 0);
-- 
2.43.0


From f475d9f632b19ff8a0a4ba03ef1add7910120647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 29/60] fix: multiterminal cut: connectivity test merges
 terminals

If two terminals are too well connected for any better solution, the
problem is done; contracting them made an assignment in which they share a
block, which ended the program.
---
 lib/algorithms/multicut/branch_multicut.h        |  2 ++
 lib/algorithms/multicut/kernelization_criteria.h | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index c180297..59d0117 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -359,6 +359,8 @@ class branch_multicut {
         }
         graph_contraction::setTerminals(problem, original_terminals);
         nonBranchingContraction(problem);
+        if (!pm.checkProblem(problem))
+            return;
         if (outOfMemory())
             return;
 
diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 63c0390..8f4e2ed 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -84,6 +84,12 @@ class kernelization_criteria {
                                    - problem->deleted_weight
                                    - tlx::div_ceil(contr_flow, 4);
             auto uf_noi = noi.modified_capforest(problem->graph, noi_limit);
+            if (mergesTerminals(&uf_noi, problem)) {
+                // all solutions of this problem cut at least as much as the
+                // best one known
+                problem->lower_bound = global_upper_bound;
+                return std::nullopt;
+            }
             contractIfImproved(&uf_noi, problem, "noi", &active_n);
 
             find_articulation_points find_aps(problem->graph);
@@ -109,6 +115,15 @@ class kernelization_criteria {
     }
 
  private:
+    bool mergesTerminals(union_find* uf, problemPointer problem) {
+        std::unordered_set<NodeID> found;
+        for (const auto& t : problem->terminals) {
+            if (!found.insert(uf->Find(t.position)).second)
+                return true;
+        }
+        return false;
+    }
+
     void contractIfImproved(union_find* uf,
                             problemPointer problem,
                             const std::string& str,
-- 
2.43.0


From c583ce3833d8251ff5f3063c98bb07e159dcd6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 30/60] fix: multiterminal cut: heavy triangles contracted
 although their vertices belong to three blocks

The test is only right if the vertices of the triangle are in at most two
blocks. Triangle of weight 10 with a terminal of weight 19 at each vertex:
38 instead of 30. A contracted vertex does not have its old neighborhood
anymore, so it can not be used for another triangle in the same round.
---
 .../multicut/kernelization_criteria.h         | 49 ++++++++++++++++---
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 8f4e2ed..c1a2201 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -294,6 +294,17 @@ class kernelization_criteria {
         return uf;
     }
 
+    // edge between two vertices in a triangle, with each vertex and the third
+    // vertex in a block of its own: can we move one vertex to the other one or
+    // both to the third one without increasing the weight of the multicut?
+    static bool heavyInThreeBlocks(EdgeWeight degree_a, EdgeWeight degree_b,
+                                   EdgeWeight edge, EdgeWeight edge_a,
+                                   EdgeWeight edge_b) {
+        return degree_a <= 2 * edge + edge_a
+               || degree_b <= 2 * edge + edge_b
+               || degree_a + degree_b <= 3 * edge + 2 * (edge_a + edge_b);
+    }
+
     union_find triangleDetection(problemPointer problem,
                                  const std::vector<bool>& active) {
         auto graph = problem->graph;
@@ -364,24 +375,48 @@ class kernelization_criteria {
                                     bool heavy_v1 =
                                         ((weight_v1 <=
                                           (weight_e1 + weight_e3) * 2)
-                                         && (uf.Find(v1) == v1));
+                                         && !done[v1]);
                                     bool heavy_v2 =
                                         ((weight_v2 <=
                                           (weight_e1 + weight_e2) * 2)
-                                         && (uf.Find(v2) == v2));
+                                         && !done[v2]);
                                     bool heavy_v3 =
                                         ((weight_v3 <=
                                           (weight_e2 + weight_e3) * 2)
-                                         && (uf.Find(v3) == v3));
-
-                                    if (heavy_v1 && heavy_v2)
+                                         && !done[v3]);
+
+                                    // the vertices of the triangle can be in
+                                    // three blocks, so the edge has to be
+                                    // heavy enough on its own, too
+                                    bool edge_v1_v2 = heavy_v1 && heavy_v2
+                                        && heavyInThreeBlocks(
+                                            weight_v1, weight_v2, weight_e1,
+                                            weight_e3, weight_e2);
+                                    bool edge_v1_v3 = heavy_v1 && heavy_v3
+                                        && heavyInThreeBlocks(
+                                            weight_v1, weight_v3, weight_e3,
+                                            weight_e1, weight_e2);
+                                    bool edge_v2_v3 = heavy_v2 && heavy_v3
+                                        && heavyInThreeBlocks(
+                                            weight_v2, weight_v3, weight_e2,
+                                            weight_e1, weight_e3);
+
+                                    // a vertex that is contracted does not
+                                    // have this neighborhood anymore
+                                    if (edge_v1_v2) {
                                         uf.Union(v1, v2);
+                                        done[v1] = done[v2] = true;
+                                    }
 
-                                    if (heavy_v1 && heavy_v3)
+                                    if (edge_v1_v3) {
                                         uf.Union(v1, v3);
+                                        done[v1] = done[v3] = true;
+                                    }
 
-                                    if (heavy_v2 && heavy_v3)
+                                    if (edge_v2_v3) {
                                         uf.Union(v2, v3);
+                                        done[v2] = done[v3] = true;
+                                    }
                                 } else {
                                     LOG1 << "Graph corrupted!";
                                     exit(1);
-- 
2.43.0


From 8d36d1b7407b330f06167697a8c3de567aa9cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 31/60] fix: multiterminal cut: bound and best solution updated
 by several threads at once

With unlucky timing the stored assignment was worse than the bound, and
the returned cut not minimal, even with one worker thread (the main thread
searches locally at the same time).
---
 lib/algorithms/multicut/problem_management.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 993260d..58cec29 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -276,23 +276,27 @@ class problem_management {
         local_search ls(original_graph, original_terminals,
                         fixed_vertex, current_solution);
         FlowType prev_gub = msm.flowValue(false, *current_solution);
-        if (prev_gub > beforeLSGUB[numTerminals])
+        bestsol_mutex.lock();
+        if (prev_gub > beforeLSGUB[numTerminals]) {
+            bestsol_mutex.unlock();
             return std::nullopt;
+        }
 
+        // bound and solution have to be changed together
         if (prev_gub < global_upper_bound) {
             global_upper_bound = prev_gub;
             LOG1 << "Improvement after " << t.elapsed()
                  << " to " << prev_gub << " (beforehand)";
-            bestsol_mutex.lock();
             for (size_t i = 0; i < current_solution->size(); ++i) {
                 best_solution[i] = (*current_solution)[i];
             }
             initalizeBestSolution();
-            bestsol_mutex.unlock();
         }
+        bestsol_mutex.unlock();
         FlowType total_improvement = ls.improveSolution(t);
         FlowType ls_bound = prev_gub - total_improvement;
 
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
         if (ls_bound <= terminalGUB[numTerminals]) {
             terminalGUB[numTerminals] = ls_bound;
             beforeLSGUB[numTerminals] = prev_gub;
@@ -302,12 +306,10 @@ class problem_management {
             global_upper_bound = ls_bound;
             LOG1 << "Improvement after " << t.elapsed() << " to " << ls_bound;
 
-            bestsol_mutex.lock();
             for (size_t i = 0; i < current_solution->size(); ++i) {
                 best_solution[i] = (*current_solution)[i];
             }
             initalizeBestSolution();
-            bestsol_mutex.unlock();
             return ls_bound;
         }
         return std::nullopt;
@@ -398,6 +400,7 @@ class problem_management {
     }
 
     void updateBound(FlowType newSolution) {
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
         global_upper_bound = std::min(newSolution, global_upper_bound);
     }
 
-- 
2.43.0


From 1426e5ab554bb5d612f1e0d9e566dc27c65b091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 32/60] fix: multiterminal cut: inexact branching without a
 connected terminal left

All terminals can be removed before the requested share is reached; vertex
0 was then treated as a terminal and merged with terminal 0's vertices.
---
 lib/algorithms/multicut/branch_multicut.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 59d0117..7d13367 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -459,6 +459,11 @@ class branch_multicut {
                 }
             }
 
+            if (lightest_weight == static_cast<EdgeWeight>(UNDEFINED_FLOW)) {
+                // no connected terminal left
+                break;
+            }
+
             for (size_t i = 0; i < original_terminals.size(); ++i) {
                 if (i != lightest_oid) {
                     problem->addFinishedPair(
-- 
2.43.0


From 7bc55dc8bbe825807950ec47c08982774659e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 33/60] fix: multiterminal cut: branching on a problem without
 terminals

Reductions or inexact branching can leave edges that no terminal is
connected to; branching then reads an edge that does not exist.
---
 lib/algorithms/multicut/branch_multicut.h    |  6 ++++--
 lib/algorithms/multicut/graph_contraction.h  | 12 ++++++++++++
 lib/algorithms/multicut/problem_management.h |  9 ++-------
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 7d13367..874611e 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -551,10 +551,12 @@ class branch_multicut {
         }
 
         graph_contraction::deleteTermEdges(problem, original_terminals);
-        if (!problem->graph->number_of_edges()) {
+        if (!problem->graph->number_of_edges()
+            || problem->terminals.size() < 2) {
             problem->upper_bound = problem->deleted_weight;
             // contractions do not keep the block of a terminal
-            graph_contraction::setTerminalBlocks(problem, original_terminals);
+            graph_contraction::setBlocksOfFinishedProblem(
+                problem, original_terminals);
             auto sol = msm.getSolution(problem);
             updateBestSolution(&sol, problem->terminals.size());
             return;
diff --git a/lib/algorithms/multicut/graph_contraction.h b/lib/algorithms/multicut/graph_contraction.h
index 4a421c6..24f7143 100644
--- a/lib/algorithms/multicut/graph_contraction.h
+++ b/lib/algorithms/multicut/graph_contraction.h
@@ -119,6 +119,18 @@ class graph_contraction {
         }
     }
 
+    // blocks of a problem with at most one connected terminal
+    static void setBlocksOfFinishedProblem(
+        problemPointer problem,
+        const std::vector<NodeID>& original_terminals) {
+        NodeID block = problem->terminals.empty() ?
+                       0 : problem->terminals[0].original_id;
+        for (NodeID n : problem->graph->nodes()) {
+            problem->graph->setPartitionIndex(n, block);
+        }
+        setTerminalBlocks(problem, original_terminals);
+    }
+
     static void setTerminals(problemPointer problem,
                              const std::vector<NodeID>& original_terminals) {
         std::unordered_map<NodeID, bool> invalid_flows;
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 58cec29..313346a 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -219,13 +219,8 @@ class problem_management {
         if (numTerminals < 2) {
             // everything that is still connected belongs to the last terminal
             new_p->upper_bound = new_p->deleted_weight;
-            if (numTerminals == 1) {
-                for (NodeID n : new_p->graph->nodes()) {
-                    new_p->graph->setPartitionIndex(
-                        n, new_p->terminals[0].original_id);
-                }
-            }
-            graph_contraction::setTerminalBlocks(new_p, original_terminals);
+            graph_contraction::setBlocksOfFinishedProblem(
+                new_p, original_terminals);
             if (runLocalSearch(new_p)) {
                 auto sol = msm.getSolution(new_p);
                 return findBestSolution(&sol, numTerminals);
-- 
2.43.0


From 0b707052253eff915a51dd4237731a9c2ea082fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 34/60] fix: multiterminal cut: queue loses a problem if two
 threads fill the send slot

addProblem tested for a free send slot before it held the lock of the slot,
so that two threads that added problems to different queues could both fill
it, and the first problem was lost. The mutex of the slot was also unlocked
twice after an exchange.
---
 .../problem_queues/per_thread_problem_queue.h | 26 ++++++-------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index 617657e..24d0322 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -160,37 +160,27 @@ class per_thread_problem_queue {
         }
 
         pop_mutex[min_index].lock();
+        send_problem_mutex.lock();
 
         if (!haveSendProblem) {
-            send_problem_mutex.lock();
-
             sendProblem = p;
             sendProblemWeight = sendProblem->lower_bound;
             haveSendProblem = true;
-            pop_mutex[min_index].unlock();
             send_problem_mutex.unlock();
+            pop_mutex[min_index].unlock();
             return local_id;
         }
 
         sizes[min_index].first += 1;
 
-        bool movedProblem = false;
         if (sendProblemWeight > p->lower_bound) {
-            send_problem_mutex.lock();
-            if (haveSendProblem) {
-                problemPointer mcp = sendProblem;
-                pq[min_index].push(mcp);
-                sendProblem = p;
-                sendProblemWeight = sendProblem->lower_bound;
-                movedProblem = true;
-                send_problem_mutex.unlock();
-            }
-            send_problem_mutex.unlock();
-        }
-
-        if (!movedProblem) {
+            pq[min_index].push(sendProblem);
+            sendProblem = p;
+            sendProblemWeight = sendProblem->lower_bound;
+        } else {
             pq[min_index].push(p);
         }
+        send_problem_mutex.unlock();
         pop_mutex[min_index].unlock();
         return min_index;
     }
@@ -287,7 +277,7 @@ class per_thread_problem_queue {
                                              const problemPointer&)> > > pq;
 
     problemPointer sendProblem;
-    bool haveSendProblem;
+    std::atomic<bool> haveSendProblem;
     FlowType sendProblemWeight;
 
     std::vector<std::mutex> pop_mutex;
-- 
2.43.0


From f81a6fdcbe320d3493ae402d489ed755fff51d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 35/60] fix: multiterminal cut: threads stop while a problem is
 still being solved

All threads idle and all queues empty were tested one after the other: a
thread that woke up in between and took the last problem was not noticed,
and the problems its solution led to were never solved. Count the problems
that are not solved yet instead.
---
 lib/algorithms/multicut/branch_multicut.h          |  3 ++-
 lib/algorithms/multicut/problem_management.h       |  8 ++++++++
 .../problem_queues/per_thread_problem_queue.h      | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 874611e..f7fa1a3 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -212,13 +212,14 @@ class branch_multicut {
                 } else {
                     solveProblem(problem.value(), thread_id);
                 }
+                pm.problemSolved();
             } else {
                 if (!im_idle) {
                     pm.incrementIdleThreads();
                     im_idle = true;
                 }
 
-                if (pm.allThreadsIdle() && pm.allEmpty()) {
+                if (pm.allSolved()) {
                     if (mpi_mutex.try_lock()) {
                         auto src = mpic.waitForProblem();
                         if (std::holds_alternative<int>(src)) {
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 313346a..5766708 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -364,6 +364,14 @@ class problem_management {
         return problems.all_empty();
     }
 
+    void problemSolved() {
+        problems.problemSolved();
+    }
+
+    bool allSolved() {
+        return problems.allSolved();
+    }
+
     bool queueEmpty(size_t thread_id) {
         return problems.empty(thread_id);
     }
diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index 24d0322..8c53e89 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -29,6 +29,7 @@ class per_thread_problem_queue {
     per_thread_problem_queue(size_t threads, std::string pq_type)
         : num_threads(threads),
           haveSendProblem(false),
+          unsolved(0),
           sendProblemWeight(UNDEFINED_FLOW),
           pop_mutex(threads),
           sizes(threads) {
@@ -88,6 +89,7 @@ class per_thread_problem_queue {
                 pq[local_id].pop();
                 sizes[local_id].first -= 1;
                 sizes[local_id].second = true;
+                --unsolved;
             } else {
                 break;
             }
@@ -132,7 +134,18 @@ class per_thread_problem_queue {
         return currentProblem;
     }
 
+    // a pulled problem counts as unsolved until it is solved or sent away, so
+    // that nobody stops while it can still lead to new problems
+    void problemSolved() {
+        --unsolved;
+    }
+
+    bool allSolved() {
+        return unsolved == 0;
+    }
+
     size_t addProblem(problemPointer p, size_t local_id, bool preferLocal) {
+        ++unsolved;
         if (sizes[local_id].second) {
             sizes[local_id].second = false;
         }
@@ -278,6 +291,7 @@ class per_thread_problem_queue {
 
     problemPointer sendProblem;
     std::atomic<bool> haveSendProblem;
+    std::atomic<size_t> unsolved;
     FlowType sendProblemWeight;
 
     std::vector<std::mutex> pop_mutex;
-- 
2.43.0


From 25dc679e77ce95900fd6864f14e866dc03b694f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:55 +0000
Subject: [PATCH 36/60] fix: parallel union_find: unions are lost, undone or
 form a cycle under contention

Parent and rank of a root were changed by two compare-and-swap operations: a
root could be linked although its rank had changed, so that two roots were
linked to each other; a link was undone if the rank changed, which unions and
queries of other threads had already seen; and a child took over the rank of
its parent, after which it could become the parent of its own root. Keep both
in one word, as in the algorithm of Anderson and Woll.
---
 lib/parallel/data_structure/union_find.h | 60 ++++++++++++++----------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/lib/parallel/data_structure/union_find.h b/lib/parallel/data_structure/union_find.h
index 71080ae..4e47111 100644
--- a/lib/parallel/data_structure/union_find.h
+++ b/lib/parallel/data_structure/union_find.h
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
 #include <utility>
 #include <vector>
 
@@ -22,10 +23,9 @@
 // This is sometimes also caled "disjoint sets datastructure.
 class union_find {
  public:
-    explicit union_find(unsigned n) : m_parent(n), m_rank(n) {
-        for (unsigned i = 0; i < m_parent.size(); i++) {
-            m_parent[i] = i;
-            m_rank[i] = 0;
+    explicit union_find(unsigned n) : m_node(n) {
+        for (unsigned i = 0; i < m_node.size(); i++) {
+            m_node[i] = node(i, 0);
         }
     }
 
@@ -42,15 +42,15 @@ class union_find {
                 return false;
             }
 
-            r_lhs = m_rank[lhs];
-            r_rhs = m_rank[rhs];
+            r_lhs = rank(m_node[lhs]);
+            r_rhs = rank(m_node[rhs]);
 
             if (r_lhs > r_rhs || (r_lhs == r_rhs && lhs > rhs)) {
                 std::swap(lhs, rhs);
                 std::swap(r_lhs, r_rhs);
             }
 
-            if (UpdateRoot(lhs, r_lhs, rhs, r_rhs))
+            if (UpdateRoot(lhs, r_lhs, rhs, r_lhs))
                 break;
         }
 
@@ -67,27 +67,29 @@ class union_find {
             y = Find(y);
             if (x == y)
                 return true;
-            if (m_parent[x] == x) {
+            if (parent(m_node[x]) == x) {
                 return false;
             }
         }
     }
 
     inline unsigned Find(unsigned element) {
-        while (m_parent[element] != element) {
-            unsigned next = m_parent[element];
+        while (parent(m_node[element]) != element) {
+            uint64_t old = m_node[element];
+            unsigned next = parent(old);
             // CAS path halving
-            __sync_bool_compare_and_swap(&m_parent[element], next,
-                                         m_parent[next]);
-            element = m_parent[next];
+            __sync_bool_compare_and_swap(
+                &m_node[element], old,
+                node(parent(m_node[next]), rank(old)));
+            element = parent(m_node[next]);
         }
         return element;
     }
 
     inline unsigned n() {
-        std::vector<bool> found(m_parent.size(), false);
+        std::vector<bool> found(m_node.size(), false);
         unsigned n = 0;
-        for (auto& e : m_parent) {
+        for (unsigned e = 0; e < m_node.size(); ++e) {
             if (!found[Find(e)]) {
                 ++n;
                 found[Find(e)] = true;
@@ -98,21 +100,27 @@ class union_find {
 
  private:
     inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
-        unsigned old = x;
-        if (m_parent[old] != x || m_rank[old] != xr) {
+        uint64_t old = m_node[x];
+        if (parent(old) != x || rank(old) != xr) {
             return false;
         }
 
-        if (__sync_bool_compare_and_swap(&m_parent[x], old, y)) {
-            if (__sync_bool_compare_and_swap(&m_rank[x], m_rank[old], yr)) {
-                return true;
-            }
+        return __sync_bool_compare_and_swap(&m_node[x], old, node(y, yr));
+    }
 
-            __sync_bool_compare_and_swap(&m_parent[x], y, old);
-        }
-        return false;
+    // parent and rank of an element share a word: a root can only be linked
+    // while its rank is the one that the order of the roots was decided by
+    static inline uint64_t node(unsigned parent, unsigned rank) {
+        return (static_cast<uint64_t>(rank) << 32) | parent;
+    }
+
+    static inline unsigned parent(uint64_t node) {
+        return static_cast<unsigned>(node);
+    }
+
+    static inline unsigned rank(uint64_t node) {
+        return static_cast<unsigned>(node >> 32);
     }
 
-    std::vector<unsigned> m_parent;
-    std::vector<unsigned> m_rank;
+    std::vector<uint64_t> m_node;
 };
-- 
2.43.0


From c91984bfabebdbf9ed65b441f1bafbd6638bf784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:21 +0000
Subject: [PATCH 37/60] fix: mutable_graph: contraction reads the vertex it
 removed

If the target of a contraction is the last vertex, no vertex is moved to its
place, but the edges of the removed vertex were read to remap them.
---
 lib/data_structure/mutable_graph.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 765c3d8..4a0b36b 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -507,9 +507,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (there is none if 'target' was the last vertex)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -557,9 +560,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (there is none if 'target' was the last vertex)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -646,9 +652,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (there is none if 'target' was the last vertex)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         // delete edge of 'node' to 'target', remap reverse
-- 
2.43.0


From 8fc73ffe79e5c6674925e2eb1e996ce9c7d8c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:56 +0000
Subject: [PATCH 38/60] fix: parallel minimum cut: cut edges are contracted if
 a vertex is visited meanwhile

The bound of a vertex was raised, but the vertex was not put into the queue (or
moved in it) if another thread visited it in between. The thread then went on
with vertices of lower bound, and contracted edges to the vertex based on a
bound that no scan order justifies.
---
 lib/parallel/algorithm/exact_parallel_minimum_cut.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/parallel/algorithm/exact_parallel_minimum_cut.h b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
index 128d0c9..110cea8 100644
--- a/lib/parallel/algorithm/exact_parallel_minimum_cut.h
+++ b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
@@ -225,12 +225,10 @@ class exact_parallel_minimum_cut : public minimum_cut {
                                     std::min(r_v[tgt] + wgt,
                                              mincut);
                                 r_v[tgt] = new_rv;
-                                if (!visited[tgt] && !local_visited[tgt]) {
-                                    if (pq->contains(tgt)) {
-                                        pq->increaseKey(tgt, new_rv);
-                                    } else {
-                                        pq->insert(tgt, new_rv);
-                                    }
+                                if (pq->contains(tgt)) {
+                                    pq->increaseKey(tgt, new_rv);
+                                } else {
+                                    pq->insert(tgt, new_rv);
                                 }
                             }
                         }
-- 
2.43.0


From f751bd63f1b3cd092443f3e2eb8f580ac97d6bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:09 +0000
Subject: [PATCH 39/60] fix: find_bridges: one side of a bridge is contracted
 only in part, sanity check compares with the wrong end

---
 lib/algorithms/misc/find_bridges.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/misc/find_bridges.h b/lib/algorithms/misc/find_bridges.h
index 7fed5e9..946b759 100644
--- a/lib/algorithms/misc/find_bridges.h
+++ b/lib/algorithms/misc/find_bridges.h
@@ -92,12 +92,14 @@ class find_bridges {
                         if (!contracted[tgt]) {
                             uf.Union(v, tgt);
                             contracted[tgt] = true;
+                            q.push(tgt);
                         }
                     }
                 }
 
                 for (auto term : terminals) {
-                    if (contracted[term.position] && term.position != n) {
+                    if (contracted[term.position]
+                        && term.position != ctr_n) {
                         // this can only happen if bridge detection detects
                         // a bridge that is not actually one.
                         for (auto term : terminals) {
-- 
2.43.0


From e501d2b4aa81ff4f4d520027b8490600e0ce7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:21 +0000
Subject: [PATCH 40/60] fix: multiterminal cut: overlapping source sets merge
 vertices that belong to different blocks

---
 lib/algorithms/multicut/maximum_flow.h | 40 ++++++++++++++++++--------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index f290d07..a701015 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -85,13 +85,35 @@ class maximum_flow {
         return order;
     }
 
+    // Source sets of different sources can overlap without one source being in
+    // the set of the other, if there are ties. The shared vertices can then be
+    // with either of them, but merging them with both would merge the sources.
+    void mergeSourceSet(union_find* uf, std::vector<NodeID>* merged_by,
+                        NodeID source, const std::vector<NodeID>& source_set) {
+        if ((*merged_by)[source] != UNDEFINED_NODE)
+            return;
+
+        std::unordered_set<NodeID> in_set(source_set.begin(), source_set.end());
+        for (const auto& s : source_set) {
+            NodeID previous = (*merged_by)[s];
+            if (previous == UNDEFINED_NODE || in_set.count(previous) > 0) {
+                uf->Union(s, source);
+                (*merged_by)[s] = source;
+            }
+        }
+    }
+
     union_find nonTerminalFlow(problemPointer problem,
                                bool parallel,
                                const std::vector<bool>& active) {
         union_find uf(problem->graph->n());
         std::unordered_set<NodeID> previous;
 
+        // source whose set a vertex was merged in
+        std::vector<NodeID> merged_by(problem->graph->n(), UNDEFINED_NODE);
+
         std::vector<std::future<std::vector<NodeID> > > futures;
+        std::vector<NodeID> future_sources;
         std::vector<push_relabel<false, true> > prs(
             configuration::getConfig()->random_flows +
             configuration::getConfig()->high_distance_flows);
@@ -138,6 +160,7 @@ class maximum_flow {
             size_t num_t = terms.size() - 1;
 
             if (parallel) {
+                future_sources.emplace_back(r);
                 futures.emplace_back(
                     std::async(&push_relabel<false, true>::callable_max_flow,
                                &prs[pr_id++],
@@ -147,9 +170,7 @@ class maximum_flow {
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                mergeSourceSet(&uf, &merged_by, r, sourceSet);
             }
         }
 
@@ -174,6 +195,7 @@ class maximum_flow {
             size_t num_t = terms.size() - 1;
 
             if (parallel) {
+                future_sources.emplace_back(r);
                 futures.emplace_back(
                     std::async(&push_relabel<false, true>::callable_max_flow,
                                &prs[pr_id++],
@@ -183,19 +205,13 @@ class maximum_flow {
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                mergeSourceSet(&uf, &merged_by, r, sourceSet);
             }
         }
 
         for (size_t i = 0; i < futures.size(); ++i) {
-            auto& t = futures[i];
-            const auto& vec = t.get();
-            NodeID head = vec[0];
-            for (const auto& n : vec) {
-                uf.Union(n, head);
-            }
+            auto sourceSet = futures[i].get();
+            mergeSourceSet(&uf, &merged_by, future_sources[i], sourceSet);
         }
 
         return uf;
-- 
2.43.0


From c34fb3d9fd76e4152d27786e2fd3b19853ae4f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:40 +0000
Subject: [PATCH 41/60] fix: core_decomposition: extracting a core of a
 weighted graph exits with an error

---
 lib/algorithms/misc/core_decomposition.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/misc/core_decomposition.h b/lib/algorithms/misc/core_decomposition.h
index 2bb0e7f..f70ced6 100644
--- a/lib/algorithms/misc/core_decomposition.h
+++ b/lib/algorithms/misc/core_decomposition.h
@@ -13,6 +13,7 @@
 
 #include <stdlib.h>
 
+#include <algorithm>
 #include <cstdint>
 #include <memory>
 #include <vector>
@@ -134,8 +135,15 @@ class core_decomposition {
 
         core_graph->finish_construction();
 
-        if (core_graph->getMinDegree() != min_degree) {
-            LOG1 << "ERROR: Wrong min degree " << core_graph->getMinDegree()
+        // core numbers do not depend on edge weights
+        size_t core_degree = core_graph->number_of_nodes();
+        for (NodeID n : core_graph->nodes()) {
+            core_degree = std::min<size_t>(
+                core_degree, core_graph->getUnweightedNodeDegree(n));
+        }
+
+        if (core_degree != min_degree) {
+            LOG1 << "ERROR: Wrong min degree " << core_degree
                  << " instead of " << min_degree;
             exit(1);
         }
-- 
2.43.0


From 7b5d8a444f93640cd16923937f9e187760031f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:40 +0000
Subject: [PATCH 42/60] fix: strongly_connected_components: block sizes of an
 earlier call are returned

---
 lib/algorithms/misc/strongly_connected_components.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/algorithms/misc/strongly_connected_components.h b/lib/algorithms/misc/strongly_connected_components.h
index 39d7096..ba3b3b1 100644
--- a/lib/algorithms/misc/strongly_connected_components.h
+++ b/lib/algorithms/misc/strongly_connected_components.h
@@ -37,6 +37,7 @@ class strongly_connected_components {
         m_dfscount = 0;
         m_comp_count = 0;
         m_fpid = fpid;
+        m_blocksizes.clear();
 
         for (NodeID node : G->nodes()) {
             m_comp_num[node] = -1;
-- 
2.43.0


From 6164dbc966aeeafa710f3768719ba0824edfddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:25 +0000
Subject: [PATCH 43/60] fix: top_k_degrees: reads before the first vertex if k
 exceeds the number of vertices

---
 lib/algorithms/misc/graph_algorithms.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/algorithms/misc/graph_algorithms.h b/lib/algorithms/misc/graph_algorithms.h
index c211437..eb6ed89 100644
--- a/lib/algorithms/misc/graph_algorithms.h
+++ b/lib/algorithms/misc/graph_algorithms.h
@@ -11,6 +11,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <memory>
 #include <queue>
 #include <tuple>
@@ -214,6 +215,7 @@ class graph_algorithms {
  private:
     static std::vector<NodeID> find_top_k(
         std::vector<std::pair<NodeID, EdgeWeight> > in, size_t k) {
+        k = std::min(k, in.size());
         std::nth_element(in.begin(), in.end() - k, in.end(),
                          [](auto a1, auto a2) {
                              return a1.second < a2.second;
-- 
2.43.0


From 69f41ffa75cf949007cbbb7d61e7819bf8cc94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:40 +0000
Subject: [PATCH 44/60] fix: graph_io: weight of a self-loop is read as a
 neighbor

---
 lib/io/graph_io.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index a156fee..5473050 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -191,6 +191,12 @@ class graph_io {
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
+
+                EdgeWeight edge_weight = 1;
+                if (read_ew) {
+                    edge_weight = fast_atoi(line, &line_ptr);
+                }
+
                 // check for self-loops
                 if (target - 1 == node) {
                     LOG0 << "The graph file contains self-loops. "
@@ -199,10 +205,6 @@ class graph_io {
                     continue;
                 }
 
-                EdgeWeight edge_weight = 1;
-                if (read_ew) {
-                    edge_weight = fast_atoi(line, &line_ptr);
-                }
                 edge_counter++;
                 G->new_edge(node, target - 1, edge_weight);
             }
-- 
2.43.0


From b20fa4375080d2b1b13cc8920a77e21463c4384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:40 +0000
Subject: [PATCH 45/60] fix: graph_io: edges after more than one blank are
 dropped

---
 lib/io/graph_io.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 5473050..97605ee 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -185,16 +185,17 @@ class graph_io {
             size_t line_ptr = 0;
 
             // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
+            skip_blanks(line, &line_ptr);
 
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
+                skip_blanks(line, &line_ptr);
 
                 EdgeWeight edge_weight = 1;
                 if (read_ew) {
                     edge_weight = fast_atoi(line, &line_ptr);
+                    skip_blanks(line, &line_ptr);
                 }
 
                 // check for self-loops
@@ -371,6 +372,12 @@ class graph_io {
     }
 
  private:
+    static void skip_blanks(const std::string& str, size_t* line_ptr) {
+        while (*line_ptr < str.size()
+               && (str[*line_ptr] == ' ' || str[*line_ptr] == '\t'))
+            ++(*line_ptr);
+    }
+
 // orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
     static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
         uint64_t x = 0;
-- 
2.43.0


From fae470318bbc726ecadbe057d7660918ba07fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:40 +0000
Subject: [PATCH 46/60] fix: graph_io: vertex weights are read as neighbors

---
 lib/io/graph_io.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 97605ee..5354d9e 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -159,13 +159,17 @@ class graph_io {
         ss >> nmbEdges;
         ss >> ew;
 
-        bool read_ew = false;
-
-        if (ew == 1) {
-            read_ew = true;
-        } else if (ew == 11) {
-            read_ew = true;
+        bool read_ew = (ew % 10 == 1);
+        // vertex sizes and weights precede the edges and are not used
+        size_t skip_values = 0;
+        if (ew / 10 % 10 == 1) {
+            size_t num_weights = 1;
+            if (size_t ncon; ss >> ncon)
+                num_weights = ncon;
+            skip_values += num_weights;
         }
+        if (ew / 100 % 10 == 1)
+            skip_values++;
         nmbEdges *= 2;  // since we have forward and backward edges
 
         NodeID node_counter = 0;
@@ -187,6 +191,11 @@ class graph_io {
             // remove leading whitespaces
             skip_blanks(line, &line_ptr);
 
+            for (size_t i = 0; i < skip_values; ++i) {
+                fast_atoi(line, &line_ptr);
+                skip_blanks(line, &line_ptr);
+            }
+
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
-- 
2.43.0


From 69ac4c84c7f6c6c4d3e6c05bdba474aa1a8f3e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:40 +0000
Subject: [PATCH 47/60] fix: graph_io: readVector does not end on a comment and
 drops a last line without newline

---
 lib/io/graph_io.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 5354d9e..f515f38 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -356,15 +356,13 @@ class graph_io {
             exit(5);
         }
 
-        std::getline(instream, line);
-        while (!instream.eof()) {
+        while (std::getline(instream, line)) {
             if (line[0] == '%') {         // Comment
                 continue;
             }
 
             vectortype value = (vectortype)atof(line.c_str());
             vec.emplace_back(value);
-            std::getline(instream, line);
         }
 
         instream.close();
-- 
2.43.0


From 5f403d97f050eb9cfcbc4c51732bdabfc92a761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:54 +0000
Subject: [PATCH 48/60] fix: graph_io: events of the same time are applied in
 another order than in the file

std::sort does not keep the order of elements that compare equal: in a list
with more than 16 events, an edge that is inserted and deleted at the same
time can be deleted before it is inserted.
---
 lib/io/graph_io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index f515f38..7f23d53 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -125,7 +125,7 @@ class graph_io {
             }
         }
 
-        std::sort(edges.begin(), edges.end(),
+        std::stable_sort(edges.begin(), edges.end(),
                   [](const auto& e1, const auto& e2) {
                       return std::get<3>(e1) < std::get<3>(e2);
                   });
-- 
2.43.0


From bfff6378fe39c2bdab2b668e9a79f3692c49b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 49/60] fix: largest_cc: output is written to the wrong place
 if the path has a dot in a directory

The path was cut at its first dot: ./graph.metis became ".cc" and
../data.v2/graph became "../data.cc" or even ".cc".
---
 app/largest_cc.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/app/largest_cc.cpp b/app/largest_cc.cpp
index 11697f3..d6fb1c1 100644
--- a/app/largest_cc.cpp
+++ b/app/largest_cc.cpp
@@ -21,7 +21,6 @@
 #include "io/graph_io.h"
 #include "tlx/cmdline_parser.hpp"
 #include "tlx/logger.hpp"
-#include "tlx/string/split.hpp"
 
 int main(int argn, char** argv) {
     static constexpr bool debug = false;
@@ -44,9 +43,13 @@ int main(int argn, char** argv) {
     strongly_connected_components scc;
 
     auto out = scc.largest_scc(G);
+
+    // only the file name has an extension, not the directories it is in
+    size_t name_start = path.find_last_of('/') + 1;
+    std::string out_path = path.substr(0, path.find('.', name_start)) + ".cc";
     if (weighted) {
-        graph_io::writeGraphWeighted(out, tlx::split(".", path)[0] + ".cc");
+        graph_io::writeGraphWeighted(out, out_path);
     } else {
-        graph_io::writeGraph(out, tlx::split(".", path)[0] + ".cc");
+        graph_io::writeGraph(out, out_path);
     }
 }
-- 
2.43.0


From 6d4c4f78e244d9aad453a17523b91ac7898a84b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 50/60] fix: mincut_contract: parameter graph is asked for
 twice

The program can only be started with the name of the graph given before and
after the name of the algorithm.
---
 app/mincut_contract.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 1b118ec..56ff802 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -58,8 +58,6 @@ int main(int argn, char** argv) {
                           "algorithm name ('vc', 'noi', 'matula', 'pr', 'ks')");
 #endif
 
-    cmdl.add_param_string("graph", configuration::getConfig()->graph_filename,
-                          "path to graph file");
     cmdl.add_string('q', "pq", configuration::getConfig()->pq,
                     "name of priority queue implementation");
     cmdl.add_int('i', "iter", iter, "number of iterations");
-- 
2.43.0


From d4128179d7aa31337d55cf452033653013c4740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 51/60] fix: mincut_contract: option -c has no effect

The factor was read into a variable that the contraction does not use (and
that was printed uninitialised without the option).
---
 app/mincut_contract.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 56ff802..6d0fc72 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -43,7 +43,8 @@ int main(int argn, char** argv) {
     tlx::CmdlineParser cmdl;
 
     int iter = 1;
-    double contraction_factor;
+    double& contraction_factor =
+        configuration::getConfig()->contraction_factor;
 
     cmdl.add_param_string("graph", configuration::getConfig()->graph_filename,
                           "path to graph file");
-- 
2.43.0


From d560bcedc62bf5812871bdddebebe03ff9ee4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 52/60] fix: mincut_contract: saved cut is not the one that was
 found

The cut of the contracted graph was never transferred to the input graph, so
that all vertices were on the same side in the file.
---
 app/mincut_contract.cpp            | 4 ++++
 lib/parallel/coarsening/sparsify.h | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 6d0fc72..7e561f8 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -121,6 +121,10 @@ int main(int argn, char** argv) {
             EdgeWeight cut = mc->perform_minimum_cut(G2);
 
             if (configuration::getConfig()->save_cut) {
+                for (NodeID n : G->nodes()) {
+                    G->setNodeInCut(n, G2->getNodeInCut(
+                                        G->getPartitionIndex(n)));
+                }
                 graph_io::writeCut(G,
                                    configuration::getConfig()->graph_filename
                                    + ".cut");
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 124226c..22cd9d0 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -271,6 +271,9 @@ class sparsify {
 
         auto [map, rev_map] = createMappings(G_in, &uf);
         std::vector<std::vector<NodeID> > rm(rev_map);
+        for (NodeID n : G_in->nodes()) {
+            G_in->setPartitionIndex(n, map[n]);
+        }
 
         graphAccessPtr G2 =
             contraction::contractGraph(G_in, map, rm);
-- 
2.43.0


From f693c1af5a3c5088e566fac14fb72e56b7870361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 53/60] fix: sparsify: removing heavy vertices drops the edge
 weights

---
 lib/coarsening/sparsify.h          | 3 ++-
 lib/parallel/coarsening/sparsify.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/coarsening/sparsify.h b/lib/coarsening/sparsify.h
index ca6af7f..600eb8c 100644
--- a/lib/coarsening/sparsify.h
+++ b/lib/coarsening/sparsify.h
@@ -204,7 +204,8 @@ class sparsify {
                     NodeID target = G_in->getEdgeTarget(e);
                     size_t pretgt = prefixsum[target];
                     if (prefixsum[target] < G_in->number_of_nodes()) {
-                        G_out->new_edge(pre, pretgt);
+                        EdgeID new_e = G_out->new_edge(pre, pretgt);
+                        G_out->setEdgeWeight(new_e, G_in->getEdgeWeight(e));
                         actually_edges++;
                     }
                 }
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 22cd9d0..8a04d49 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -449,7 +449,8 @@ class sparsify {
                     NodeID target = G_in->getEdgeTarget(e);
                     size_t pretgt = prefixsum[target];
                     if (prefixsum[target] < G_in->number_of_nodes()) {
-                        G_out->new_edge(pre, pretgt);
+                        EdgeID new_e = G_out->new_edge(pre, pretgt);
+                        G_out->setEdgeWeight(new_e, G_in->getEdgeWeight(e));
                         actually_edges++;
                     }
                 }
-- 
2.43.0


From 4fa57cea34e1178624e6bcc1e770753c826b0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 54/60] fix: mincut_heavy: reports a cut of weight 0 unless the
 cut is saved

The reported value is computed from the side of every vertex, which the
algorithms only set if the cut is to be saved.
---
 app/mincut_heavy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/mincut_heavy.cpp b/app/mincut_heavy.cpp
index e506635..0f79db3 100644
--- a/app/mincut_heavy.cpp
+++ b/app/mincut_heavy.cpp
@@ -69,6 +69,10 @@ int main(int argn, char** argv) {
     if (!cmdl.process(argn, argv))
         return -1;
 
+    // the cut is extended to the removed vertices, so it is always needed
+    bool write_cut = configuration::getConfig()->save_cut;
+    configuration::getConfig()->save_cut = true;
+
     std::vector<int> numthreads;
 
     timer t;
@@ -155,7 +159,7 @@ int main(int argn, char** argv) {
 
             quality_metrics qm;
 
-            if (configuration::getConfig()->save_cut) {
+            if (write_cut) {
                 graph_io::writeCut(
                     G, configuration::getConfig()->graph_filename + ".cut");
             }
-- 
2.43.0


From 7ec28b70b817e0ce2a57d516a1a7f52bdb703a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 55/60] fix: mincut_heavy: number of threads is set after the
 algorithm has run

---
 app/mincut_heavy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/mincut_heavy.cpp b/app/mincut_heavy.cpp
index 0f79db3..11f7291 100644
--- a/app/mincut_heavy.cpp
+++ b/app/mincut_heavy.cpp
@@ -112,8 +112,8 @@ int main(int argn, char** argv) {
             t.restart();
             minimum_cut* mc = selectMincutAlgorithm<graphAccessPtr>(
                 configuration::getConfig()->algorithm);
-            mc->perform_minimum_cut(G2);
             omp_set_num_threads(numthread);
+            mc->perform_minimum_cut(G2);
 
             for (NodeID n : G->nodes()) {
                 if (indices[n] < G->number_of_nodes()) {
-- 
2.43.0


From 9ebd31d2310a8ec12c63c348cae4e225a39b9507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:48 +0000
Subject: [PATCH 56/60] fix: mincut_contract: sampling reads past the edges
 with more than one thread

The samplers divide the edges by the number of threads in the configuration,
which the program left at 1.
---
 app/mincut_contract.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 7e561f8..e1c3ad6 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -114,6 +114,7 @@ int main(int argn, char** argv) {
                 configuration::getConfig()->algorithm);
             t.restart();
             omp_set_num_threads(numthread);
+            configuration::getConfig()->threads = numthread;
 
             auto G2 = sf.one_ks(G);
 
-- 
2.43.0


From beb434c8ac9b7a62ddee3d76bcc0f23217aa5d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:00 +0000
Subject: [PATCH 57/60] fix: parallel sparsify: weighted sampling is only
 correct with one thread

The number of threads was asked for outside of the parallel region, where it
is always 1, so that all other threads wrote past the end of the arrays; all
threads divided the same number of contractions; and a thread whose edges do
not connect enough vertices, or that has no edges, never ended.
---
 lib/parallel/coarsening/sparsify.h | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 8a04d49..40b6182 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -53,9 +53,10 @@ class sparsify {
  public:
     NodeID sample_contractible_weighted(graphAccessPtr G,
                                         union_find* uf) {
-        NodeID n_reduce;
+        std::atomic<NodeID> reduced = 0;
         timer t;
-        size_t num_threads = omp_get_num_threads();
+        // outside of a parallel region, omp_get_num_threads() is always 1
+        size_t num_threads = omp_get_max_threads();
         std::vector<std::vector<EdgeWeight> > prefixsum;
 
         std::vector<EdgeWeight> processor_prefixes;
@@ -77,9 +78,8 @@ class sparsify {
             auto id = omp_get_thread_num();
             prefixsum[id].reserve(per_thread);
 
-            EdgeID my_start = id * per_thread;
-            EdgeID my_end = std::min((id + 1) * per_thread,
-                                     G->number_of_edges());
+            EdgeID my_start = std::min(id * per_thread, m);
+            EdgeID my_end = std::min((id + 1) * per_thread, m);
 
             for (size_t m = my_start; m < my_end; ++m) {
                 wgt += G->getEdgeWeight(m);
@@ -99,16 +99,15 @@ class sparsify {
             }
 
             double factor = configuration::getConfig()->contraction_factor;
-            n_reduce = std::min(static_cast<NodeID>(
-                                    static_cast<double>(G->number_of_nodes())
-                                    * factor),
-                                G->number_of_nodes() - 2);
-            size_t contracted = 0;
-            std::mt19937_64 m_mt(configuration::getConfig()->seed);
-            n_reduce /= num_threads;
+            NodeID to_try = std::min(static_cast<NodeID>(
+                                         static_cast<double>(
+                                             G->number_of_nodes()) * factor),
+                                     G->number_of_nodes() - 2) / num_threads;
+            std::mt19937_64 m_mt(configuration::getConfig()->seed + id);
 
 #pragma omp barrier
-            while (contracted < n_reduce) {
+            // the edges of one thread might not connect enough vertices
+            for (size_t i = 0; i < to_try && my_start < my_end; ++i) {
                 auto random = m_mt();
                 EdgeWeight e_rand = (random % processor_prefixes[id])
                                     + my_prefix;
@@ -126,13 +125,13 @@ class sparsify {
 
                 if (!uf->SameSet(src, tgt)) {
                     if (uf->Union(src, tgt)) {
-                        ++contracted;
+                        ++reduced;
                     }
                 }
             }
         }
 
-        return G->number_of_nodes() - n_reduce * num_threads;
+        return G->number_of_nodes() - reduced;
     }
 
     NodeID sample_contractible_separate(graphAccessPtr G,
-- 
2.43.0


From 767830cad882cf6c50b7f38fb7577ae6747561db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 58/60] fix: parallel sparsify: geometric sampling with
 probability 0 or 1

Both are outside of the range of the distribution; without option -c, the
probability is 0, and what is contracted is undefined.
---
 lib/parallel/coarsening/sparsify.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 40b6182..ee5c40c 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -172,6 +172,9 @@ class sparsify {
     NodeID sample_geometric(graphAccessPtr G,
                             union_find* uf) {
         timer t;
+        if (configuration::getConfig()->contraction_factor <= 0)
+            return uf->n();
+
     #pragma omp parallel
         {
             double n = G->number_of_nodes();
@@ -185,8 +188,8 @@ class sparsify {
             double prob =
                 samples / (m * configuration::getConfig()->threads - samples);
 
-            if (prob > 1) {
-                LOG1 << "WARNING: Edge Sampling Probability larger than 1.";
+            if (prob >= 1) {
+                LOG1 << "WARNING: Edge Sampling Probability not below 1.";
                 LOG1 << "Setting it to a valid value of 0.5.";
                 prob = 0.5;
             }
-- 
2.43.0


From d4548a3310c27a3f683b836ef915a8d8e9e81049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:58 +0000
Subject: [PATCH 59/60] fix: build_from_metis aborts in builds with assertions

graph_access stores no node weights: setNodeWeight is assert(false), so both
build_from_metis functions ended the process for every non-empty graph. They
also leaked the graph made by the constructor.
---
 lib/data_structure/graph_access.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/data_structure/graph_access.h b/lib/data_structure/graph_access.h
index 26f0875..54bce20 100644
--- a/lib/data_structure/graph_access.h
+++ b/lib/data_structure/graph_access.h
@@ -710,12 +710,12 @@ inline int* graph_access::UNSAFE_metis_style_adjwgt_array() {
 }
 
 inline int graph_access::build_from_metis(int n, int* xadj, int* adjncy) {
+    delete graphref;
     graphref = new basicGraph();
     start_construction(n, xadj[n]);
 
     for (unsigned i = 0; i < (unsigned)n; i++) {
         NodeID node = new_node();
-        setNodeWeight(node, 1);
         setPartitionIndex(node, 0);
 
         for (unsigned e = xadj[i]; e < (unsigned)xadj[i + 1]; e++) {
@@ -729,14 +729,14 @@ inline int graph_access::build_from_metis(int n, int* xadj, int* adjncy) {
 }
 
 inline int graph_access::build_from_metis_weighted(int n, int* xadj,
-                                                   int* adjncy, int* vwgt,
+                                                   int* adjncy, int*,
                                                    int* adjwgt) {
+    delete graphref;
     graphref = new basicGraph();
     start_construction(n, xadj[n]);
 
     for (unsigned i = 0; i < (unsigned)n; i++) {
         NodeID node = new_node();
-        setNodeWeight(node, vwgt[i]);
         setPartitionIndex(node, 0);
 
         for (unsigned e = xadj[i]; e < (unsigned)xadj[i + 1]; e++) {
-- 
2.43.0


From 15e82e9e8f58623fffb14ec80cf54f3322aacca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:41 +0000
Subject: [PATCH 60/60] fix: recvProblem indexes its buffer one past the end

&data[size] is undefined for a vector, and ends the process in builds with
library assertions.
---
 lib/algorithms/multicut/mpi_communication.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index c437c72..0651183 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -125,15 +125,16 @@ class mpi_communication {
             problem->mappings.emplace_back(
                 std::make_shared<std::vector<NodeID> >());
             problem->mappings[i]->insert(problem->mappings[i]->end(),
-                                         &data[next_index],
-                                         &data[next_index + map_size_i]);
+                                         data.begin() + next_index,
+                                         data.begin() + next_index
+                                         + map_size_i);
             next_index += map_size_i;
         }
 
         size_t serialsize = data[next_index++];
         std::vector<uint64_t> serial;
-        serial.insert(serial.end(), &data[next_index],
-                      &data[next_index + serialsize]);
+        serial.insert(serial.end(), data.begin() + next_index,
+                      data.begin() + next_index + serialsize);
 
         problem->graph = mutable_graph::deserialize(serial);
         LOG << mpi_rank << " returns new problem";
-- 
2.43.0

