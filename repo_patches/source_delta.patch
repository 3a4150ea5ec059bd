From 62b7f0d805e7308dc564059ecbe0a8a4d26ffec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 01/10] fix: resize a router's cost-arrays by their own length

`self.costs.len()` is the number of directions (2), so a fresh router crashed on
a graph of exactly two nodes.
---
 src/routing/dijkstra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/routing/dijkstra.rs b/src/routing/dijkstra.rs
index acdb424..870de1d 100644
--- a/src/routing/dijkstra.rs
+++ b/src/routing/dijkstra.rs
@@ -72,7 +72,7 @@ impl Dijkstra {
         // fwd and bwd
         for &dir in &[Direction::FWD, Direction::BWD] {
             let dir = self.dir_idx(dir);
-            if self.costs.len() != new_len {
+            if self.costs[dir].len() != new_len {
                 self.costs[dir].resize(new_len, std::f64::INFINITY);
                 self.predecessors[dir].resize(new_len, None);
             }
-- 
2.43.0


From cb771ccad787f87f552989d79363c67cc3f2b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 02/10] fix: reset a reused router before shrinking its arrays

Touched nodes of the previous (bigger) graph have been out of bounds.
---
 src/routing/dijkstra.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/routing/dijkstra.rs b/src/routing/dijkstra.rs
index 870de1d..021039b 100644
--- a/src/routing/dijkstra.rs
+++ b/src/routing/dijkstra.rs
@@ -72,16 +72,17 @@ impl Dijkstra {
         // fwd and bwd
         for &dir in &[Direction::FWD, Direction::BWD] {
             let dir = self.dir_idx(dir);
-            if self.costs[dir].len() != new_len {
-                self.costs[dir].resize(new_len, std::f64::INFINITY);
-                self.predecessors[dir].resize(new_len, None);
-            }
-
+            // Clean up before resizing, because the next graph may be smaller than the previous one.
             for i in self.touched[dir].drain(..) {
                 self.costs[dir][i] = std::f64::INFINITY;
                 self.predecessors[dir][i] = None;
             }
 
+            if self.costs[dir].len() != new_len {
+                self.costs[dir].resize(new_len, std::f64::INFINITY);
+                self.predecessors[dir].resize(new_len, None);
+            }
+
             // assert!(self.costs[dir].iter().all(|&c| c == f64::INFINITY));
             // assert!(self.predecessors[dir].iter().all(|&p| p == None));
 
-- 
2.43.0


From 2f0d145b4015738e63b0ff628773808d271891e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 03/10] fix: write an edge's destination-coordinate instead of
 its source's

---
 src/io/writing/network/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/network/mod.rs b/src/io/writing/network/mod.rs
index 8bb40f4..1c5fe8b 100644
--- a/src/io/writing/network/mod.rs
+++ b/src/io/writing/network/mod.rs
@@ -118,12 +118,12 @@ fn write_edges_to_file<W: Write>(
                                     write!(writer, "{}", dst_idx)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLat => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lat = nodes.coord(dst_idx).lat;
                                     write!(writer, "{}", dst_lat)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLon => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lon = nodes.coord(dst_idx).lon;
                                     write!(writer, "{}", dst_lon)?;
                                 }
-- 
2.43.0


From edf1704e321b577e77e28394619be57ca180aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 04/10] fix: reject metrics being not a number when building a
 graph

---
 src/network/graph/building.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index c6b81c8..f4c85ee 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -657,7 +657,8 @@ impl GraphBuilder {
 
         for metrics in &graph.metrics {
             for metric in metrics {
-                if metric < &defaults::accuracy::F64_ABS {
+                // negated to catch NaN as well
+                if !(metric >= &defaults::accuracy::F64_ABS) {
                     return Err(err::Msg::from(
                         "A metric is smaller than accuracy allows it.",
                     ));
-- 
2.43.0


From 215b6f00d18a5203ef522719b002be017941696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 05/10] fix: give every node an edge-offset

Accessing edges of the last nodes crashed if these nodes have no leaving (entering) edges.
---
 src/network/graph/building.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index f4c85ee..6726c27 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -761,6 +761,10 @@ impl GraphBuilder {
             }
             // last node needs an upper bound as well for `leaving_edges(...)`
             graph.fwd_offsets.push(offset);
+            // Nodes after the last src have no leaving edges, but need an offset as well.
+            while graph.fwd_offsets.len() < graph.node_ids.len() + 1 {
+                graph.fwd_offsets.push(offset);
+            }
             progress_bar.set(offset);
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
@@ -875,6 +879,10 @@ impl GraphBuilder {
                 "Last offset-value should be as big as the number of proto-edges."
             );
             graph.bwd_offsets.push(offset);
+            // Nodes after the last dst have no entering edges, but need an offset as well.
+            while graph.bwd_offsets.len() < graph.node_ids.len() + 1 {
+                graph.bwd_offsets.push(offset);
+            }
             progress_bar.set(graph.fwd_dsts.len());
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
-- 
2.43.0


From 3d777e99feb9aa6673451bf4d24b37879083dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 06/10] fix: report shortcuts of non-existing edges as error
 instead of crashing

---
 src/network/graph/building.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 6726c27..0bcad41 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -480,6 +480,17 @@ impl GraphBuilder {
 
         info!("DO Remap ch-shortcut-indices according to new sorted edges.");
         {
+            // shortcuts have to refer to existing edges
+            if self
+                .proto_shortcuts
+                .iter()
+                .any(|sc_edges| sc_edges.iter().any(|idx| **idx >= proto_edges.len()))
+            {
+                return Err(err::Msg::from(
+                    "A shortcut refers to an edge, which doesn't exist.",
+                ));
+            }
+
             // create mapping: old-idx -> new-idx
             let mut new_indices: Vec<usize> = vec![0; proto_edges.len()];
             proto_edges
-- 
2.43.0


From 89a03a93b97e355bf5f88c0e2ced8a06c4b726ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 07/10] fix: report malformed edge-ids as error instead of
 crashing

Slicing crashed for edge-ids shorter than two bytes or with wide characters.
---
 src/io/parsing/network/graph/fmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index b8e70f0..6c1e41c 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -190,7 +190,7 @@ impl ProtoShortcut {
                         edge_id = param.parse::<usize>().ok();
 
                         // multi-ch-constructor uses ids like "ch123" for shortcuts
-                        if edge_id.is_none() && &param[0..2] == "ch" {
+                        if edge_id.is_none() && param.starts_with("ch") {
                             edge_id = param[2..].parse::<usize>().ok();
                         }
 
-- 
2.43.0


From bb09eb023658f87bd9316137c6ad4cd4ca8830af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 08/10] fix: report malformed coordinates as error instead of
 crashing

The error-message assumed fixed columns.
---
 src/io/parsing/network/graph/fmi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index 6c1e41c..feeb71a 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -359,7 +359,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lat '{:?}' from fmi-file, which is not f64.",
-                                    params[2]
+                                    param
                                 ))
                             }
                         };
@@ -370,7 +370,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lon '{:?}' from fmi-file, which is not f64.",
-                                    params[3]
+                                    param
                                 ))
                             }
                         };
-- 
2.43.0


From a77b54d6163633877f85d5cbac5d2f56d4eae699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 09/10] fix: detect cyclic shortcuts by their depth when
 flattening

A cycle via the second edge has never been detected, and long routes have been mistaken for cycles.
---
 src/routing/paths.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/routing/paths.rs b/src/routing/paths.rs
index 0eda0b8..2f9b936 100644
--- a/src/routing/paths.rs
+++ b/src/routing/paths.rs
@@ -100,19 +100,20 @@ impl Path {
         };
 
         // interpret old edges as stack, beginning with src
-        let mut old_edges = self.edges;
-        old_edges.reverse();
+        // and remember the depth of their shortcut-references
+        let mut old_edges: Vec<_> = self.edges.into_iter().rev().map(|idx| (idx, 0)).collect();
 
         let fwd_edges = graph.fwd_edges();
-        while let Some(mut edge_idx) = old_edges.pop() {
+        while let Some((mut edge_idx, mut depth)) = old_edges.pop() {
             // if edge is shortcut
             // -> push on old-edges
             while let Some(sc_edges) = fwd_edges.sc_edges(edge_idx) {
-                old_edges.push(sc_edges[1]);
+                depth += 1;
+                old_edges.push((sc_edges[1], depth));
                 edge_idx = sc_edges[0];
 
-                // max path-length contains all edges in a graph
-                if old_edges.len() > fwd_edges.count() {
+                // without cycle, an edge can't be referred to by itself
+                if depth > fwd_edges.count() {
                     return Err("There is a cycle of shortcut-references in the graph.".into());
                 }
             }
-- 
2.43.0


From 3c85b234c3cde958722abc04ca32547d40cadf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:03 +0000
Subject: [PATCH 10/10] fix: write routes of a graph without nodes instead of
 crashing

---
 src/io/writing/routing/random_or_all.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 1d88b37..0c37bff 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -56,7 +56,6 @@ impl Writer {
             let mut processed_indices = HashSet::new();
 
             let mut rng = rand_pcg::Pcg32::seed_from_u64(self.seed);
-            let die = Uniform::from(0..nodes.count());
 
             let mut dijkstra = Dijkstra::new();
 
@@ -93,6 +92,7 @@ impl Writer {
                         let dst_idx = NodeIdx(i % nodes.count());
                         (src_idx, dst_idx)
                     } else {
+                        let die = Uniform::from(0..nodes.count());
                         let src_idx = NodeIdx(die.sample(&mut rng));
                         let dst_idx = NodeIdx(die.sample(&mut rng));
                         (src_idx, dst_idx)
-- 
2.43.0

