From b854b682994537537b141339fb10026cd0045dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:49 +0000
Subject: [PATCH 01/38] fix: customization with more worker threads than
 available cpus must not panic

---
 .../customization/parallelization.rs                          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
index 1bcd425..508c216 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
@@ -155,7 +155,7 @@ where
             rayon::ThreadPoolBuilder::new()
                 .build_scoped(
                     |thread| {
-                        affinity::set_thread_affinity(&[available_cpus[thread.index()]]).unwrap();
+                        affinity::set_thread_affinity(&[available_cpus[thread.index() % available_cpus.len()]]).unwrap();
                         setup(Box::new(|| thread.run()));
                     },
                     |pool| pool.install(|| self.customize_tree(self.cch.separators(), 0, upward, downward, up_aux, down_aux)),
@@ -356,7 +356,7 @@ where
             rayon::ThreadPoolBuilder::new()
                 .build_scoped(
                     |thread| {
-                        affinity::set_thread_affinity(&[available_cpus[thread.index()]]).unwrap();
+                        affinity::set_thread_affinity(&[available_cpus[thread.index() % available_cpus.len()]]).unwrap();
                         setup(Box::new(|| thread.run()));
                     },
                     |pool| {
-- 
2.43.0


From 528c9be206c18901bab4b377c0fe397a1f8bca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:48 +0000
Subject: [PATCH 02/38] fix: splitting the hierarchy into per-thread node
 ranges must not fail on graphs with few or no arcs

---
 .../customization.rs                           | 18 +++++++++++-------
 engine/src/algo/td_astar.rs                    | 16 ++--------------
 .../src/algo/traffic_aware/td_traffic_pots.rs  | 16 ++--------------
 3 files changed, 15 insertions(+), 35 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index ec27315..b820405 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -350,6 +350,16 @@ pub fn customize_perfect_without_rebuild(customized: &mut CustomizedBasic<CCH>)
     (upward_modified, downward_modified)
 }
 
+/// Split the nodes `0..n` into exactly `k` consecutive and possibly empty ranges with roughly the same number of edges.
+/// `tail` contains the (sorted) tails of all edges. Returns the `k + 1` boundaries of the ranges, the first one is `0`, the last one is `n`.
+pub(crate) fn edge_balanced_node_ranges(tail: &[NodeId], n: usize, k: usize) -> Vec<usize> {
+    let target_edges_per_range = (tail.len() + k - 1) / k;
+    std::iter::once(0)
+        .chain((1..k).map(|i| tail.get(i * target_edges_per_range).map_or(n, |&node| node as usize)))
+        .chain(std::iter::once(n))
+        .collect()
+}
+
 pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
     customized: CustomizedBasic<'c, C>,
     upward_modified: &[bool],
@@ -457,13 +467,7 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
 
             let mut edges_of_each_thread = vec![(0, 0); k + 1];
             let mut local_edge_counts = &mut edges_of_each_thread[1..];
-            let target_edges_per_thread = (m_fw + k - 1) / k;
-            let first_node_of_chunk: Vec<_> = cch
-                .forward_tail()
-                .chunks(target_edges_per_thread)
-                .map(|chunk| chunk[0] as usize)
-                .chain(std::iter::once(n))
-                .collect();
+            let first_node_of_chunk = edge_balanced_node_ranges(cch.forward_tail(), n, k);
 
             // let nodes_per_thread = (n + k - 1) / k;
             // let first_node_of_chunk: Vec<_> = (0..=k).map(|i| min(n, i * nodes_per_thread)).collect();
diff --git a/engine/src/algo/td_astar.rs b/engine/src/algo/td_astar.rs
index d1d46df..8772970 100644
--- a/engine/src/algo/td_astar.rs
+++ b/engine/src/algo/td_astar.rs
@@ -317,13 +317,7 @@ impl<'a> MultiMetric<'a> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = customization::edge_balanced_node_ranges(cch.forward_tail(), n, k);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -1094,13 +1088,7 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = customization::edge_balanced_node_ranges(cch.forward_tail(), n, k);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
diff --git a/engine/src/algo/traffic_aware/td_traffic_pots.rs b/engine/src/algo/traffic_aware/td_traffic_pots.rs
index 20b00ed..c49a517 100644
--- a/engine/src/algo/traffic_aware/td_traffic_pots.rs
+++ b/engine/src/algo/traffic_aware/td_traffic_pots.rs
@@ -218,13 +218,7 @@ impl<'a> MultiMetric<'a> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = customization::edge_balanced_node_ranges(cch.forward_tail(), n, k);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -884,13 +878,7 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
 
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
-        let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
-            .collect();
+        let first_node_of_chunk = customization::edge_balanced_node_ranges(cch.forward_tail(), n, k);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
-- 
2.43.0


From 3686a29ad871d4d50afb5f730849bbdebd6c470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:30 +0000
Subject: [PATCH 03/38] fix: mapping a ToRef arc back to its HERE link must not
 fail

The sanity check of the ToRef branch compared against the FromRef arc, so
in builds with debug assertions every HERE path containing a ToRef link
panicked and took the routing engine thread of the server down.
---
 conversion/src/here/link_id_mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/src/here/link_id_mapper.rs b/conversion/src/here/link_id_mapper.rs
index a2a1c4b..55dfbab 100644
--- a/conversion/src/here/link_id_mapper.rs
+++ b/conversion/src/here/link_id_mapper.rs
@@ -49,7 +49,7 @@ impl LinkIdMapper {
         let direction = if self.here_rank_to_link_id[rank].0.value() == Some(link_id) {
             LinkDirection::FromRef
         } else {
-            debug_assert_eq!(self.here_rank_to_link_id[rank].0.value(), Some(link_id));
+            debug_assert_eq!(self.here_rank_to_link_id[rank].1.value(), Some(link_id));
             LinkDirection::ToRef
         };
         (here_link_id, direction)
-- 
2.43.0


From c24f09526d7d6a5f1e69d615aa69fc12c2cecf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:17 +0000
Subject: [PATCH 04/38] fix: inverse lookups in sparse rank select maps must
 not pick an empty block

Blocks without any set bit have the same prefix sum as their successor, so
the binary search could end up in an empty block and the lookup panicked.
---
 engine/src/datastr/rank_select_map.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index 6481915..c440c16 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -330,10 +330,8 @@ impl InvertableRankSelectMap {
     pub fn inverse(&self, value: usize) -> usize {
         debug_assert!(value < self.map.len());
         let group = value / GROUPED_LOCALS;
-        let block_index = match self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].binary_search(&value) {
-            Ok(block_index) => block_index,
-            Err(block_index) => block_index - 1,
-        } + self.blocks[group];
+        // the last block starting at or before value - empty blocks repeat the prefix sum of their successor
+        let block_index = self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].partition_point(|&sum| sum <= value) - 1 + self.blocks[group];
 
         let block_local_rank = value - self.map.prefix_sum[block_index];
         let block_local_index = self.block_local_index(block_index, block_local_rank);
-- 
2.43.0


From 31dc04862d76c4799b7572c1c89143ab095fa244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:24 +0000
Subject: [PATCH 05/38] fix: a HERE query with an unknown link must fail with
 HTTP 500 without stopping the routing engine

The README promises an error for the single query; instead the panic ended
the engine thread and poisoned the request channel, so that every later
request failed as well.
---
 server/src/main.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 49534ba..f2eb6b6 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -16,7 +16,7 @@ use std::{
     thread,
 };
 
-use rocket::{request::Form, response::NamedFile, State};
+use rocket::{http::Status, request::Form, response::NamedFile, State};
 use rocket_contrib::json::Json;
 
 use kdtree::kdtree::{Kdtree, KdtreePointTrait};
@@ -97,7 +97,7 @@ fn files(file: PathBuf) -> Option<NamedFile> {
 }
 
 #[get("/query?<query_params..>", format = "application/json")]
-fn query(query_params: Form<GeoQuery>, state: State<Mutex<Sender<Request>>>) -> Json<Option<GeoResponse>> {
+fn query(query_params: Form<GeoQuery>, state: State<Mutex<Sender<Request>>>) -> Result<Json<Option<GeoResponse>>, Status> {
     let result = report_time("Total Query Request Time", || {
         println!("Received Query: {:?}", query_params);
 
@@ -105,15 +105,16 @@ fn query(query_params: Form<GeoQuery>, state: State<Mutex<Sender<Request>>>) ->
         let (tx_result, rx_result) = mpsc::channel::<Option<GeoResponse>>();
 
         tx_query.send(Request::Geo((*query_params, tx_result))).unwrap();
-        rx_result.recv().expect("routing engine crashed or hung up")
+        // the engine hangs up without an answer when the query is invalid
+        rx_result.recv()
     });
 
     println!();
-    Json(result)
+    result.map(Json).map_err(|_| Status::InternalServerError)
 }
 
 #[get("/here_query?<query_params..>", format = "application/json")]
-fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>>) -> Json<Option<HereResponse>> {
+fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>>) -> Result<Json<Option<HereResponse>>, Status> {
     let result = report_time("Total Query Request Time", || {
         println!("Received Query: {:?}", query_params);
 
@@ -121,11 +122,12 @@ fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>
         let (tx_result, rx_result) = mpsc::channel::<Option<HereResponse>>();
 
         tx_query.send(Request::Here((*query_params, tx_result))).unwrap();
-        rx_result.recv().expect("routing engine crashed or hung up")
+        // the engine hangs up without an answer when the query is invalid
+        rx_result.recv()
     });
 
     println!();
-    Json(result)
+    result.map(Json).map_err(|_| Status::InternalServerError)
 }
 
 #[derive(Debug)]
@@ -261,12 +263,19 @@ fn main() -> Result<(), Box<dyn Error>> {
                         tx_result,
                     )) => {
                         let from_link_direction = if from_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
-                        let from_link_local_id = id_mapper.here_to_local_link_id(from_link_id, from_link_direction).expect("non existing link");
+                        let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
+                        let (from_link_local_id, to_link_local_id) = match (
+                            id_mapper.here_to_local_link_id(from_link_id, from_link_direction),
+                            id_mapper.here_to_local_link_id(to_link_id, to_link_direction),
+                        ) {
+                            (Some(from_link), Some(to_link)) => (from_link, to_link),
+                            // non existing link: drop the response channel, only this query fails
+                            _ => continue,
+                        };
+
                         let from_link = graph.link(from_link_local_id);
                         let from = from_link.node;
 
-                        let to_link_direction = if to_direction { LinkDirection::FromRef } else { LinkDirection::ToRef };
-                        let to_link_local_id = id_mapper.here_to_local_link_id(to_link_id, to_link_direction).expect("non existing link");
                         let to_link = graph.link(to_link_local_id);
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
-- 
2.43.0


From 64f1a7d3f02b1cc0a194db12f0ca2534d0aa589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:39 +0000
Subject: [PATCH 06/38] fix: customizations must not wait for running queries

The request handlers kept the channel to the routing engine locked until
their own result was there, so POST /customize could not return immediately
while a query was waiting for the engine.
---
 server/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index f2eb6b6..83067b6 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -101,7 +101,8 @@ fn query(query_params: Form<GeoQuery>, state: State<Mutex<Sender<Request>>>) ->
     let result = report_time("Total Query Request Time", || {
         println!("Received Query: {:?}", query_params);
 
-        let tx_query = state.lock().unwrap();
+        // do not keep the channel locked while waiting for the result, other requests need it too
+        let tx_query = state.lock().unwrap().clone();
         let (tx_result, rx_result) = mpsc::channel::<Option<GeoResponse>>();
 
         tx_query.send(Request::Geo((*query_params, tx_result))).unwrap();
@@ -118,7 +119,8 @@ fn here_query(query_params: Form<HereQuery>, state: State<Mutex<Sender<Request>>
     let result = report_time("Total Query Request Time", || {
         println!("Received Query: {:?}", query_params);
 
-        let tx_query = state.lock().unwrap();
+        // do not keep the channel locked while waiting for the result, other requests need it too
+        let tx_query = state.lock().unwrap().clone();
         let (tx_result, rx_result) = mpsc::channel::<Option<HereResponse>>();
 
         tx_query.send(Request::Here((*query_params, tx_result))).unwrap();
-- 
2.43.0


From 0efa4dd6b776981273eb5d7e35485c9a9751bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:03 +0000
Subject: [PATCH 07/38] fix: customizations must be carried over and take
 effect in the order they arrived

Every customization started over with the original weights instead of the
ones of the previous customization, and whichever of several concurrent
customizations happened to finish last won.
---
 server/src/main.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 83067b6..e7e6052 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -214,7 +214,11 @@ fn main() -> Result<(), Box<dyn Error>> {
         let link_id_to_tail_mapper = LinkIdToTailMapper::new(&graph);
 
         let cch = CCH::fix_order_and_build(&graph, cch_order);
-        let server = Arc::new(Mutex::new(Server::new(cch_customize(&cch, &graph))));
+        // query server along with the number of customizations it contains
+        let server = Arc::new(Mutex::new((Server::new(cch_customize(&cch, &graph)), 0)));
+        // weights including the updates of all customizations so far
+        let mut current_travel_time = travel_time;
+        let mut num_customizations = 0;
 
         let coords = |node: NodeId| -> (f32, f32) { (lat[node as usize], lng[node as usize]) };
         let closest_node = |(p_lat, p_lng): (f32, f32)| -> NodeId {
@@ -242,7 +246,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     )) => {
                         let (from, to) = report_time("match nodes", || (closest_node((from_lat, from_lng)), closest_node((to_lat, to_lng))));
 
-                        let mut server = server.lock().unwrap();
+                        let (server, _) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result.distance();
@@ -281,7 +285,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                         let to_link = graph.link(to_link_local_id);
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
-                        let mut server = server.lock().unwrap();
+                        let (server, _) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result.distance()
@@ -318,26 +322,30 @@ fn main() -> Result<(), Box<dyn Error>> {
                         tx_result.send(result).unwrap();
                     }
                     Request::Customize(updates) => {
+                        // apply updates here, so they are in effect in the order they arrived and carried over into the following customizations
+                        for (here_link_id, is_from_ref, weight) in updates.into_iter() {
+                            let direction = if is_from_ref { LinkDirection::FromRef } else { LinkDirection::ToRef };
+                            if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, direction) {
+                                current_travel_time[link_idx as usize] = weight.0
+                            }
+                        }
+                        num_customizations += 1;
+
                         let server = server.clone();
-                        let mut travel_time = travel_time.clone();
-                        let id_mapper = &id_mapper;
+                        let travel_time = current_travel_time.clone();
                         let cch = &cch;
                         let first_out = &first_out;
                         let head = &head;
 
                         // asynchronous customization
                         scope.spawn(move |_| {
-                            for (here_link_id, is_from_ref, weight) in updates.into_iter() {
-                                if is_from_ref {
-                                    if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, LinkDirection::FromRef) {
-                                        travel_time[link_idx as usize] = weight.0
-                                    }
-                                } else if let Some(link_idx) = id_mapper.here_to_local_link_id(here_link_id, LinkDirection::ToRef) {
-                                    travel_time[link_idx as usize] = weight.0
-                                }
-                            }
                             let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], travel_time));
-                            server.lock().unwrap().update(customized);
+                            let (server, version) = &mut *server.lock().unwrap();
+                            // a later customization might have been faster
+                            if *version < num_customizations {
+                                server.update(customized);
+                                *version = num_customizations;
+                            }
                         });
                     }
                 }
-- 
2.43.0


From e4b982c90cefc8e2f75799e287da605a1f53defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:21 +0000
Subject: [PATCH 08/38] fix: HERE queries must use the current weights

The time spent on the first and the last link and the choice between
parallel arcs was still based on the original weights after a customization,
and the sum of large weights could overflow.
---
 server/src/main.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index e7e6052..4961aa5 100644
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -214,8 +214,8 @@ fn main() -> Result<(), Box<dyn Error>> {
         let link_id_to_tail_mapper = LinkIdToTailMapper::new(&graph);
 
         let cch = CCH::fix_order_and_build(&graph, cch_order);
-        // query server along with the number of customizations it contains
-        let server = Arc::new(Mutex::new((Server::new(cch_customize(&cch, &graph)), 0)));
+        // query server along with the weights and the number of customizations it contains
+        let server = Arc::new(Mutex::new((Server::new(cch_customize(&cch, &graph)), travel_time.clone(), 0)));
         // weights including the updates of all customizations so far
         let mut current_travel_time = travel_time;
         let mut num_customizations = 0;
@@ -246,7 +246,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     )) => {
                         let (from, to) = report_time("match nodes", || (closest_node((from_lat, from_lng)), closest_node((to_lat, to_lng))));
 
-                        let (server, _) = &mut *server.lock().unwrap();
+                        let (server, _, _) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
                                 let distance = result.distance();
@@ -279,18 +279,16 @@ fn main() -> Result<(), Box<dyn Error>> {
                             _ => continue,
                         };
 
-                        let from_link = graph.link(from_link_local_id);
-                        let from = from_link.node;
-
-                        let to_link = graph.link(to_link_local_id);
+                        let from = graph.link(from_link_local_id).node;
                         let to = link_id_to_tail_mapper.link_id_to_tail(to_link_local_id);
 
-                        let (server, _) = &mut *server.lock().unwrap();
+                        let (server, travel_time, _) = &mut *server.lock().unwrap();
                         let result = report_time("cch query", || {
                             server.query(Query { from, to }).found().map(|mut result| {
-                                let distance = result.distance()
-                                    + (from_link_fraction * from_link.weight as f32) as u32
-                                    + (to_link_fraction * to_link.weight as f32) as u32;
+                                let distance = result
+                                    .distance()
+                                    .saturating_add((from_link_fraction * travel_time[from_link_local_id as usize] as f32) as u32)
+                                    .saturating_add((to_link_fraction * travel_time[to_link_local_id as usize] as f32) as u32);
 
                                 let path = result.node_path();
                                 let path_iter = path.iter();
@@ -304,7 +302,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                                             .map(|(first_node, second_node)| {
                                                 graph
                                                     .edge_indices(*first_node, *second_node)
-                                                    .min_by_key(|&EdgeIdT(edge)| graph.weight()[edge as usize])
+                                                    .min_by_key(|&EdgeIdT(edge)| travel_time[edge as usize])
                                                     .unwrap()
                                             })
                                             .map(|EdgeIdT(link_id)| {
@@ -339,11 +337,12 @@ fn main() -> Result<(), Box<dyn Error>> {
 
                         // asynchronous customization
                         scope.spawn(move |_| {
-                            let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], travel_time));
-                            let (server, version) = &mut *server.lock().unwrap();
+                            let customized = cch_customize(&cch, &FirstOutGraph::new(&first_out[..], &head[..], &travel_time[..]));
+                            let (server, current_travel_time, version) = &mut *server.lock().unwrap();
                             // a later customization might have been faster
                             if *version < num_customizations {
                                 server.update(customized);
+                                *current_travel_time = travel_time;
                                 *version = num_customizations;
                             }
                         });
-- 
2.43.0


From e417f240143a63d84302ffaf119b1ebdeea54278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:07 +0000
Subject: [PATCH 09/38] fix: CATCHUp queries lost routes when bounds differ
 only by rounding

---
 engine/src/algo/catchup.rs                  | 9 +++++++--
 engine/src/algo/catchup/partial_profiles.rs | 9 +++++++--
 engine/src/algo/catchup/profiles.rs         | 9 +++++++--
 engine/src/algo/catchup/profiles_naive.rs   | 9 +++++++--
 4 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/catchup.rs b/engine/src/algo/catchup.rs
index 56cdc1b..dc8d334 100644
--- a/engine/src/algo/catchup.rs
+++ b/engine/src/algo/catchup.rs
@@ -145,7 +145,8 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                // fuzzy, because the bounds may be sums of the same values in different orders
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -185,7 +186,11 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                // fuzzy, because the bounds may be sums of the same values in different orders
+                if tentative_distance
+                    .1
+                    .fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound)
+                {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
diff --git a/engine/src/algo/catchup/partial_profiles.rs b/engine/src/algo/catchup/partial_profiles.rs
index a726bbd..0421b0c 100644
--- a/engine/src/algo/catchup/partial_profiles.rs
+++ b/engine/src/algo/catchup/partial_profiles.rs
@@ -154,7 +154,8 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                // fuzzy, because the bounds may be sums of the same values in different orders
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -189,7 +190,11 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                // fuzzy, because the bounds may be sums of the same values in different orders
+                if tentative_distance
+                    .1
+                    .fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound)
+                {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
diff --git a/engine/src/algo/catchup/profiles.rs b/engine/src/algo/catchup/profiles.rs
index 730eb39..e54cd4e 100644
--- a/engine/src/algo/catchup/profiles.rs
+++ b/engine/src/algo/catchup/profiles.rs
@@ -151,7 +151,8 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                // fuzzy, because the bounds may be sums of the same values in different orders
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -186,7 +187,11 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                // fuzzy, because the bounds may be sums of the same values in different orders
+                if tentative_distance
+                    .1
+                    .fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound)
+                {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
diff --git a/engine/src/algo/catchup/profiles_naive.rs b/engine/src/algo/catchup/profiles_naive.rs
index 3eeefee..25c2f3f 100644
--- a/engine/src/algo/catchup/profiles_naive.rs
+++ b/engine/src/algo/catchup/profiles_naive.rs
@@ -151,7 +151,8 @@ impl<'a> Server<'a> {
                 };
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound > tentative_distance.1
+                // fuzzy, because the bounds may be sums of the same values in different orders
+                if tentative_distance.1.fuzzy_lt(self.forward.node_data(self.forward.peek_next().unwrap()).lower_bound)
                     || (cfg!(feature = "tdcch-stall-on-demand") && stall())
                 {
                     self.forward.skip_next();
@@ -191,7 +192,11 @@ impl<'a> Server<'a> {
                 self.backward_tree_mask.unset_all_around(self.backward.peek_next().unwrap() as usize);
 
                 // skip the node if it cannot possibly be in the shortest path corridor
-                if self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound > tentative_distance.1 {
+                // fuzzy, because the bounds may be sums of the same values in different orders
+                if tentative_distance
+                    .1
+                    .fuzzy_lt(self.backward.node_data(self.backward.peek_next().unwrap()).lower_bound)
+                {
                     self.backward.skip_next();
                 } else if let QueryProgress::Progress(node) = self.backward.next_step() {
                     if cfg!(feature = "detailed-stats") {
-- 
2.43.0


From 21e4b88419d1fa957aeff460e1f8db5766ecab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 10/38] fix: CATCHUp queries missed shortcuts of already
 settled nodes on ties

---
 engine/src/algo/catchup.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/catchup.rs b/engine/src/algo/catchup.rs
index dc8d334..a8efe64 100644
--- a/engine/src/algo/catchup.rs
+++ b/engine/src/algo/catchup.rs
@@ -53,6 +53,8 @@ pub struct Server<'a> {
     closest_node_priority_queue: IndexdMinHeap<State<Timestamp>>,
     // Bitset to mark all (upward) edges in the search space
     relevant_upward: FastClearBitVec,
+    // For settled nodes: were upward edges added to the search space since then?
+    settled: ClearlistVector<Option<bool>>,
 
     from: NodeId,
     to: NodeId,
@@ -77,6 +79,7 @@ impl<'a> Server<'a> {
             backward_tree_mask: BitVec::new(n),
             closest_node_priority_queue: IndexdMinHeap::new(n),
             relevant_upward: FastClearBitVec::new(m),
+            settled: ClearlistVector::new(n, None),
             from: 0,
             to: 0,
         }
@@ -105,6 +108,7 @@ impl<'a> Server<'a> {
         self.backward.initialize_query(self.to);
         self.closest_node_priority_queue.clear();
         self.relevant_upward.clear();
+        self.settled.reset();
 
         self.forward_tree_path.clear();
         self.backward_tree_path.clear();
@@ -313,6 +317,15 @@ impl<'a> Server<'a> {
         let forward_select_time = timer.get_passed();
 
         let relevant_upward = &mut self.relevant_upward;
+        let settled = &mut self.settled;
+        let upward_tail = self.customized_graph.outgoing.tail();
+        let mark_upward = |edge_id: EdgeId, relevant_upward: &mut FastClearBitVec, settled: &mut ClearlistVector<Option<bool>>| {
+            if !relevant_upward.get(edge_id as usize) {
+                relevant_upward.set(edge_id as usize);
+                let tail = upward_tail[edge_id as usize] as usize;
+                settled[tail] = settled[tail].map(|_| true);
+            }
+        };
         // debug_assert!(
         //     tentative_distance.0.fuzzy_eq(self.lower_bounds_to_target[self.from as usize]),
         //     "{:?}",
@@ -337,6 +350,7 @@ impl<'a> Server<'a> {
             }
 
             let distance = self.distances[node as usize];
+            settled[node as usize] = Some(false);
 
             if node == self.to {
                 break;
@@ -372,7 +386,7 @@ impl<'a> Server<'a> {
                                 lower_bound_target,
                                 self.customized_graph,
                                 lower_bounds_to_target,
-                                &mut |edge_id| relevant_upward.set(edge_id as usize),
+                                &mut |edge_id| mark_upward(edge_id, relevant_upward, settled),
                             )
                             .unwrap()
                     } else {
@@ -411,6 +425,9 @@ impl<'a> Server<'a> {
                         if next < *label {
                             self.closest_node_priority_queue.decrease_key(next);
                         }
+                    } else if settled[next.node as usize] == Some(true) && next_ea.fuzzy_eq(self.distances[next.node as usize]) {
+                        // already settled over an equally good path, but this one continues over edges which were not in the search space then
+                        self.closest_node_priority_queue.push(next);
                     }
                 }
             }
@@ -447,7 +464,7 @@ impl<'a> Server<'a> {
                                     lower_bound_target,
                                     self.customized_graph,
                                     lower_bounds_to_target,
-                                    &mut |edge_id| relevant_upward.set(edge_id as usize),
+                                    &mut |edge_id| mark_upward(edge_id, relevant_upward, settled),
                                 )
                                 .unwrap()
                         } else {
@@ -486,6 +503,9 @@ impl<'a> Server<'a> {
                             if next < *label {
                                 self.closest_node_priority_queue.decrease_key(next);
                             }
+                        } else if settled[next.node as usize] == Some(true) && next_ea.fuzzy_eq(self.distances[next.node as usize]) {
+                            // already settled over an equally good path, but this one continues over edges which were not in the search space then
+                            self.closest_node_priority_queue.push(next);
                         }
                     }
                 }
-- 
2.43.0


From b113e1d03d5f39a7019e49336d1c3e5c4561408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:03 +0000
Subject: [PATCH 11/38] fix: bounds of reenabled CATCHUp shortcuts were
 inconsistent

---
 .../customization/ftd.rs                                  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization/ftd.rs b/engine/src/algo/customizable_contraction_hierarchy/customization/ftd.rs
index 3fa4c9a..3385355 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization/ftd.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization/ftd.rs
@@ -3,7 +3,7 @@
 use super::*;
 use floating_time_dependent::*;
 use std::{
-    cmp::{min, Ordering as Ord},
+    cmp::{max, min, Ordering as Ord},
     sync::atomic::Ordering,
 };
 
@@ -445,12 +445,18 @@ pub fn customize_internal<'a, 'b: 'a>(cch: &'a CCH, metric: &'b TDGraph) -> (Vec
                 if !s.required {
                     s.lower_bound = FlWeight::INFINITY;
                     s.upper_bound = FlWeight::INFINITY;
+                } else {
+                    // the upper bound of a reenabled shortcut may be the one of a better path
+                    s.upper_bound = max(s.upper_bound, s.lower_bound);
                 }
             });
             downward.par_iter_mut().for_each(|s| {
                 if !s.required {
                     s.lower_bound = FlWeight::INFINITY;
                     s.upper_bound = FlWeight::INFINITY;
+                } else {
+                    // the upper bound of a reenabled shortcut may be the one of a better path
+                    s.upper_bound = max(s.upper_bound, s.lower_bound);
                 }
             });
 
-- 
2.43.0


From 97a420a05c0d7504a5f2a3dbf5f830c9d45d7358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:46 +0000
Subject: [PATCH 12/38] fix: virtual topocore mixed up degree classes of core
 and components

---
 engine/src/algo/topocore.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 50bd563..261abc0 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -597,8 +597,16 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
             bcc.push(components[node as usize] - 1);
         }
     }
-    let deg3 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 4).unwrap_or(n as usize);
-    let deg2 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 3).unwrap_or(n as usize);
+    // only the nodes of the core are sorted by degree
+    let core_order = &new_order[..biggest_bcc_size];
+    let deg3 = core_order
+        .iter()
+        .position(|&node| symmetric_degrees[node as usize] < 4)
+        .unwrap_or(biggest_bcc_size);
+    let deg2 = core_order
+        .iter()
+        .position(|&node| symmetric_degrees[node as usize] < 3)
+        .unwrap_or(biggest_bcc_size);
 
     report!("biggest_bcc_size", biggest_bcc_size);
     report!("deg2", deg2);
-- 
2.43.0


From 2584318257cd7d121fd496a40484cb63f8c31b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:46 +0000
Subject: [PATCH 13/38] fix: topo core A* queries lost routes or returned
 detours

---
 engine/src/algo/ch_potentials/query.rs    |  27 +++-
 engine/src/algo/ch_potentials/td_query.rs | 189 ++++++++++++----------
 2 files changed, 127 insertions(+), 89 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 0ca9a22..0538795 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -95,7 +95,13 @@ where
 
         let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
         let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
-        let into_core_pot = potential.potential(into_core)?;
+        // a detour through the core can only pay off when it is entered and left at different nodes
+        let via_core = into_core != out_of_core && virtual_topocore.node_type(into_core).in_core() && virtual_topocore.node_type(out_of_core).in_core();
+        let (comp_target, comp_target_pot) = if via_core {
+            (into_core, potential.potential(into_core)?)
+        } else {
+            (query.to(), 0)
+        };
 
         let mut comp_search = TopoDijkstraRun::query(
             &self.comp_graph,
@@ -111,21 +117,28 @@ where
             if comp_search
                 .queue()
                 .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
+                .map(|e| e.key >= *comp_search.tentative_distance(comp_target) + comp_target_pot)
                 .unwrap_or(true)
             {
                 break;
             }
         }
 
-        if *comp_search.tentative_distance(into_core) >= INFINITY {
+        let comp_dist = *comp_search.tentative_distance(comp_target);
+        if comp_dist >= INFINITY {
             return None;
         }
+        if !via_core {
+            report!("num_queue_pops", num_queue_pops);
+            report!("num_queue_pushs", comp_search.num_queue_pushs());
+            report!("num_relaxed_arcs", comp_search.num_relaxed_arcs());
+            return Some(comp_dist - departure);
+        }
 
         let to_core_pushs = comp_search.num_queue_pushs();
         let to_core_relaxed = comp_search.num_relaxed_arcs();
 
-        let core_dist = {
+        {
             let _ctxt = push_context("core_search");
             let core_query = Q::new(into_core, out_of_core, *comp_search.tentative_distance(into_core));
             let mut core_search = TopoDijkstraRun::continue_query(
@@ -140,14 +153,14 @@ where
                 potential,
                 |n, d, p| inspect(n, &virtual_topocore.order, d, p),
                 INFINITY,
-            )
-        };
+            )?;
+        }
 
         let mut comp_search = TopoDijkstraRun::continue_query(
             &self.comp_graph,
             &mut self.core_search.dijkstra_data,
             &mut self.core_search.ops,
-            if core_dist.is_some() { out_of_core } else { query.from() },
+            out_of_core,
         );
 
         while let Some(node) = comp_search.next_step_with_potential(|node| potential.potential(node)) {
diff --git a/engine/src/algo/ch_potentials/td_query.rs b/engine/src/algo/ch_potentials/td_query.rs
index 9eb3852..0e25260 100644
--- a/engine/src/algo/ch_potentials/td_query.rs
+++ b/engine/src/algo/ch_potentials/td_query.rs
@@ -1,4 +1,5 @@
 use super::{query::VirtualTopocoreOps, *};
+use std::cmp::min;
 
 use crate::{
     algo::{dijkstra::gen_topo_dijkstra::*, td_astar::*, topocore::*},
@@ -108,101 +109,124 @@ where
 
         let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
         let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
-        let into_core_pot = potential.potential(into_core, None).unwrap_or(INFINITY);
-
-        let mut comp_search = TopoDijkstraRun::query(
-            &self.comp_graph,
-            &mut self.core_search.dijkstra_data,
-            &mut self.core_search.ops,
-            DijkstraInit::from_query(&query),
-        );
+        // a detour through the core can only pay off when it is entered and left at different nodes
+        let via_core = into_core != out_of_core && virtual_topocore.node_type(into_core).in_core() && virtual_topocore.node_type(out_of_core).in_core();
+        let comp_target = if via_core { into_core } else { query.to() };
+
+        let mut min_key = 0;
+        loop {
+            let mut comp_search = TopoDijkstraRun::query(
+                &self.comp_graph,
+                &mut self.core_search.dijkstra_data,
+                &mut self.core_search.ops,
+                DijkstraInit::from_query(&query),
+            );
 
-        while let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) {
-            num_queue_pops += 1;
-            inspect(node, &virtual_topocore.order, &comp_search, potential);
+            while let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) {
+                num_queue_pops += 1;
+                inspect(node, &virtual_topocore.order, &comp_search, potential);
+
+                let dist = *comp_search.tentative_distance(comp_target);
+                if comp_search
+                    .queue()
+                    .peek()
+                    .map(|e| dist < INFINITY && e.key >= min_key && e.key >= dist + potential.potential(comp_target, Some(dist)).unwrap_or(INFINITY))
+                    .unwrap_or(true)
+                {
+                    break;
+                }
+            }
 
-            if comp_search
-                .queue()
-                .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
-                .unwrap_or(true)
-            {
-                break;
+            let mut min_skipped_key = comp_search.queue().peek().map(|e| e.key).unwrap_or(INFINITY);
+            let comp_dist = *comp_search.tentative_distance(comp_target);
+            if comp_dist >= INFINITY {
+                return None;
+            }
+            if !via_core {
+                report!("num_queue_pops", num_queue_pops);
+                report!("num_queue_pushs", comp_search.num_queue_pushs());
+                report!("num_relaxed_arcs", comp_search.num_relaxed_arcs());
+                potential.report_stats();
+                return Some(comp_dist - departure);
             }
-        }
 
-        let mut pushs = comp_search.num_queue_pushs();
-        let mut relaxed = comp_search.num_relaxed_arcs();
+            let mut pushs = comp_search.num_queue_pushs();
+            let mut relaxed = comp_search.num_relaxed_arcs();
 
-        let core_dist = {
-            let capture = capture_reporting();
-            let core_query = Q::new(into_core, out_of_core, *comp_search.tentative_distance(into_core));
-            let mut core_search = TopoDijkstraRun::continue_query(
-                &self.core_search.graph,
-                &mut self.core_search.dijkstra_data,
-                &mut self.core_search.ops,
-                into_core,
-            );
-            let res = SkipLowDegServer::distance_manually_initialized(
-                &mut core_search,
-                core_query,
-                potential,
-                |n, d, p| inspect(n, &virtual_topocore.order, d, p),
-                INFINITY,
-            );
+            {
+                let capture = capture_reporting();
+                let core_query = Q::new(into_core, out_of_core, *comp_search.tentative_distance(into_core));
+                let mut core_search = TopoDijkstraRun::continue_query(
+                    &self.core_search.graph,
+                    &mut self.core_search.dijkstra_data,
+                    &mut self.core_search.ops,
+                    into_core,
+                );
+                let res = SkipLowDegServer::distance_manually_initialized(
+                    &mut core_search,
+                    core_query,
+                    potential,
+                    |n, d, p| inspect(n, &virtual_topocore.order, d, p),
+                    min_key,
+                    INFINITY,
+                );
+                min_skipped_key = min(min_skipped_key, core_search.queue().peek().map(|e| e.key).unwrap_or(INFINITY));
 
-            if let Some(reported) = capture.reported() {
-                if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_queue_pops") {
-                    if let Some(num) = number.as_u64() {
-                        num_queue_pops += num as usize;
+                if let Some(reported) = capture.reported() {
+                    if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_queue_pops") {
+                        if let Some(num) = number.as_u64() {
+                            num_queue_pops += num as usize;
+                        }
                     }
-                }
-                if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_queue_pushs") {
-                    if let Some(num) = number.as_u64() {
-                        pushs += num as usize;
+                    if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_queue_pushs") {
+                        if let Some(num) = number.as_u64() {
+                            pushs += num as usize;
+                        }
                     }
-                }
-                if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_relaxed_arcs") {
-                    if let Some(num) = number.as_u64() {
-                        relaxed += num as usize;
+                    if let Some(ReportingValue::Value(serde_json::Value::Number(number))) = reported.get("num_relaxed_arcs") {
+                        if let Some(num) = number.as_u64() {
+                            relaxed += num as usize;
+                        }
                     }
                 }
-            }
 
-            res
-        };
+                res?;
+            }
 
-        let mut comp_search = TopoDijkstraRun::continue_query(
-            &self.comp_graph,
-            &mut self.core_search.dijkstra_data,
-            &mut self.core_search.ops,
-            if core_dist.is_some() { out_of_core } else { query.from() },
-        );
+            let mut comp_search = TopoDijkstraRun::continue_query(
+                &self.comp_graph,
+                &mut self.core_search.dijkstra_data,
+                &mut self.core_search.ops,
+                out_of_core,
+            );
 
-        while let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) {
-            num_queue_pops += 1;
-            inspect(node, &virtual_topocore.order, &comp_search, potential);
+            while let Some(node) = comp_search.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) {
+                num_queue_pops += 1;
+                inspect(node, &virtual_topocore.order, &comp_search, potential);
+
+                if comp_search
+                    .queue()
+                    .peek()
+                    .map(|e| e.key >= *comp_search.tentative_distance(query.to()))
+                    .unwrap_or(true)
+                {
+                    break;
+                }
+            }
 
-            if comp_search
-                .queue()
-                .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(query.to()))
-                .unwrap_or(true)
-            {
-                break;
+            let dist = *comp_search.tentative_distance(query.to());
+            if min_skipped_key < dist && min_key < dist {
+                // the potentials are not necessarily consistent, so there might be a better path through the skipped nodes
+                min_key = dist;
+                continue;
             }
-        }
 
-        report!("num_queue_pops", num_queue_pops);
-        report!("num_queue_pushs", pushs + comp_search.num_queue_pushs());
-        report!("num_relaxed_arcs", relaxed + comp_search.num_relaxed_arcs());
-        potential.report_stats();
+            report!("num_queue_pops", num_queue_pops);
+            report!("num_queue_pushs", pushs + comp_search.num_queue_pushs());
+            report!("num_relaxed_arcs", relaxed + comp_search.num_relaxed_arcs());
+            potential.report_stats();
 
-        let dist = *comp_search.tentative_distance(query.to());
-        if dist < INFINITY {
-            Some(dist - departure)
-        } else {
-            None
+            return if dist < INFINITY { Some(dist - departure) } else { None };
         }
     }
 
@@ -396,7 +420,7 @@ where
     ) -> Option<Weight> {
         let mut dijkstra = TopoDijkstraRun::query(&self.graph, &mut self.dijkstra_data, &mut self.ops, DijkstraInit::from_query(&query));
         self.potential.init(query.from(), query.to(), query.initial_state());
-        Self::distance_manually_initialized(&mut dijkstra, query, &mut self.potential, inspect, cap)
+        Self::distance_manually_initialized(&mut dijkstra, query, &mut self.potential, inspect, 0, cap)
     }
 
     fn distance_manually_initialized(
@@ -404,23 +428,24 @@ where
         query: impl GenQuery<Timestamp> + Copy,
         potential: &mut P,
         mut inspect: impl FnMut(NodeId, &TopoDijkstraRun<Graph, Ops, SKIP_DEG_2, SKIP_DEG_3>, &mut P),
+        min_key: Weight,
         cap: Weight,
     ) -> Option<Weight> {
         report!("algo", "Virtual Topocore Core Query");
         let mut num_queue_pops = 0;
 
         let departure = *dijkstra.tentative_distance(query.from());
-        let target_pot = potential.potential(query.to(), None)?;
+        potential.potential(query.to(), None)?;
 
         while let Some(node) = dijkstra.next_step_with_td_potential(|node, &dist| potential.potential(node, Some(dist))) {
             num_queue_pops += 1;
             inspect(node, dijkstra, potential);
 
+            let dist = *dijkstra.tentative_distance(query.to());
             if dijkstra
                 .queue()
                 .peek()
-                .map(|e| e.key >= *dijkstra.tentative_distance(query.to()) + target_pot || e.key > cap)
-                // .map(|e| e.key >= *dijkstra.tentative_distance(query.to()) + target_pot)
+                .map(|e| (dist < INFINITY && e.key >= min_key && e.key >= dist + potential.potential(query.to(), Some(dist)).unwrap_or(INFINITY)) || e.key > cap)
                 .unwrap_or(false)
             {
                 break;
-- 
2.43.0


From ce951fe53753d0cdd3bff298e00341ea8943d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:46 +0000
Subject: [PATCH 14/38] fix: lower bounds of the live metric ignored departures
 before live traffic ends

---
 engine/src/datastr/graph/time_dependent/graph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/graph.rs b/engine/src/datastr/graph/time_dependent/graph.rs
index 71eaa5f..b38aa1b 100644
--- a/engine/src/datastr/graph/time_dependent/graph.rs
+++ b/engine/src/datastr/graph/time_dependent/graph.rs
@@ -426,10 +426,11 @@ impl PessimisticLiveTDGraph {
     pub fn live_lower_bound(&self, edge_id: EdgeId, now: Timestamp, until: Timestamp) -> Weight {
         let ttf = self.graph.travel_time_function(edge_id);
         if let Some((live, soon)) = self.live[edge_id as usize].value() {
+            let tt_soon = ttf.eval(soon);
             if until >= soon {
-                ttf.lower_bound_in_range(soon..until)
+                // the range may be empty and does not cover the departures before `soon`
+                std::cmp::min(live, std::cmp::min(tt_soon, ttf.lower_bound_in_range(soon..until)))
             } else {
-                let tt_soon = ttf.eval(soon);
                 std::cmp::min(live, tt_soon.saturating_add(soon - until))
             }
         } else {
-- 
2.43.0


From 5663df183faf78ced79181581a1a60cc63a3776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:46 +0000
Subject: [PATCH 15/38] fix: interval minimum potentials reused estimates for
 earlier times than they are valid for

---
 engine/src/algo/td_astar.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/td_astar.rs b/engine/src/algo/td_astar.rs
index 8772970..a4684d4 100644
--- a/engine/src/algo/td_astar.rs
+++ b/engine/src/algo/td_astar.rs
@@ -1449,10 +1449,14 @@ impl<W: TDBounds> TDPotential for IntervalMinPotential<'_, W> {
         let node = self.minmax_pot.cch.node_order().rank(node);
         let min_metric_idx = self.to_bucket_idx(t.unwrap_or(self.departure));
 
+        let mut earliest_metric_idx = self.to_bucket_idx(self.departure);
+
         let mut cur_node = node;
         loop {
-            if let Some((_estimate, earliest_metric_idx)) = self.potentials[cur_node as usize].value() {
-                if earliest_metric_idx as usize <= min_metric_idx {
+            if let Some((_estimate, ancestor_earliest_metric_idx)) = self.potentials[cur_node as usize].value() {
+                if ancestor_earliest_metric_idx as usize <= min_metric_idx {
+                    // the ancestors may not be valid any earlier, so neither is anything we derive from them
+                    earliest_metric_idx = ancestor_earliest_metric_idx as usize;
                     break;
                 }
             }
@@ -1464,8 +1468,6 @@ impl<W: TDBounds> TDPotential for IntervalMinPotential<'_, W> {
             }
         }
 
-        let mut earliest_metric_idx = self.to_bucket_idx(self.departure);
-
         while let Some(node) = self.stack.pop() {
             self.num_pot_computations += 1;
 
-- 
2.43.0


From fe64ace2fd1bf73e9e47aa379acb6a65e4c88061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 16/38] fix: parallel bidirectional core query missed direct
 connections of nodes on the same chain

---
 engine/src/algo/ch_potentials/query.rs | 67 ++++++--------------------
 1 file changed, 16 insertions(+), 51 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 0538795..192ed21 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -1143,20 +1143,12 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                         fw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
                         if node == query.to() {
                             fw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
-                            return (Some(query.to()), num_queue_pops);
+                            return (meeting_node, num_queue_pops);
                         }
                     }
                 }
 
-                if meeting_node.is_some() {
-                    (meeting_node, num_queue_pops)
-                } else {
-                    if forward_dijkstra.tentative_distance(query.to()) < INFINITY {
-                        (Some(query.to()), num_queue_pops)
-                    } else {
-                        (None, num_queue_pops)
-                    }
-                }
+                (meeting_node, num_queue_pops)
             },
             || {
                 let mut bw_potential = RefCell::new(bw_potential);
@@ -1195,20 +1187,12 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                         bw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
                         if node == query.from() {
                             bw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
-                            return (Some(query.from()), num_queue_pops);
+                            return (meeting_node, num_queue_pops);
                         }
                     }
                 }
 
-                if meeting_node.is_some() {
-                    (meeting_node, num_queue_pops)
-                } else {
-                    if backward_dijkstra.tentative_distance(query.from()) < INFINITY {
-                        (Some(query.from()), num_queue_pops)
-                    } else {
-                        (None, num_queue_pops)
-                    }
-                }
+                (meeting_node, num_queue_pops)
             },
         );
 
@@ -1216,38 +1200,19 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
         report!("num_queue_pushs", forward_dijkstra.num_queue_pushs() + backward_dijkstra.num_queue_pushs());
         report!("num_relaxed_arcs", forward_dijkstra.num_relaxed_arcs() + backward_dijkstra.num_queue_pushs());
 
-        let fw_meeting = fw_meeting.map(|fw_meeting| {
-            (
-                fw_meeting,
-                self.forward_dijkstra_data.distances.get(fw_meeting as usize) + self.backward_dijkstra_data.distances.get(fw_meeting as usize),
-            )
-        });
-        let bw_meeting = bw_meeting.map(|bw_meeting| {
-            (
-                bw_meeting,
-                self.forward_dijkstra_data.distances.get(bw_meeting as usize) + self.backward_dijkstra_data.distances.get(bw_meeting as usize),
-            )
-        });
-
-        match (fw_meeting, bw_meeting) {
-            (Some((fw_meet, fw_dist)), Some((bw_meet, bw_dist))) => {
-                if fw_dist < bw_dist {
-                    self.meeting_node = fw_meet;
-                    Some(fw_dist)
-                } else {
-                    self.meeting_node = bw_meet;
-                    Some(bw_dist)
-                }
-            }
-            (Some((fw_meet, fw_dist)), None) => {
-                self.meeting_node = fw_meet;
-                Some(fw_dist)
-            }
-            (None, Some((bw_meet, bw_dist))) => {
-                self.meeting_node = bw_meet;
-                Some(bw_dist)
+        // nodes of low degree never become meeting nodes, so a path between nodes of the same chain only shows up in the labels of its ends
+        let mut tentative_distance = INFINITY;
+        for meet in [fw_meeting, bw_meeting, Some(query.to()), Some(query.from())].into_iter().flatten() {
+            let dist = self.forward_dijkstra_data.distances.get(meet as usize) + self.backward_dijkstra_data.distances.get(meet as usize);
+            if dist < tentative_distance {
+                tentative_distance = dist;
+                self.meeting_node = meet;
             }
-            _ => None,
+        }
+
+        match tentative_distance {
+            INFINITY => None,
+            dist => Some(dist),
         }
     }
 
-- 
2.43.0


From e79130bf97ecbaca208da8c1b1facd8246634857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:41 +0000
Subject: [PATCH 17/38] fix: reporting panicked when a context was opened while
 capturing

---
 engine/src/report.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/engine/src/report.rs b/engine/src/report.rs
index 682c795..160a0b5 100644
--- a/engine/src/report.rs
+++ b/engine/src/report.rs
@@ -80,6 +80,7 @@ impl Reporter {
                 swap(&mut tmp, object);
                 self.context_stack.push(ContextStackItem::Capture(tmp));
                 self.context_stack.push(ContextStackItem::Key(key));
+                self.current = CurrentReportingContext::Object(BTreeMap::new());
             }
             CurrentReportingContext::Collection(_) => {
                 panic!("Cannot create object at key in collection");
@@ -204,24 +205,29 @@ impl Reporter {
             ContextStackItem::Key(key) => {
                 let parent = self.context_stack.pop().expect("tried to pop from empty context");
 
-                if let ContextStackItem::Object(mut object) = parent {
-                    let mut prev_current = CurrentReportingContext::Object(Default::default());
-                    swap(&mut self.current, &mut prev_current);
-
-                    let prev = match prev_current {
-                        CurrentReportingContext::Object(cur_object) => object.insert(key, ReportingValue::Object(cur_object)),
-                        CurrentReportingContext::Collection(collection) => object.insert(key, ReportingValue::Collection(collection)),
-                        CurrentReportingContext::Throwaway => None,
-                        CurrentReportingContext::Capture(_) => panic!("Inconsistent context stack"),
-                    };
-                    if !cfg!(feature = "report-allow-override") {
-                        assert!(prev.is_none());
-                    }
+                let (mut object, is_capture) = match parent {
+                    ContextStackItem::Object(object) => (object, false),
+                    ContextStackItem::Capture(object) => (object, true),
+                    _ => panic!("Inconsistent context stack"),
+                };
+                let mut prev_current = CurrentReportingContext::Object(Default::default());
+                swap(&mut self.current, &mut prev_current);
 
-                    self.current = CurrentReportingContext::Object(object);
-                } else {
-                    panic!("Inconsistent context stack");
+                let prev = match prev_current {
+                    CurrentReportingContext::Object(cur_object) => object.insert(key, ReportingValue::Object(cur_object)),
+                    CurrentReportingContext::Collection(collection) => object.insert(key, ReportingValue::Collection(collection)),
+                    CurrentReportingContext::Throwaway => None,
+                    CurrentReportingContext::Capture(_) => panic!("Inconsistent context stack"),
+                };
+                if !cfg!(feature = "report-allow-override") {
+                    assert!(prev.is_none());
                 }
+
+                self.current = if is_capture {
+                    CurrentReportingContext::Capture(object)
+                } else {
+                    CurrentReportingContext::Object(object)
+                };
             }
             ContextStackItem::Collection(mut collection) => {
                 let mut prev_current = CurrentReportingContext::Object(Default::default());
-- 
2.43.0


From b8a93f75d664fe99198f1cadf42fd12c382e30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:05 +0000
Subject: [PATCH 18/38] fix: alternative routes were returned with internal
 node numbers

---
 engine/src/algo/ch_potentials/penalty.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index b7d49ca..e6510c9 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -452,6 +452,12 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                 }
             }
 
+            for alternative in &mut alternatives {
+                for node in alternative.iter_mut() {
+                    *node = self.virtual_topocore.order.node(*node);
+                }
+            }
+
             Some(alternatives)
         } else {
             None
-- 
2.43.0


From 68e69e69021af8f7fc50cd9ca2c41ca8166d1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 19/38] fix: comparisons of long alternative routes overflowed

---
 engine/src/algo/ch_potentials/penalty.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index e6510c9..08c8aec 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -210,17 +210,17 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                         .map(|&EdgeIdT(e)| alternative_graph_dijkstra.graph().graph.graph.weight()[e as usize])
                         .sum();
 
-                    if part_dist * 20 > base_dist {
+                    if part_dist as u64 * 20 > base_dist as u64 {
                         let _blocked = block_reporting();
-                        if part_dist * 20
+                        if part_dist as u64 * 20
                             <= alternative_graph_dijkstra
                                 .query(Query {
                                     from: part_start,
                                     to: part_end,
                                 })
                                 .distance()
-                                .map(|d| d * 25)
-                                .unwrap_or(INFINITY)
+                                .map(|d| d as u64 * 25)
+                                .unwrap_or(u64::MAX)
                         {
                             feasable = true;
                             alternative_graph_dijkstra.graph_mut().add_edges(new_part);
@@ -420,7 +420,7 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                     let _alt_ctxt = alternatives_ctxt.push_collection_item();
                     alternatives.push(path.clone());
                     alternative_graph_dijkstra.graph_mut().add_edges(&path_edges);
-                    report!("sharing_percent", (path_orig_len - nonshared_length) * 100 / base_dist);
+                    report!("sharing_percent", (path_orig_len - nonshared_length) as u64 * 100 / base_dist as u64);
                     report!("iteration", i);
                     report!("running_time_ms", alt_time.get_passed().as_secs_f64() * 1000.0);
 
@@ -768,7 +768,7 @@ impl<'a> PenaltyIterative<'a> {
                         .split(|&EdgeIdT(edge)| alternative_graph_dijkstra.graph().contained_edges.get(edge as usize))
                         .filter(|part| !part.is_empty())
                         .count();
-                    report!("sharing_percent", (path_orig_len - nonshared_length) * 100 / base_dist);
+                    report!("sharing_percent", (path_orig_len - nonshared_length) as u64 * 100 / base_dist as u64);
                     report!("num_differing_segments", num_differing_segments);
                     break Some(path);
                 }
-- 
2.43.0


From aaaf77af4c34d12b4b2bc12b6ef0ecd86b52d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 20/38] fix: loading PotData reported success with other data
 when the bucket mapping could not be read

---
 .../customization/ftd_for_pot.rs                     | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs b/engine/src/algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs
index b01bb02..0c3a48a 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs
@@ -65,10 +65,14 @@ impl<'a> crate::io::Reconstruct for PotData {
             bw_first_source: loader.load("bw_first_source")?,
             fw_sources: loader.load("fw_sources")?,
             bw_sources: loader.load("bw_sources")?,
-            bucket_to_metric: loader.load("bucket_to_metric").unwrap_or_else(|err| {
-                dbg!(err);
-                (0..num_buckets).collect()
-            }),
+            bucket_to_metric: match loader.load("bucket_to_metric") {
+                // data stored before buckets could be merged has no such file
+                Err(err) if err.kind() == std::io::ErrorKind::NotFound => {
+                    dbg!(err);
+                    (0..num_buckets).collect()
+                }
+                bucket_to_metric => bucket_to_metric?,
+            },
         })
     }
 }
-- 
2.43.0


From 0eb61fd8d5ebd07b00cdefa97645e07ab8d0f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 21/38] fix: overflow when comparing metrics with closed edges
 for merging

---
 engine/src/algo/metric_merging.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/metric_merging.rs b/engine/src/algo/metric_merging.rs
index f753247..ecadc1c 100644
--- a/engine/src/algo/metric_merging.rs
+++ b/engine/src/algo/metric_merging.rs
@@ -83,7 +83,7 @@ pub fn merge(metrics: &[&[Weight]], target_size: usize) -> Vec<Vec<usize>> {
                             }
                             let w1 = merged[idx1].iter().map(|&idx| metrics[idx][edge_idx]).min().unwrap();
                             let w2 = merged[idx2].iter().map(|&idx| metrics[idx][edge_idx]).min().unwrap();
-                            sum_of_squared_diffs += w1.abs_diff(w2) as u64 * w1.abs_diff(w2) as u64;
+                            sum_of_squared_diffs = sum_of_squared_diffs.saturating_add(w1.abs_diff(w2) as u64 * w1.abs_diff(w2) as u64);
                             edges_checked += 1;
                         }
                         if edges_checked as usize >= m {
-- 
2.43.0


From 3d9f38c52f1420b97585fa279156a91be1743a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 22/38] fix: CH path unpacking works on ranks and looks up
 shortcut arcs in the right direction

---
 .../src/algo/contraction_hierarchy/query.rs   | 80 +++++++++----------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/query.rs b/engine/src/algo/contraction_hierarchy/query.rs
index d28ec11..89ac269 100644
--- a/engine/src/algo/contraction_hierarchy/query.rs
+++ b/engine/src/algo/contraction_hierarchy/query.rs
@@ -91,58 +91,50 @@ impl Server {
         }
     }
 
-    // Ugly path unpacking.
-    // Should probably switch to something similar as in CCH query, which utilizes the parent pointers in the dijkstra struct.
+    // Both searches only know the ranks of the nodes, the search results are arcs of the augmented graph.
     fn path(&self, query: Query) -> Vec<NodeId> {
-        use std::collections::LinkedList;
-
-        let &(ref forward_middle_nodes, ref backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
-        let mut forwad_path = LinkedList::new();
-        forwad_path.push_front(self.meeting_node);
-
-        while *forwad_path.front().unwrap() != query.from {
-            let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-                let middle = forward_middle_nodes[self.forward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.forward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    forwad_path.push_front(node);
-                }
-            }
-        }
+        let from = self.order.rank(query.from);
+        let to = self.order.rank(query.to);
 
-        let mut backward_path = LinkedList::new();
-        backward_path.push_back(self.meeting_node);
-
-        while *backward_path.back().unwrap() != query.to {
-            let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-                let middle = backward_middle_nodes[self.backward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.backward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    backward_path.push_back(node);
-                }
-            }
+        let mut search_path = vec![self.meeting_node];
+        while *search_path.last().unwrap() != from {
+            search_path.push(self.forward_data.predecessors[*search_path.last().unwrap() as usize].0);
+        }
+        search_path.reverse();
+        while *search_path.last().unwrap() != to {
+            search_path.push(self.backward_data.predecessors[*search_path.last().unwrap() as usize].0);
         }
 
-        forwad_path.pop_back();
-        forwad_path.append(&mut backward_path);
+        let mut path = vec![from];
+        for arc in search_path.windows(2) {
+            self.unpack_arc(arc[0], arc[1], &mut path);
+        }
 
-        for node in &mut forwad_path {
+        for node in &mut path {
             *node = self.order.node(*node);
         }
 
-        forwad_path.into_iter().collect()
+        path
+    }
+
+    // Append everything after `tail` on the path represented by the arc from `tail` to `head`.
+    fn unpack_arc(&self, tail: NodeId, head: NodeId, path: &mut Vec<NodeId>) {
+        let (forward_middle_nodes, backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
+        // arcs are stored at the lower ranked end point
+        let (graph, middle_nodes, lower, upper) = if tail < head {
+            (&self.forward, forward_middle_nodes, tail, head)
+        } else {
+            (&self.backward, backward_middle_nodes, head, tail)
+        };
+        let EdgeIdT(arc) = graph.edge_indices(lower, upper).min_by_key(|&EdgeIdT(arc)| graph.link(arc).weight).unwrap();
+        let middle = middle_nodes[arc as usize];
+
+        if middle < graph.num_nodes() as NodeId {
+            self.unpack_arc(tail, middle, path);
+            self.unpack_arc(middle, head, path);
+        } else {
+            path.push(head);
+        }
     }
 }
 
-- 
2.43.0


From 634d3ad40cf0515d69ff8ea2468ee0c7ba6162cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 23/38] fix: no shortcuts over arcs of infinite weight during
 contraction

---
 engine/src/algo/contraction_hierarchy/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index f3fafcf..80222ad 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -173,6 +173,10 @@ impl ContractionGraph {
             // for all pairs of neighbors
             for &(Link { node: from, weight: from_wght }, _) in &node.incoming {
                 for &(Link { node: to, weight: to_wght }, _) in &node.outgoing {
+                    // no path over an unusable arc
+                    if from_wght + to_wght >= INFINITY {
+                        continue;
+                    }
                     // do witness search to check if we need the shortcut
                     let (shortcut_required, new_data) = subgraph.shortcut_required(from, to, from_wght + to_wght, data);
                     data = new_data;
-- 
2.43.0


From 9bb594cc9f952ca61fec9eb62e3a6bafa5ab943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 24/38] fix: farthest landmark selection ends when there is no
 further landmark to find

---
 engine/src/algo/alt.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/algo/alt.rs b/engine/src/algo/alt.rs
index b27f7f5..7a9af3f 100644
--- a/engine/src/algo/alt.rs
+++ b/engine/src/algo/alt.rs
@@ -197,6 +197,11 @@ impl ALTPotData {
                     last_node = node;
                 }
 
+                // every node within reach is at distance zero of a landmark already
+                if landmarks.contains(&last_node) {
+                    break;
+                }
+
                 dijkstra.initialize(DijkstraInit::from(last_node));
                 for &l in &landmarks {
                     dijkstra.add_start_node(DijkstraInit::from(l))
-- 
2.43.0


From ffbb0b984e0066adc164f40c0c5c4fb172b76312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 25/38] fix: hub labels are not extended over arcs of infinite
 weight

---
 engine/src/algo/hl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/hl.rs b/engine/src/algo/hl.rs
index 506e44e..d2a8fc8 100644
--- a/engine/src/algo/hl.rs
+++ b/engine/src/algo/hl.rs
@@ -27,13 +27,13 @@ impl HubLabels {
             self.outgoing[node].push((node as NodeId, 0));
             self.incoming[node].push((node as NodeId, 0));
 
-            for link in LinkIterable::<Link>::link_iter(up, node as NodeId) {
+            for link in LinkIterable::<Link>::link_iter(up, node as NodeId).filter(|link| link.weight < INFINITY) {
                 let (out_remaining, out_done) = self.outgoing.split_at_mut(node + 1);
                 let cur_out = out_remaining.last_mut().unwrap();
                 cur_out.extend(out_done[link.node as usize - node - 1].iter().map(|&(hub, weight)| (hub, weight + link.weight)));
             }
 
-            for link in LinkIterable::<Link>::link_iter(down, node as NodeId) {
+            for link in LinkIterable::<Link>::link_iter(down, node as NodeId).filter(|link| link.weight < INFINITY) {
                 let (in_remaining, in_done) = self.incoming.split_at_mut(node + 1);
                 let cur_in = in_remaining.last_mut().unwrap();
                 cur_in.extend(in_done[link.node as usize - node - 1].iter().map(|&(hub, weight)| (hub, weight + link.weight)));
-- 
2.43.0


From 67bf803487387bf1ebd8744d7c3d5d71e58d8127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 26/38] fix: bucket CH search does not duplicate terminals over
 arcs of infinite weight

---
 engine/src/algo/ch_potentials.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 3f0d434..1d1a3d5 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -689,10 +689,12 @@ where
 
             for (NodeIdT(low_neighbor), weight) in self.incoming[node as usize].drain(..) {
                 for &(terminal, dist) in &self.distances[low_neighbor as usize] {
-                    if self.terminal_dists[terminal as usize] == INFINITY {
-                        self.used_terminals.push(NodeIdT(terminal));
+                    if dist + weight < self.terminal_dists[terminal as usize] {
+                        if self.terminal_dists[terminal as usize] == INFINITY {
+                            self.used_terminals.push(NodeIdT(terminal));
+                        }
+                        self.terminal_dists[terminal as usize] = dist + weight;
                     }
-                    self.terminal_dists[terminal as usize] = std::cmp::min(self.terminal_dists[terminal as usize], dist + weight);
                 }
             }
 
-- 
2.43.0


From 4b91a9989c0f3614effa8e1c7616154e0277591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 27/38] fix: bucket nearest neighbor queries do not return
 unreachable targets

---
 .../query/nearest_neighbor.rs                                  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 037ea23..496b766 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -215,7 +215,8 @@ impl<'a> BCCHNearestNeighbor<'a> {
                 for &(target, bw_dist) in self.selection_data.buckets(node).iter().take(k) {
                     let dist = fw_dist + bw_dist;
 
-                    if dist >= self.closest_targets.peek().map(|&Reverse((d, _))| d).unwrap_or(INFINITY) && self.closest_targets.len() >= k {
+                    // not reachable or not closer
+                    if dist >= INFINITY || dist >= self.closest_targets.peek().map(|&Reverse((d, _))| d).unwrap_or(INFINITY) && self.closest_targets.len() >= k {
                         break;
                     }
 
-- 
2.43.0


From c00e86f81a337914d8a6a16d0c7e512677827938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 28/38] fix: separator based nearest neighbor queries search
 the cell of the source even if its boundary is far away

---
 .../query/nearest_neighbor.rs                              | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 496b766..702d9df 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -35,7 +35,8 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
     }
 
     fn query(&mut self, source: NodeId, k: usize) -> Vec<(Weight, NodeId)> {
-        self.one_to_many.init(source);
+        let source = self.cch.node_order().rank(source);
+        self.one_to_many.init_with_cch_rank(source);
 
         if k < self.targets.len() {
             self.stack.push((0, self.cch.separators()));
@@ -100,7 +101,9 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
                 for child in &cell.children {
                     let top_cell_node = child.nodes.highest_ranked_node().unwrap();
                     let top_node_out_edges = self.cch.neighbor_edge_indices_usize(top_cell_node);
-                    let mut lower_bound_dist = INFINITY;
+                    // paths to targets in the cell of the source do not have to cross its boundary
+                    let source_in_cell = source <= top_cell_node && source + child.num_nodes as NodeId > top_cell_node;
+                    let mut lower_bound_dist = if source_in_cell { 0 } else { INFINITY };
                     for &boundary in &self.cch.head()[top_node_out_edges] {
                         lower_bound_dist = std::cmp::min(lower_bound_dist, self.one_to_many.potential_with_cch_rank(boundary).unwrap_or(INFINITY));
                     }
-- 
2.43.0


From 1696b29626109cb4822ab9539ddb268c59be0f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 29/38] fix: AveragePotential keeps forward and backward keys
 complementary (no clipping)

---
 engine/src/algo/a_star.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/engine/src/algo/a_star.rs b/engine/src/algo/a_star.rs
index ed1313a..d409575 100644
--- a/engine/src/algo/a_star.rs
+++ b/engine/src/algo/a_star.rs
@@ -297,27 +297,29 @@ impl<PF: Potential, PB: Potential, const IP: bool> AveragePotential<PF, PB, IP>
     }
 }
 
-use std::cmp::max;
 impl<PF: Potential, PB: Potential, const IP: bool> BiDirPotential for AveragePotential<PF, PB, IP> {
     fn init(&mut self, source: NodeId, target: NodeId) {
         self.forward_potential.init(target);
         self.backward_potential.init(source);
 
-        self.fw_add = (self.backward_potential.potential(target).unwrap_or(INFINITY) / 2) as i32;
-        self.bw_add = (self.forward_potential.potential(source).unwrap_or(INFINITY) / 2) as i32;
-        self.mu_add = self.potential(source).map(|p| (p + self.fw_add) as Weight).unwrap_or(0);
+        // |potential| <= INFINITY / 2, so with these offsets no key gets negative.
+        // Keys must not be clipped: the stopping criterion relies on
+        // the forward and the backward potential of every node summing up to the same constant.
+        self.fw_add = (INFINITY / 2) as i32;
+        self.bw_add = (INFINITY / 2) as i32;
+        self.mu_add = (self.fw_add + self.bw_add) as Weight;
     }
     fn stop(&mut self, fw_min_queue: Option<Weight>, bw_min_queue: Option<Weight>, stop_dist: Weight) -> bool {
         match (fw_min_queue, bw_min_queue) {
-            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue + bw_min_queue >= stop_dist + self.mu_add,
+            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue as u64 + bw_min_queue as u64 >= stop_dist as u64 + self.mu_add as u64,
             _ => true,
         }
     }
     fn forward_potential(&mut self, node: NodeId) -> Option<Weight> {
-        self.potential(node).map(|p| max(p + self.fw_add, 0) as Weight)
+        self.potential(node).map(|p| (p + self.fw_add) as Weight)
     }
     fn backward_potential(&mut self, node: NodeId) -> Option<Weight> {
-        self.potential(node).map(|p| max(self.bw_add - p, 0) as Weight)
+        self.potential(node).map(|p| (self.bw_add - p) as Weight)
     }
     fn forward_potential_raw(&mut self, node: NodeId) -> Option<Weight> {
         self.forward_potential.potential(node)
-- 
2.43.0


From baece8fdbd254d53cf118856dfa0c0b04e996afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:21 +0000
Subject: [PATCH 30/38] fix: bidirectional A* with alternating directions
 returned the label of the target even if the searches had met on a shorter
 path

---
 engine/src/algo/ch_potentials/query.rs           |  8 ++++----
 .../dijkstra/query/bidirectional_dijkstra.rs     | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 192ed21..7d496ae 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -926,8 +926,8 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                     ) {
                         num_queue_pops += 1;
                         if node == query.to() {
-                            *meeting_node = query.to();
-                            return Some(*forward_dijkstra.tentative_distance(query.to()));
+                            // the searches might already have met on a shorter path
+                            break;
                         }
                     }
                 } else {
@@ -957,8 +957,8 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirSkipLowDegRunner<P, D> {
                     ) {
                         num_queue_pops += 1;
                         if node == query.from() {
-                            *meeting_node = query.from();
-                            return Some(*backward_dijkstra.tentative_distance(query.from()));
+                            // the searches might already have met on a shorter path
+                            break;
                         }
                     }
                 }
diff --git a/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs b/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
index 5956aac..76980d7 100644
--- a/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
+++ b/engine/src/algo/dijkstra/query/bidirectional_dijkstra.rs
@@ -90,8 +90,12 @@ impl<G: LinkIterGraph, H: LinkIterGraph, P: BiDirPotential, D: BidirChooseDir> S
                         num_queue_pops += 1;
                         inspect(node, *forward_dijkstra.tentative_distance(node), &mut potential.borrow_mut());
                         if node == to {
-                            *meeting_node = to;
-                            return Some(*forward_dijkstra.tentative_distance(to));
+                            // the searches might already have met on a shorter path
+                            if *forward_dijkstra.tentative_distance(to) < tentative_distance {
+                                tentative_distance = *forward_dijkstra.tentative_distance(to);
+                                *meeting_node = to;
+                            }
+                            break;
                         }
                     }
                 } else {
@@ -116,8 +120,12 @@ impl<G: LinkIterGraph, H: LinkIterGraph, P: BiDirPotential, D: BidirChooseDir> S
                         num_queue_pops += 1;
                         inspect(node, *backward_dijkstra.tentative_distance(node), &mut potential.borrow_mut());
                         if node == from {
-                            *meeting_node = from;
-                            return Some(*backward_dijkstra.tentative_distance(from));
+                            // the searches might already have met on a shorter path
+                            if *backward_dijkstra.tentative_distance(from) < tentative_distance {
+                                tentative_distance = *backward_dijkstra.tentative_distance(from);
+                                *meeting_node = from;
+                            }
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From 2cf4a2cd26b21251c17f79020f8dd0af527636ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:59 +0000
Subject: [PATCH 31/38] fix: contraction with parallel arcs failed an assertion
 when a shortcut shortened only one of them

---
 engine/src/algo/contraction_hierarchy/mod.rs | 41 ++++++--------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index 80222ad..4505110 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -108,36 +108,19 @@ impl ContractionGraph {
         // - translate the node ids
         // - create the struct we use during preprocessing
         let nodes = {
-            let outs = (0..n).map(|node| {
-                graph
-                    .link_iter(order.node(node as NodeId))
-                    .filter(|&Link { node: head, .. }| head != order.node(node as NodeId))
-                    .map(|Link { node, weight }| {
-                        (
-                            Link {
-                                node: order.rank(node),
-                                weight,
-                            },
-                            n as NodeId,
-                        )
-                    })
-                    .collect()
-            });
+            // of parallel arcs only the shortest one is kept
+            let translate = |node: NodeId, links: &mut dyn Iterator<Item = Link>| -> Vec<(Link, NodeId)> {
+                let mut translated = Vec::new();
+                for Link { node: head, weight } in links {
+                    if head != order.node(node) {
+                        Node::insert_or_decrease(&mut translated, order.rank(head), weight, n as NodeId);
+                    }
+                }
+                translated
+            };
             let reversed = OwnedGraph::reversed(graph);
-            let ins = (0..n).map(|node| {
-                LinkIterable::<Link>::link_iter(&reversed, order.node(node as NodeId))
-                    .filter(|&Link { node: head, .. }| head != order.node(node as NodeId))
-                    .map(|Link { node, weight }| {
-                        (
-                            Link {
-                                node: order.rank(node),
-                                weight,
-                            },
-                            n as NodeId,
-                        )
-                    })
-                    .collect()
-            });
+            let outs = (0..n as NodeId).map(|node| translate(node, &mut graph.link_iter(order.node(node))));
+            let ins = (0..n as NodeId).map(|node| translate(node, &mut LinkIterable::<Link>::link_iter(&reversed, order.node(node))));
             outs.zip(ins).map(|(outgoing, incoming)| Node { outgoing, incoming }).collect()
         };
 
-- 
2.43.0


From 197bb243157f8f71f2918b74356c7500349fde21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 32/38] fix: parallel bidirectional search lost meeting nodes
 on real hardware (store buffering)

---
 engine/src/algo/ch_potentials/query.rs   | 16 ++++++++--------
 engine/src/datastr/timestamped_vector.rs |  6 ++++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 7d496ae..ee5c638 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -1115,7 +1115,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
 
                 while !fw_potential.get_mut().stop_forward(
                     forward_dijkstra.queue().peek().map(|q| q.key),
-                    Some(bw_progress.load(std::sync::atomic::Ordering::Relaxed)),
+                    Some(bw_progress.load(std::sync::atomic::Ordering::Acquire)),
                     stop_dist,
                 ) {
                     if let Some(node) = forward_dijkstra.next_with_improve_callback_and_potential(
@@ -1126,7 +1126,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                                     return false;
                                 }
                             }
-                            if pot.prune_forward(NodeIdT(head), dist, bw_progress.load(std::sync::atomic::Ordering::Relaxed), stop_dist) {
+                            if pot.prune_forward(NodeIdT(head), dist, bw_progress.load(std::sync::atomic::Ordering::Acquire), stop_dist) {
                                 return false;
                             }
                             fw_tentative_distance = min(fw_tentative_distance, dist + fw_reverse_dist.get(head as usize));
@@ -1140,9 +1140,9 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                     ) {
                         num_queue_pops += 1;
                         let prog = forward_dijkstra.queue().peek().map_or(INFINITY, |p| p.key);
-                        fw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
+                        fw_progress.store(prog, std::sync::atomic::Ordering::Release);
                         if node == query.to() {
-                            fw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
+                            fw_progress.store(INFINITY, std::sync::atomic::Ordering::Release);
                             return (meeting_node, num_queue_pops);
                         }
                     }
@@ -1158,7 +1158,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                 let mut stop_dist = cap;
 
                 while !bw_potential.get_mut().stop_backward(
-                    Some(fw_progress.load(std::sync::atomic::Ordering::Relaxed)),
+                    Some(fw_progress.load(std::sync::atomic::Ordering::Acquire)),
                     backward_dijkstra.queue().peek().map(|q| q.key),
                     stop_dist,
                 ) {
@@ -1170,7 +1170,7 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                                     return false;
                                 }
                             }
-                            if pot.prune_backward(NodeIdT(head), dist, fw_progress.load(std::sync::atomic::Ordering::Relaxed), stop_dist) {
+                            if pot.prune_backward(NodeIdT(head), dist, fw_progress.load(std::sync::atomic::Ordering::Acquire), stop_dist) {
                                 return false;
                             }
                             bw_tentative_distance = min(bw_tentative_distance, dist + bw_reverse_dist.get(head as usize));
@@ -1184,9 +1184,9 @@ impl<P: BiDirPotential + Clone + Send> MultiThreadedBiDirSkipLowDegServer<P> {
                     ) {
                         num_queue_pops += 1;
                         let prog = backward_dijkstra.queue().peek().map_or(INFINITY, |p| p.key);
-                        bw_progress.store(prog, std::sync::atomic::Ordering::Relaxed);
+                        bw_progress.store(prog, std::sync::atomic::Ordering::Release);
                         if node == query.from() {
-                            bw_progress.store(INFINITY, std::sync::atomic::Ordering::Relaxed);
+                            bw_progress.store(INFINITY, std::sync::atomic::Ordering::Release);
                             return (meeting_node, num_queue_pops);
                         }
                     }
diff --git a/engine/src/datastr/timestamped_vector.rs b/engine/src/datastr/timestamped_vector.rs
index f66e0a0..e91714c 100644
--- a/engine/src/datastr/timestamped_vector.rs
+++ b/engine/src/datastr/timestamped_vector.rs
@@ -165,12 +165,14 @@ impl AtomicDists {
         }
     }
 
+    /// Two searches that set the same index and then look at each other's value must not both miss the value of the other,
+    /// so `set` and `get` need to be sequentially consistent.
     pub fn set(&self, index: usize, value: Weight) {
-        self.data[index].store(from_pair((value, self.current)), Ordering::Relaxed);
+        self.data[index].store(from_pair((value, self.current)), Ordering::SeqCst);
     }
 
     pub fn get(&self, index: usize) -> Weight {
-        let (w, ts) = to_pair(self.data[index].load(Ordering::Relaxed));
+        let (w, ts) = to_pair(self.data[index].load(Ordering::SeqCst));
         if ts == self.current {
             w
         } else {
-- 
2.43.0


From 5e6042752463e05ed41088e3024e477b878181d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 33/38] fix: do not skip chains when detours are blocked

The heuristics recognize a blocked route by the parents of a node at the
moment its arc is relaxed. With skipped low degree nodes, arcs are relaxed
before the parents are final: a later improvement of a parent turned the
reported route into the blocked one again, and the query iterated on it
until the time limit.
---
 engine/src/algo/traffic_aware.rs                | 5 +++--
 engine/src/algo/traffic_aware/td_live.rs        | 5 +++--
 engine/src/algo/traffic_aware/time_dependent.rs | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/engine/src/algo/traffic_aware.rs b/engine/src/algo/traffic_aware.rs
index 35d743e..c3bde71 100644
--- a/engine/src/algo/traffic_aware.rs
+++ b/engine/src/algo/traffic_aware.rs
@@ -521,7 +521,8 @@ use crate::algo::ch_potentials::query::Server as TopoDijkServer;
 
 pub struct HeuristicTrafficAwareServer<'a> {
     ubs_checker: MinimalNonShortestSubPaths<'a>,
-    shortest_path: TopoDijkServer<OwnedGraph, BlockedDetoursDijkstra<DefaultOpsByEdgeId>, RecyclingPotential<BorrowedCCHPot<'a>>, true, true, true>,
+    // chains may not be skipped: detours are recognized by the parents of a node, which have to be final when its arcs are relaxed
+    shortest_path: TopoDijkServer<OwnedGraph, BlockedDetoursDijkstra<DefaultOpsByEdgeId>, RecyclingPotential<BorrowedCCHPot<'a>>, true, false, false>,
 }
 
 impl<'a> HeuristicTrafficAwareServer<'a> {
@@ -530,7 +531,7 @@ impl<'a> HeuristicTrafficAwareServer<'a> {
         let _blocked = block_reporting();
         Self {
             ubs_checker: MinimalNonShortestSubPaths::new(smooth_cch_pot, smooth_graph),
-            shortest_path: TopoDijkServer::new(
+            shortest_path: TopoDijkServer::new_custom(
                 &live_graph,
                 RecyclingPotential::new(live_cch_pot.forward_potential()),
                 BlockedDetoursDijkstra::new(n, DefaultOpsByEdgeId()),
diff --git a/engine/src/algo/traffic_aware/td_live.rs b/engine/src/algo/traffic_aware/td_live.rs
index b5b0882..57b9708 100644
--- a/engine/src/algo/traffic_aware/td_live.rs
+++ b/engine/src/algo/traffic_aware/td_live.rs
@@ -153,8 +153,9 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
 
 pub struct HeuristicTDTrafficAwareServer<'a, P> {
     ubs_checker: MinimalNonShortestSubPaths<'a>,
+    // chains may not be skipped: detours are recognized by the parents of a node, which have to be final when its arcs are relaxed
     shortest_path:
-        TDTopoDijkServer<PessimisticLiveTDGraph, BlockedDetoursDijkstra<PessimisticLiveTDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, true, true>,
+        TDTopoDijkServer<PessimisticLiveTDGraph, BlockedDetoursDijkstra<PessimisticLiveTDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, false, false>,
 }
 
 impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
@@ -163,7 +164,7 @@ impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
         let _blocked = block_reporting();
         Self {
             ubs_checker: MinimalNonShortestSubPaths::new(smooth_cch_pot, smooth_graph),
-            shortest_path: TDTopoDijkServer::new(
+            shortest_path: TDTopoDijkServer::new_custom(
                 live_graph,
                 td_astar::TDRecyclingPotential::new(live_cch_pot),
                 BlockedDetoursDijkstra::new(n, PessimisticLiveTDDijkstraOps()),
diff --git a/engine/src/algo/traffic_aware/time_dependent.rs b/engine/src/algo/traffic_aware/time_dependent.rs
index a640a3a..accf7cb 100644
--- a/engine/src/algo/traffic_aware/time_dependent.rs
+++ b/engine/src/algo/traffic_aware/time_dependent.rs
@@ -153,7 +153,8 @@ impl<'a, P: TDPotential> TDTrafficAwareServer<'a, P> {
 
 pub struct HeuristicTDTrafficAwareServer<'a, P> {
     ubs_checker: MinimalNonShortestSubPaths<'a>,
-    shortest_path: TDTopoDijkServer<TDGraph, BlockedDetoursDijkstra<TDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, true, true>,
+    // chains may not be skipped: detours are recognized by the parents of a node, which have to be final when its arcs are relaxed
+    shortest_path: TDTopoDijkServer<TDGraph, BlockedDetoursDijkstra<TDDijkstraOps>, td_astar::TDRecyclingPotential<P>, true, false, false>,
 }
 
 impl<'a> HeuristicTDTrafficAwareServer<'a, BorrowedCCHPot<'a>> {}
@@ -164,7 +165,7 @@ impl<'a, P: td_astar::TDPotential> HeuristicTDTrafficAwareServer<'a, P> {
         let _blocked = block_reporting();
         Self {
             ubs_checker: MinimalNonShortestSubPaths::new(smooth_cch_pot, smooth_graph),
-            shortest_path: TDTopoDijkServer::new(
+            shortest_path: TDTopoDijkServer::new_custom(
                 live_graph,
                 td_astar::TDRecyclingPotential::new(live_cch_pot),
                 BlockedDetoursDijkstra::new(n, TDDijkstraOps()),
-- 
2.43.0


From d9e3960cbee3b76cca6a174a4ca4de3561e43dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:38 +0000
Subject: [PATCH 34/38] fix: inverse evaluation past the end of the day

---
 .../graph/floating_time_dependent/piecewise_linear_function.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 8f6d023..76a8a5d 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -104,7 +104,7 @@ impl<'a> PLF for PeriodicPiecewiseLinearFunction<'a> {
             }
         });
 
-        p + match pos {
+        p * FlWeight::from(period()) + match pos {
             Ok(i) => unsafe { self.ipps.get_unchecked(i).at },
             Err(i) => {
                 let prev = unsafe { self.ipps.get_unchecked(i - 1) };
-- 
2.43.0


From a77f53ce506f4998389ea10c052285ceb8143e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:12 +0000
Subject: [PATCH 35/38] fix: keep switchpoints in order where waiting makes no
 difference

---
 .../graph/floating_time_dependent/shortcut_source.rs   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs b/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
index 2a2b062..198b5f6 100644
--- a/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/shortcut_source.rs
@@ -380,7 +380,8 @@ impl ShortcutSource {
                 loop {
                     match (first_iter.peek(), second_iter.peek()) {
                         (Some(first), Some(second)) => {
-                            let second_dt = shortcut_graph.original_graph().inverse_evaluate_path(&first_cur.1, second.0);
+                            // when waiting makes no difference, the inverse is ambiguous and could otherwise lie before the current switchpoint
+                            let second_dt = max(first_cur.0, shortcut_graph.original_graph().inverse_evaluate_path(&first_cur.1, second.0));
                             if first.0.fuzzy_lt(second_dt) {
                                 switchpoints.push((
                                     first.0,
@@ -414,7 +415,8 @@ impl ShortcutSource {
                             first_iter.next();
                         }
                         (None, Some(second)) => {
-                            let second_dt = shortcut_graph.original_graph().inverse_evaluate_path(&first_cur.1, second.0);
+                            // when waiting makes no difference, the inverse is ambiguous and could otherwise lie before the current switchpoint
+                            let second_dt = max(first_cur.0, shortcut_graph.original_graph().inverse_evaluate_path(&first_cur.1, second.0));
                             switchpoints.push((
                                 second_dt,
                                 first_cur.1.iter().copied().chain(second.1.iter().copied()).collect(),
@@ -554,8 +556,8 @@ impl Sources for [(Timestamp, ShortcutSourceData)] {
                 ShortcutSource::from(c.cur().1).get_switchpoints(max(start, c.cur().0), min(end, c.next().0), shortcut_graph);
 
             if switchpoints.last().unwrap().1 == cur_switchpoints.first().unwrap().1 {
-                cur_switchpoints.first_mut().unwrap().0 = switchpoints.last().unwrap().0;
-                switchpoints.pop();
+                // same path, so keep the earlier switchpoint, including the weight at that point in time
+                cur_switchpoints[0] = switchpoints.pop().unwrap();
             }
             switchpoints.append(&mut cur_switchpoints);
             last_weight = end_weight;
-- 
2.43.0


From 81c7dc80c025c25f5dea7d09ae2eb6073099da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 36/38] fix: bidirectional queries lost routes to nodes outside
 the core

Stopping and pruning conclude from the queue of the other search what it can
still reach, which is wrong when that search can not leave the core.
---
 engine/src/algo/ch_potentials/query.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index ee5c638..8733af8 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -654,11 +654,13 @@ impl<P: BiDirPotential, D: BidirChooseDir> BiDirServer<P, D> {
     pub fn new<G>(graph: &G, potential: P) -> Self
     where
         G: LinkIterable<NodeIdT>,
-        OwnedGraph: BuildReversed<G>,
         OwnedGraph: BuildPermutated<G>,
     {
         let n = graph.num_nodes();
-        let (fw, bw, virtual_topocore) = VirtualTopocoreGraph::new_bidir_graphs(graph);
+        // Both searches have to see the entire graph: when they can not leave the core, stopping and pruning
+        // (which conclude from the queue of the other search what it can still reach) lose routes to nodes outside of it.
+        let (fw, _, virtual_topocore) = VirtualTopocoreGraph::<OwnedGraph>::new(graph);
+        let bw = VirtualTopocoreGraph::<OwnedGraph>::reversed(&fw);
         Self {
             runner: BiDirSkipLowDegRunner {
                 forward_graph: fw,
-- 
2.43.0


From 8ac43b6a5bcfe1d7886092506acf374e3fcc51d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 37/38] fix: time-dependent Dijkstra server returned the
 arrival instead of the travel time

---
 engine/src/algo/dijkstra/query/dijkstra.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/algo/dijkstra/query/dijkstra.rs b/engine/src/algo/dijkstra/query/dijkstra.rs
index 7d064a4..13962e8 100644
--- a/engine/src/algo/dijkstra/query/dijkstra.rs
+++ b/engine/src/algo/dijkstra/query/dijkstra.rs
@@ -46,6 +46,7 @@ where
     fn distance(&mut self, query: impl GenQuery<Weight>) -> Option<Weight> {
         report!("algo", "Dijkstra Query");
         let to = query.to();
+        let departure = query.initial_state();
         let mut ops = Ops::default();
         let mut dijkstra = DijkstraRun::query(self.graph.borrow(), &mut self.dijkstra, &mut ops, DijkstraInit::from_query(&query));
         self.potential.init(to);
@@ -57,7 +58,7 @@ where
         while let Some(node) = dijkstra.next_step_with_potential(|node| potential.potential(node)) {
             num_queue_pops += 1;
             if node == to {
-                result = Some(*dijkstra.tentative_distance(node));
+                result = Some(*dijkstra.tentative_distance(node) - departure);
                 break;
             }
         }
-- 
2.43.0


From c1372858cdf669216e8d7070d424d4c0270ef067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:50 +0000
Subject: [PATCH 38/38] fix: averages over time windows past the end of the day

The second part of a wrapped window was not moved into the period, so that the preprocessing of the time-dependent sampling always
panicked. Constant functions have a single point and no segments, their average was 0. Segments that are only partially within
the window contributed the values of their ends rather than those at the bounds of the window.
---
 .../time_dependent/piecewise_linear_function.rs      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 00c3b23..06bb58d 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -30,14 +30,20 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     /// Calculate average Weight over a given time range.
     pub fn average(&self, range: WrappingRange) -> Weight {
+        if let &[const_tt] = self.travel_time {
+            return const_tt;
+        }
+
         let monotone_range = range.monotonize();
         let total_time = monotone_range.end - monotone_range.start;
-        let (first_range, second_range) = monotone_range.split(period());
+        let (first_range, mut second_range) = monotone_range.split(period());
+        second_range.start %= period();
+        second_range.end %= period();
         let mut sum: u64 = 0;
         for seg in self.non_wrapping_seg_iter(first_range).chain(self.non_wrapping_seg_iter(second_range)) {
             let delta = seg.valid.end - seg.valid.start;
-            sum += u64::from(seg.line.line().from.val) * u64::from(delta);
-            sum += u64::from(seg.line.line().to.val) * u64::from(delta);
+            sum += u64::from(self.evaluate(seg.valid.start)) * u64::from(delta);
+            sum += u64::from(self.evaluate(seg.valid.end)) * u64::from(delta);
         }
         (sum / 2 / u64::from(total_time)) as Weight
     }
-- 
2.43.0

