From f141a96558a2297987147d01a0dafe14f5953110 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 01/53] fix: reject node ids of other graphs

`!a == b` parses as `(!a) == b`, so ids belonging to another graph were never rejected
---
 knaster_graph/src/graph.rs      | 14 +++++++-------
 knaster_graph/src/graph_edit.rs |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 57ae3e8..ff3a05a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -504,13 +504,13 @@ impl<F: Float> Graph<F> {
     ) -> Result<(), GraphError> {
         let source = source.into();
         let sink = sink.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -572,7 +572,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
@@ -635,14 +635,14 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -732,7 +732,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -1353,7 +1353,7 @@ impl<F: Float> Graph<F> {
         t: impl Into<Time>,
     ) -> Result<(), GraphError> {
         let node_id = node.into();
-        if !node_id.graph == self.graph_id {
+        if node_id.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: node_id.graph,
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index f3e1202..8caabf8 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -160,7 +160,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
     pub fn free_node(&self, node: impl Into<NodeId>) -> Result<(), GraphError> {
         let node = node.into();
         let graph_id = self.graph.read().graph_id();
-        if !node.graph == graph_id {
+        if node.graph != graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: graph_id,
                 found_graph: node.graph,
-- 
2.43.0


From 93d4d15349055aacce8d1450975c893180d240f1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 02/53] fix: treat freed nodes as missing

A freed node stays among the nodes until the audio thread has let go of it, but its edges are
gone, so referring to it panicked or succeeded silently.
---
 knaster_graph/src/graph.rs | 52 ++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index ff3a05a..0ab044d 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -343,7 +343,7 @@ impl<F: Float> Graph<F> {
     /// Get a metadata for a node with the given [`NodeId`] if it exists.
     pub fn node_data(&self, id: impl Into<NodeId>) -> Option<NodeData> {
         let node_id = id.into();
-        if node_id.graph != self.graph_id {
+        if node_id.graph != self.graph_id || !self.node_exists(node_id.key()) {
             return None;
         }
         self.get_nodes().get(node_id.key()).map(|node| node.data)
@@ -353,7 +353,7 @@ impl<F: Float> Graph<F> {
         let name = name.into();
         self.get_nodes()
             .iter()
-            .find(|node| node.1.name == name)
+            .find(|node| node.1.name == name && self.node_exists(node.0))
             .map(|node| {
                 (
                     NodeId {
@@ -433,6 +433,10 @@ impl<F: Float> Graph<F> {
     ///
     /// The name can be used to recover a handle to the node and will be displayed in any [`GraphInspection`]
     pub fn set_name(&mut self, node_id: NodeId, name: EcoString) {
+        if node_id.graph != self.graph_id || !self.node_exists(node_id.key()) {
+            log::error!("Tried to set the name of a node which is not in the graph: {node_id:?}");
+            return;
+        }
         self.get_nodes_mut()[node_id.key()].name = name;
     }
 
@@ -440,7 +444,7 @@ impl<F: Float> Graph<F> {
     pub fn node_id_with_name(&self, name: impl AsRef<str>) -> Option<NodeId> {
         let name = name.as_ref();
         for (id, node) in self.get_nodes() {
-            if node.name == name {
+            if node.name == name && self.node_exists(id) {
                 return Some(NodeId {
                     key: id,
                     graph: self.graph_id,
@@ -518,13 +522,13 @@ impl<F: Float> Graph<F> {
         }
 
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.node_exists(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
-        if !nodes.contains_key(sink.key()) {
+        if !self.node_exists(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -582,7 +586,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphOutputOutOfBounds(sink_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.node_exists(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -669,7 +673,7 @@ impl<F: Float> Graph<F> {
             }
         };
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.node_exists(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -742,7 +746,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphInputOutOfBounds(source_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(sink.key()) {
+        if !self.node_exists(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -1009,7 +1013,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(source_node.key()) {
+                if !self.node_exists(source_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let key = source_node.key();
@@ -1066,7 +1070,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(sink_node.key()) {
+                if !self.node_exists(sink_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let edges = &mut self.node_input_edges[sink_node.key()];
@@ -1359,13 +1363,13 @@ impl<F: Float> Graph<F> {
                 found_graph: node_id.graph,
             });
         }
-        let nodes = self.get_nodes();
-        let Some(node) = nodes.get(node_id.key()) else {
+        if !self.node_exists(node_id.key()) {
             return Err(GraphError::NodeNotFound);
-        };
+        }
+        let node = &self.get_nodes()[node_id.key()];
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
-                if param_i as u16 >= node.data.parameters {
+                if param_i >= node.data.parameters as usize {
                     return Err(ParameterError::ParameterIndexOutOfBounds.into());
                 } else {
                     param_i
@@ -2065,6 +2069,11 @@ impl<F: Float> Graph<F> {
         // dbg!(&self.node_order);
         // dbg!(&self.disconnected_nodes);
     }
+    /// True if the node is in the graph and has not been freed. Freed nodes linger among the nodes
+    /// until the audio thread has let go of them, but they have no edges.
+    fn node_exists(&self, key: NodeKey) -> bool {
+        self.node_input_edges.contains_key(key)
+    }
     fn get_nodes(&self) -> &SlotMap<NodeKey, Node<F>> {
         unsafe { &*self.nodes.get() }
     }
@@ -2085,12 +2094,17 @@ impl<F: Float> Graph<F> {
         mortality: bool,
     ) -> Result<(), GraphError> {
         let node = node.into();
-        if let Some(m) = self.node_mortality.get_mut(node.key()) {
-            *m = mortality;
-            Ok(())
-        } else {
-            Err(GraphError::NodeNotFound)
+        if node.graph != self.graph_id {
+            return Err(GraphError::WrongSinkNodeGraph {
+                expected_graph: self.graph_id,
+                found_graph: node.graph,
+            });
         }
+        if !self.node_exists(node.key()) {
+            return Err(GraphError::NodeNotFound);
+        }
+        self.node_mortality[node.key()] = mortality;
+        Ok(())
     }
     /// Number of input channels going into this graph.
     pub fn inputs(&self) -> u16 {
-- 
2.43.0


From 317813e114004cea9eacbe1500e2b6fc1cb6bbfc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 03/53] fix: validate and commit parameter connections

Connecting to a parameter did not check the parameter index, a missing sink or circular
connections, and did not mark the graph as changed.
---
 knaster_graph/src/graph.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 0ab044d..a11f3c9 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -652,11 +652,18 @@ impl<F: Float> Graph<F> {
                 found_graph: sink.graph,
             });
         }
-        let nodes = self.get_nodes();
-        let sink_node = &nodes[sink.key()];
+        if !self.node_exists(sink.key()) {
+            return Err(GraphError::NodeNotFound);
+        }
+        let sink_node = &self.get_nodes()[sink.key()];
         let param = parameter.into();
         let param_index = match param {
-            Param::Index(param_index) => param_index as u16,
+            Param::Index(param_index) => {
+                if param_index >= sink_node.data.parameters as usize {
+                    return Err(GraphError::ParameterIndexOutOfBounds(param_index));
+                }
+                param_index as u16
+            }
             Param::Desc(desc) => {
                 if let Some(index) = sink_node.parameter_descriptions().position(|s| s == desc) {
                     index as u16
@@ -679,7 +686,11 @@ impl<F: Float> Graph<F> {
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
+        if self.has_path(sink, source) {
+            return Err(GraphError::CircularConnection);
+        }
 
+        self.recalculation_required = true;
         let edges = self
             .node_parameter_edges
             .get_mut(sink.key())
@@ -1480,6 +1491,9 @@ impl<F: Float> Graph<F> {
                         }
                     }
                 }
+                if let Some(edges) = self.node_parameter_edges.get(node) {
+                    stack.extend(edges.iter().map(|edge| edge.source));
+                }
             }
         }
 
-- 
2.43.0


From 2be65d893c16c583237f4251028dbc467f91f7e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 04/53] fix: disconnect exactly the requested edges

- disconnecting a graph input removed whatever was connected to the graph output with the same index (or panicked)
- parameter edges were not removed when their source was disconnected, freed or a removed sum node
- removing a sum node panicked if any graph output was unconnected
- disconnecting a graph output was not committed
---
 knaster_graph/src/graph.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index a11f3c9..5f7bfd9 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1037,11 +1037,6 @@ impl<F: Float> Graph<F> {
                 if source_channel >= self.num_inputs {
                     return Err(GraphError::GraphInputOutOfBounds(source_channel));
                 }
-                if let Some(edge) = self.output_edges[source_channel as usize].take() {
-                    if let NodeKeyOrGraph::Node(source_node) = edge.source {
-                        self.evaluate_if_node_should_be_removed(source_node);
-                    }
-                }
             }
         }
         let source: NodeKeyOrGraph = source.into();
@@ -1062,6 +1057,12 @@ impl<F: Float> Graph<F> {
                 *edge = None;
             }
         }
+        for (_k, edges) in &mut self.node_parameter_edges {
+            edges.retain(|edge| {
+                edge.channel_in_source != source_channel
+                    || NodeKeyOrGraph::Node(edge.source) != source
+            });
+        }
 
         self.recalculation_required = true;
         Ok(())
@@ -1105,12 +1106,16 @@ impl<F: Float> Graph<F> {
                         self.evaluate_if_node_should_be_removed(source_node);
                     }
                 }
+                self.recalculation_required = true;
             }
         }
         Ok(())
     }
     /// If the node should be automatically removed, this removes it.
     fn evaluate_if_node_should_be_removed(&mut self, key: NodeKey) {
+        if !self.node_exists(key) {
+            return;
+        }
         let node = &mut self.get_nodes_mut()[key];
         if node.auto_math_node {
             // We assume math nodes have two inputs and one output
@@ -1131,14 +1136,21 @@ impl<F: Float> Graph<F> {
                                 }
                             }
                         }
-                        for edge in &mut self.output_edges {
-                            let edge = edge.as_mut().unwrap();
+                        for edge in self.output_edges.iter_mut().flatten() {
                             if let NodeKeyOrGraph::Node(source) = &edge.source {
                                 if *source == key {
                                     *edge = input_edge;
                                 }
                             }
                         }
+                        if let NodeKeyOrGraph::Node(source) = input_edge.source {
+                            for (_k, edges) in &mut self.node_parameter_edges {
+                                for edge in edges.iter_mut().filter(|e| e.source == key) {
+                                    edge.source = source;
+                                    edge.channel_in_source = input_edge.channel_in_source;
+                                }
+                            }
+                        }
                         self.free_node_from_key(key).ok();
                     }
                     (None, None) => {
@@ -1768,6 +1780,10 @@ impl<F: Float> Graph<F> {
         // Remove all edges leading to the node
         if let Some(_edges) = self.node_input_edges.remove(node_key) {}
         self.node_parameter_edges.remove(node_key);
+        // Remove all edges leading from the node to parameters of other nodes
+        for (_k, edges) in &mut self.node_parameter_edges {
+            edges.retain(|edge| edge.source != node_key);
+        }
         // Remove all edges leading from the node to other nodes
         for (_k, input_edges) in &mut self.node_input_edges {
             let mut i = 0;
-- 
2.43.0


From f48df43838921810aa964705ab6c7a08f9b26689 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 05/53] fix: stop reading the buffer of a removed parameter
 connection

A parameter kept reading the buffer it had been connected to after the connection was removed,
which may since have been reused or freed. A null buffer now ends it.
---
 knaster_core/src/ugen.rs                      |  4 +++-
 .../src/wrappers_core/audio_rate.rs           |  2 +-
 knaster_graph/src/graph.rs                    | 19 ++++++++++++++++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 6d0d186..7fd7d57 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -314,8 +314,10 @@ pub trait UGen {
     /// this function is equivalent to running frame-by-frame and setting the
     /// value every frame.
     ///
+    /// A null pointer disables the buffer, returning control of the parameter to `param_apply`.
+    ///
     /// # Safety
-    /// The caller guarantees that the pointer will point to a
+    /// The caller guarantees that the pointer is either null or will point to a
     /// contiguous allocation of at least block size until it is replaced,
     /// disabled, or the inner struct is dropped.
     #[allow(unused)]
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 603b225..9096bac 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -80,7 +80,7 @@ impl<T: UGen> UGen for WrArParams<T> {
         buffer: *const T::Sample,
     ) {
         debug_assert!(index < T::Parameters::USIZE);
-        self.buffers[index] = Some(buffer);
+        self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
 }
 
diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 5f7bfd9..40b26c4 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -175,6 +175,9 @@ pub struct Graph<F: Float> {
     /// Edges which control a parameter of a node through the output of another
     /// node. These can be in addition to audio input edges.
     node_parameter_edges: SecondaryMap<NodeKey, Vec<ParameterEdge>>,
+    /// The parameters that have been told to read from a buffer, and need to be told when that
+    /// buffer is no longer theirs.
+    buffered_parameters: HashSet<(NodeKey, u16)>,
     /// If a node can be freed or not. A node can be made immortal to avoid accidentally removing it.
     node_mortality: SecondaryMap<NodeKey, bool>,
     node_order: Vec<NodeKey>,
@@ -245,6 +248,7 @@ impl<F: Float> Graph<F> {
             nodes,
             node_input_edges,
             node_parameter_edges,
+            buffered_parameters: HashSet::new(),
             node_mortality: SecondaryMap::with_capacity(DEFAULT_NUM_NODES),
             node_order: Vec::with_capacity(DEFAULT_NUM_NODES),
             disconnected_nodes: vec![],
@@ -1561,6 +1565,8 @@ impl<F: Float> Graph<F> {
     /// time the schedule is updated.
     fn generate_ar_parameter_changes(&mut self) -> Vec<ArParameterChange<F>> {
         let mut apc = Vec::new();
+        let previously_buffered = crate::core::mem::take(&mut self.buffered_parameters);
+        let mut buffered_parameters = HashSet::new();
         for (node_key, edges) in &self.node_parameter_edges {
             for edge in edges {
                 let ParameterEdge {
@@ -1583,11 +1589,22 @@ impl<F: Float> Graph<F> {
                             node: node_index,
                             parameter_index: parameter_index as usize,
                             buffer,
-                        })
+                        });
+                        buffered_parameters.insert((node_key, parameter_index));
                     }
                 }
             }
         }
+        for (node_key, parameter_index) in previously_buffered.difference(&buffered_parameters) {
+            if let Some(node_index) = self.node_order.iter().position(|k| k == node_key) {
+                apc.push(ArParameterChange {
+                    node: node_index,
+                    parameter_index: *parameter_index as usize,
+                    buffer: crate::core::ptr::null(),
+                });
+            }
+        }
+        self.buffered_parameters = buffered_parameters;
         apc
     }
 
-- 
2.43.0


From 5ad1b632e1cb84a5eedbddac059de10c3351881a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 06/53] fix: order every node after the nodes it depends on

The search was started from all outputs at once, with later ones already marked as visited, and
nodes that do not reach an output were not ordered at all.
---
 knaster_graph/src/graph.rs | 87 +++++++++++---------------------------
 1 file changed, 24 insertions(+), 63 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 40b26c4..95e887b 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -2029,44 +2029,6 @@ impl<F: Float> Graph<F> {
         }
         node_order
     }
-    /// Looks for the deepest (furthest away from the graph output) node that is also an output node, i.e.
-    /// a node that is both an output node and an input to another node which is eventually connected to
-    /// an output is deeper than a node which is only connected to an output.
-    fn get_deepest_output_node(&self, start_node: NodeKey, visited: &HashSet<NodeKey>) -> NodeKey {
-        let mut last_connected_node_index = start_node;
-        let mut last_connected_output_node_index = start_node;
-        loop {
-            let mut found_later_node = false;
-            for (key, input_edges) in &self.node_input_edges {
-                for input_edge in input_edges.iter().filter_map(|e| *e) {
-                    if let NodeKeyOrGraph::Node(source) = input_edge.source {
-                        if source == last_connected_node_index && !visited.contains(&source) {
-                            last_connected_node_index = key;
-                            found_later_node = true;
-
-                            // check if it's an output node
-                            for edge in self.output_edges.iter().filter_map(|e| *e) {
-                                if let NodeKeyOrGraph::Node(source) = edge.source {
-                                    if last_connected_node_index == source {
-                                        last_connected_output_node_index =
-                                            last_connected_node_index;
-                                    }
-                                }
-                            }
-                            break;
-                        }
-                    }
-                }
-                if found_later_node {
-                    break;
-                }
-            }
-            if !found_later_node {
-                break;
-            }
-        }
-        last_connected_output_node_index
-    }
     /// Calculate the node order of the graph based on the outputs
     /// Post-ordered depth first search
     /// NB: Not real-time safe
@@ -2074,35 +2036,34 @@ impl<F: Float> Graph<F> {
         self.node_order.clear();
         // Set the visited status for all nodes to false
         let mut visited = HashSet::new();
-        let mut nodes_to_process = Vec::with_capacity(self.get_nodes_mut().capacity());
-        for edge in self.output_edges.iter().filter_map(|e| *e) {
-            if let NodeKeyOrGraph::Node(source) = edge.source {
-                // The same source node may be present in multiple output edges
-                // e.g. for stereo so we need to check if visited. The input to
-                // one graph output may also depend on the input to another
-                // graph output. Therefore we need to make sure to start with
-                // the deepest output nodes only.
-                let deepest_node = self.get_deepest_output_node(source, &visited);
-                if !visited.contains(&deepest_node) {
-                    nodes_to_process.push(deepest_node);
-                    visited.insert(deepest_node);
-                }
+        // The same source node may be present in multiple output edges e.g. for stereo, and the
+        // input to one graph output may also depend on the input to another graph output. Each
+        // output is searched to the end before the next, so that every node ends up after all of
+        // the nodes it depends on.
+        let output_nodes: Vec<NodeKey> = self
+            .output_edges
+            .iter()
+            .flatten()
+            .filter_map(|edge| match edge.source {
+                NodeKeyOrGraph::Node(source) => Some(source),
+                NodeKeyOrGraph::Graph => None,
+            })
+            .collect();
+        for node in output_nodes {
+            if visited.insert(node) {
+                let stack = self.depth_first_search(&mut visited, &mut vec![node]);
+                self.node_order.extend(stack);
             }
         }
 
-        let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
-        self.node_order.extend(stack);
-
-        // Add all remaining nodes. These are not currently connected to anything.
+        // Add all remaining nodes. These are not currently connected to any output, but may depend
+        // on each other.
         let mut remaining_nodes = vec![];
-        for (node_key, _node) in self.get_nodes() {
-            if !visited.contains(&node_key)
-                && !self
-                    .node_keys_to_free_when_safe
-                    .iter()
-                    .any(|(key, _)| key == &node_key)
-            {
-                remaining_nodes.push(node_key);
+        let node_keys: Vec<NodeKey> = self.node_input_edges.keys().collect();
+        for node in node_keys {
+            if visited.insert(node) {
+                let stack = self.depth_first_search(&mut visited, &mut vec![node]);
+                remaining_nodes.extend(stack);
             }
         }
         self.node_order.extend(remaining_nodes.iter());
-- 
2.43.0


From 1da05ca19e4670eda6cfe1222e1f393972b886d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 07/53] fix: do not reuse buffers that are still needed

A buffer connected to a graph output was reused once its last node had read it, and the empty
block of a node without outputs shared its offset with the block allocated after it.
---
 knaster_graph/src/graph.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 95e887b..a9d8934 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1659,6 +1659,13 @@ impl<F: Float> Graph<F> {
                 (unsafe { &mut *self.nodes.get() })[edge.source].num_output_dependents += 1;
             }
         }
+        // The graph outputs are copied after all nodes have run, so buffers connected to them are
+        // never returned.
+        for edge in self.output_edges.iter().flatten() {
+            if let NodeKeyOrGraph::Node(source_key) = edge.source {
+                (unsafe { &mut *self.nodes.get() })[source_key].num_output_dependents += 1;
+            }
+        }
 
         let mut graph_input_pointers_to_nodes = Vec::new();
         // Assign buffers
@@ -1668,9 +1675,14 @@ impl<F: Float> Graph<F> {
         for (node_order_index, &key) in node_order.iter().enumerate() {
             let outputs = self.get_nodes()[key].data.outputs as usize;
             let num_borrows = self.get_nodes()[key].num_output_dependents;
-            let offset = self
-                .buffer_allocator
-                .get_block(outputs, self.block_size, num_borrows);
+            let offset = if outputs == 0 {
+                // Nothing will be written, so any valid address will do. An empty block could not
+                // be told apart from the block after it.
+                0
+            } else {
+                self.buffer_allocator
+                    .get_block(outputs, self.block_size, num_borrows)
+            };
             self.get_nodes_mut()[key].assign_output_offset(offset);
             let mut input_pointers_to_node = None;
             // Return every block that is used as an input
-- 
2.43.0


From e6666d59f728d0a93aa7870dd411d22ead2d1067 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 08/53] fix: feedback connections delay by exactly one block

Both halves of a feedback connection were sinks, so feedback was always silent. The source half
also relied on the order of the two nodes in the schedule, read a channel it does not have, and
its sink could run before the node it reads from.
---
 knaster_graph/src/graph.rs | 65 ++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index a9d8934..7f91e60 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -23,7 +23,6 @@ use crate::{
     node::{Node, NodeData},
     task::{ArParameterChange, BlockOrGraphInput, OutputTask, Task, TaskData},
 };
-use core::cell::Cell;
 use ecow::EcoString;
 use knaster_core::numeric_array::NumericArray;
 /// no_std_compat prelude import, supporting both std and no_std
@@ -788,7 +787,7 @@ impl<F: Float> Graph<F> {
         &mut self,
         mut source: NodeKeyOrGraph,
         sink: NodeKey,
-        so_channel: u16,
+        mut so_channel: u16,
         si_channel: u16,
         additive: bool,
         feedback: bool,
@@ -802,6 +801,7 @@ impl<F: Float> Graph<F> {
                 is_feedback: true,
             });
             source = NodeKeyOrGraph::Node(fb_source);
+            so_channel = 0;
         }
         // Fast and common path
         if !additive {
@@ -835,7 +835,7 @@ impl<F: Float> Graph<F> {
             self.node_input_edges[sink][si_channel as usize] = Some(Edge {
                 source,
                 channel_in_source: so_channel,
-                is_feedback: feedback,
+                is_feedback: false,
             });
         }
     }
@@ -903,18 +903,14 @@ impl<F: Float> Graph<F> {
             OwnedRawBuffer::new(self.block_size),
             OwnedRawBuffer::new(self.block_size),
         ]);
-        // We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-        // we can get away with using a `Cell` which is !Sync.
-        #[allow(clippy::arc_with_non_send_sync)]
-        let bufnum = Arc::new(Cell::new(0));
+        // The two nodes are added to and removed from the schedule together, so by counting blocks
+        // on their own they stay in step no matter which of them is run first. In every block, the
+        // source reads the buffer which the sink wrote in the previous block.
         let sink = FeedbackSink {
             buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
-        };
-        let source = FeedbackSink {
-            buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
+            bufnum: 0,
         };
+        let source = FeedbackSource { buffers, bufnum: 1 };
         // TODO: We don't need a full handle here
         let sink_handle = self.push_internal(sink);
         let sink_node = sink_handle.raw_handle.node.key;
@@ -2012,14 +2008,12 @@ impl<F: Float> Graph<F> {
             // There is probably room for optimisation here by managing to
             // not iterate the edges multiple times.
             for edge in input_edges.iter().filter_map(|e| *e) {
-                if !edge.is_feedback {
-                    if let NodeKeyOrGraph::Node(source) = edge.source {
-                        if !visited.contains(&source) {
-                            nodes_to_process.push(source);
-                            visited.insert(source);
-                            found_unvisited = true;
-                            break;
-                        }
+                if let NodeKeyOrGraph::Node(source) = edge.source {
+                    if !visited.contains(&source) {
+                        nodes_to_process.push(source);
+                        visited.insert(source);
+                        found_unvisited = true;
+                        break;
                     }
                 }
             }
@@ -2393,13 +2387,11 @@ impl From<u16> for Channels<U1> {
 /// Highly unsafe. The allocation of buffers is done separately instead of using the init function.
 /// Should only be used from inside the Graph. Assumes that a single Graph is always run
 pub(crate) struct FeedbackSink<F: Float> {
+    /// Shared with the source. We promise that all nodes within a Graph will be processed
+    /// sequentially and not concurrently.
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    ///
-    /// We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-    /// we can get away with using a `Cell` which is !Sync.
-    bufnum: Arc<Cell<usize>>,
+    /// The buffer to write in the next block
+    bufnum: usize,
 }
 impl<F: Float> UGen for FeedbackSink<F> {
     type Sample = F;
@@ -2426,9 +2418,13 @@ impl<F: Float> UGen for FeedbackSink<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
         let input = input.channel_as_slice(0);
-        unsafe { self.buffers[bufnum].as_slice_mut().copy_from_slice(input) }
+        unsafe {
+            self.buffers[self.bufnum]
+                .as_slice_mut()
+                .copy_from_slice(input)
+        }
+        self.bufnum = 1 - self.bufnum;
     }
 
     fn param_hints()
@@ -2450,10 +2446,11 @@ impl<F: Float> UGen for FeedbackSink<F> {
 /// Highly unsafe. The allocation of buffers is done separately instead of using the init function.
 /// Should only be used from inside the Graph.
 pub(crate) struct FeedbackSource<F: Float> {
+    /// Shared with the sink. We promise that all nodes within a Graph will be processed
+    /// sequentially and not concurrently.
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    bufnum: Arc<Cell<usize>>,
+    /// The buffer to read in the next block
+    bufnum: usize,
 }
 impl<F: Float> UGen for FeedbackSource<F> {
     type Sample = F;
@@ -2480,11 +2477,9 @@ impl<F: Float> UGen for FeedbackSource<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
-        let prev_buffer = 1 - bufnum;
-        self.bufnum.set(prev_buffer);
         let output = output.channel_as_slice_mut(0);
-        unsafe { output.copy_from_slice(self.buffers[prev_buffer].as_slice_mut()) }
+        unsafe { output.copy_from_slice(self.buffers[self.bufnum].as_slice_mut()) }
+        self.bufnum = 1 - self.bufnum;
     }
 
     fn param_hints()
-- 
2.43.0


From 114b945f44016d4cde7ed61362575f6d2bf8072a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 09/53] fix: keep changes that cannot be sent to the audio
 thread yet

Editing a graph panicked when the ring buffer was full, and the UGens of the failed update were lost.
---
 knaster_graph/src/graph.rs      | 7 +++++++
 knaster_graph/src/graph_edit.rs | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 7f91e60..fc40123 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1764,6 +1764,13 @@ impl<F: Float> Graph<F> {
         self.free_old();
         self.graph_gen_communicator.free_old_task_data();
         if self.recalculation_required {
+            // Generating tasks moves UGens out of their nodes, so don't start unless the tasks
+            // can be sent. The changes remain to be committed with the next edit.
+            if self.graph_gen_communicator.new_task_data_producer.is_full() {
+                return Err(GraphError::SendToGraphGen(
+                    "the ring buffer for graph changes is full".into(),
+                ));
+            }
             self.calculate_node_order();
             let graph_input_pointers_to_nodes = self.allocate_node_buffers();
 
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8caabf8..b0a4b0c 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -257,7 +257,9 @@ impl<'b, F: Float> GraphEdit<'b, F> {
 }
 impl<F: Float> Drop for GraphEdit<'_, F> {
     fn drop(&mut self) {
-        self.graph.write().commit_changes().unwrap();
+        if let Err(e) = self.graph.write().commit_changes() {
+            log::error!("Unable to commit changes to the graph: {e}");
+        }
     }
 }
 
-- 
2.43.0


From 62e06470d76d3e8d7feb84267fdab20ec89247c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 10/53] fix: done wrapper passes on audio rate parameters and
 delays

WrDone dropped set_ar_param_buffer and set_delay_within_block_for_param, so the wrapped UGen could
not be modulated at audio rate or timed within a block.
---
 knaster_graph/src/wrappers_graph/done.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/knaster_graph/src/wrappers_graph/done.rs b/knaster_graph/src/wrappers_graph/done.rs
index e0160b8..3f9b949 100644
--- a/knaster_graph/src/wrappers_graph/done.rs
+++ b/knaster_graph/src/wrappers_graph/done.rs
@@ -118,4 +118,23 @@ where
             self.ugen.param_apply(ctx, index, value);
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        // The done action cannot be set at audio rate
+        if index < T::Parameters::USIZE {
+            unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+        }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
+    }
 }
-- 
2.43.0


From bef08c2a292b9fd6b60ed60252b70cbc2be50429 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 11/53] fix: multiplication wrapper keeps its own parameter to
 itself

Connecting a signal to, or scheduling a change of, wr_mul was passed on to the wrapped UGen under an
index it does not have.
---
 knaster_core_dsp/src/wrappers_core/math.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index d9f5c17..838d7a6 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -102,13 +102,18 @@ where
         index: usize,
         buffer: *const T::Sample,
     ) {
-        unsafe {
-            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        // The parameter of the wrapper itself is not passed on
+        if index < T::Parameters::USIZE {
+            unsafe {
+                self.ugen.set_ar_param_buffer(ctx, index, buffer);
+            }
         }
     }
     fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
-        self.ugen
-            .set_delay_within_block_for_param(ctx, index, delay);
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
     }
 }
 
-- 
2.43.0


From 386cb62cb5df30286548452bcec8c2574ebeda86 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 12/53] fix: do not free a replaced buffer allocation on the
 audio thread

The buffer allocation of the previous schedule was dropped on the audio thread, freeing it there
if the Graph had been dropped in the meantime.
---
 knaster_graph/src/graph.rs     |  3 +--
 knaster_graph/src/graph_gen.rs | 11 ++---------
 knaster_graph/src/task.rs      |  8 ++++----
 3 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index fc40123..efe7986 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -323,7 +323,6 @@ impl<F: Float> Graph<F> {
                 freed: false,
                 waiting_parameter_changes: VecDeque::with_capacity(ring_buffer_size),
                 _arc_nodes: graph.nodes.clone(),
-                _arc_buffer_allocation_ptr: graph.buffer_allocator.buffer(),
                 _channels: core::marker::PhantomData,
                 remove_me_flag: remove_me.clone(),
                 blocks_to_keep_scheduled_changes: graph.sample_rate / graph.block_size as u32,
@@ -1617,7 +1616,7 @@ impl<F: Float> Graph<F> {
             applied: applied_flag,
             tasks,
             output_task,
-            current_buffer_allocation: Some(self.buffer_allocator.buffer()),
+            current_buffer_allocation: self.buffer_allocator.buffer(),
             ar_parameter_changes,
             graph_input_channels_to_nodes,
             node_task_order: self.node_order.clone(),
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index cd1b8ba..1d09ec3 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -19,7 +19,7 @@ use slotmap::SlotMap;
 
 use crate::{
     SchedulingChannelConsumer,
-    graph::{NodeKey, OwnedRawBuffer},
+    graph::NodeKey,
     node::Node,
     task::TaskData,
 };
@@ -54,8 +54,6 @@ pub struct GraphGen<F: Float, Inputs: Size, Outputs: Size> {
     // the Gens inside Nodes also exist in TaskData where they are called. The
     // Node may not be accessed from within GraphGen at all.
     pub(super) _arc_nodes: Arc<UnsafeCell<SlotMap<NodeKey, Node<F>>>>,
-    // This Arc makes sure the buffer allocation is valid for as long as it needs to be
-    pub(super) _arc_buffer_allocation_ptr: Arc<OwnedRawBuffer<F>>,
     /// Stores the number of completed samples, updated at the end of a block
     pub(super) scheduling_event_receiver: SchedulingChannelConsumer,
     pub(super) task_data_to_be_dropped_producer: rtrb::Producer<TaskData<F>>,
@@ -172,18 +170,13 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
         let TaskData {
             tasks,
             output_task,
-            current_buffer_allocation: new_buffer_allocation,
+            current_buffer_allocation: _,
             graph_input_channels_to_nodes,
             applied: _,
             ar_parameter_changes: _,
             node_task_order: _,
         } = task_data;
 
-        if let Some(buffer_allocation) = new_buffer_allocation.take() {
-            // The old buffers will be kept alive until the Arc has been dropped in the GraphGen
-            self._arc_buffer_allocation_ptr = buffer_allocation;
-        }
-
         for (node_index, graph_input_indices) in graph_input_channels_to_nodes {
             let node_in_buffers = &mut tasks[*node_index].in_buffers;
             for (graph_input, node_input) in graph_input_indices {
diff --git a/knaster_graph/src/task.rs b/knaster_graph/src/task.rs
index e4644a4..9a647ce 100644
--- a/knaster_graph/src/task.rs
+++ b/knaster_graph/src/task.rs
@@ -75,10 +75,10 @@ pub(crate) struct TaskData<F: Float> {
     // Tasks run Gens
     pub(crate) tasks: Box<[Task<F>]>,
     pub(crate) output_task: OutputTask<F>,
-    // if the buffer allocation has been replaced, replace the Arc to them in
-    // the GraphGen as well. This keeps the buffer allocation alive even if the
-    // `Graph` is dropped.
-    pub(crate) current_buffer_allocation: Option<Arc<OwnedRawBuffer<F>>>,
+    // The allocation that all buffers in this TaskData are part of. It stays here until the
+    // TaskData is dropped, which keeps it alive even if the `Graph` is dropped, and makes sure it
+    // isn't freed on the audio thread.
+    pub(crate) current_buffer_allocation: Arc<OwnedRawBuffer<F>>,
     /// Audio rate parameter changes are tied to the graph structure just like
     /// audio passing through the graph. Changes get applied from this list at
     /// the point where the new schedule is received.
-- 
2.43.0


From 1f6ebe7b175234aab3a46d0170c5af78ffcc4a87 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 13/53] fix: free the parent from the earliest frame asked for

When several nodes free their parent in the same block, the one processed last decided from which
frame the graph goes silent.
---
 knaster_core/src/ugen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 7fd7d57..b4f25a5 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -190,7 +190,8 @@ impl UGenFlags {
     /// `from_frame_in_block` to the current block size.
     pub fn mark_remove_parent(&mut self, from_frame: u32) {
         self.remove_parent = true;
-        self.remove_parent_from_frame_in_block = from_frame;
+        self.remove_parent_from_frame_in_block =
+            self.remove_parent_from_frame_in_block.min(from_frame);
     }
     /// Mark this node as done.
     ///
-- 
2.43.0


From 8967538a6cb8d8bb2080daff7a63c8930083c35b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 14/53] fix: check the parameter index when setting through a
 handle

---
 knaster_graph/src/graph_edit.rs |  2 +-
 knaster_graph/src/handle.rs     | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index b0a4b0c..ccbb0ef 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -862,7 +862,7 @@ impl<'a, 'b, F: Float> DH<'a, 'b, F, DynamicHandle3> {
         let p = p.into();
         match p {
             Param::Index(i) => {
-                if (i as u16) < self.nodes.data.parameters {
+                if i < self.nodes.data.parameters as usize {
                     Some(Parameter {
                         node: self.nodes.node_id,
                         param_index: i as u16,
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index bb68179..a72f1e1 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -221,7 +221,12 @@ impl<T: UGen> HandleTrait for Handle<T> {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= T::Parameters::USIZE {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 match T::param_descriptions().iter().position(|d| *d == desc) {
                     Some(param_i) => param_i,
@@ -279,7 +284,12 @@ impl HandleTrait for AnyHandle {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= self.parameters.len() {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 if let Some(param_i) = self.parameters.iter().position(|d| *d == desc) {
                     param_i
-- 
2.43.0


From 7227292e89adea6fb0bd37e1259d2b0d47f46352 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 15/53] fix: do not free scheduling tokens on the audio thread

---
 knaster_graph/src/graph.rs      | 12 ++++++++----
 knaster_graph/src/graph_gen.rs  | 10 ++++------
 knaster_graph/src/handle.rs     | 13 +++++++++++--
 knaster_graph/src/scheduling.rs | 26 +++++++++++++++++++++++++-
 4 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index efe7986..1a1ad4f 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -13,7 +13,7 @@ use crate::core::{
 };
 
 use crate::{
-    SharedFrameClock, Time,
+    SharedFrameClock, Time, TokensInUse,
     buffer_allocator::BufferAllocator,
     core::sync::atomic::AtomicU64,
     edge::{Edge, NodeKeyOrGraph, ParameterEdge},
@@ -231,10 +231,13 @@ impl<F: Float> Graph<F> {
         let (scheduling_event_producer, scheduling_event_receiver) =
             rtrb::RingBuffer::new(ring_buffer_size);
 
+        let tokens_in_use = TokensInUse::default();
+
         let graph_gen_communicator = GraphGenCommunicator {
-            scheduling_event_producer: SchedulingChannelSender(Arc::new(Mutex::new(
-                scheduling_event_producer,
-            ))),
+            scheduling_event_producer: SchedulingChannelSender(
+                Arc::new(Mutex::new(scheduling_event_producer)),
+                tokens_in_use.clone(),
+            ),
             task_data_to_be_dropped_consumer,
             new_task_data_producer,
             next_change_flag: Arc::new(AtomicBool::new(false)),
@@ -323,6 +326,7 @@ impl<F: Float> Graph<F> {
                 freed: false,
                 waiting_parameter_changes: VecDeque::with_capacity(ring_buffer_size),
                 _arc_nodes: graph.nodes.clone(),
+                _tokens_in_use: tokens_in_use,
                 _channels: core::marker::PhantomData,
                 remove_me_flag: remove_me.clone(),
                 blocks_to_keep_scheduled_changes: graph.sample_rate / graph.block_size as u32,
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 1d09ec3..7e6197d 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -17,12 +17,7 @@ use knaster_core::{
 };
 use slotmap::SlotMap;
 
-use crate::{
-    SchedulingChannelConsumer,
-    graph::NodeKey,
-    node::Node,
-    task::TaskData,
-};
+use crate::{SchedulingChannelConsumer, TokensInUse, graph::NodeKey, node::Node, task::TaskData};
 
 /// This gets placed as a dyn UGen in a Node in a Graph. It's how the Graph gets
 /// run. The Graph communicates with the GraphGen in a thread safe way.
@@ -54,6 +49,9 @@ pub struct GraphGen<F: Float, Inputs: Size, Outputs: Size> {
     // the Gens inside Nodes also exist in TaskData where they are called. The
     // Node may not be accessed from within GraphGen at all.
     pub(super) _arc_nodes: Arc<UnsafeCell<SlotMap<NodeKey, Node<F>>>>,
+    // Keeps the tokens of events alive for as long as the GraphGen may drop events, so that no token
+    // is freed on the audio thread.
+    pub(super) _tokens_in_use: TokensInUse,
     /// Stores the number of completed samples, updated at the end of a block
     pub(super) scheduling_event_receiver: SchedulingChannelConsumer,
     pub(super) task_data_to_be_dropped_producer: rtrb::Producer<TaskData<F>>,
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index a72f1e1..7adb6c1 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -18,7 +18,7 @@ use std::prelude::v1::*;
 
 use crate::core::sync::{Arc, Mutex};
 
-use crate::SchedulingChannelProducer;
+use crate::{SchedulingChannelProducer, TokensInUse};
 
 #[derive(Clone, Copy, Debug)]
 /// A subset of a node's channels. Can be input or output channels depending on the context.
@@ -36,7 +36,10 @@ pub struct NodeSubset {
 
 /// This is used to send scheduling events to the audio thread.
 #[derive(Clone, Debug)]
-pub struct SchedulingChannelSender(pub(crate) Arc<Mutex<SchedulingChannelProducer>>);
+pub struct SchedulingChannelSender(
+    pub(crate) Arc<Mutex<SchedulingChannelProducer>>,
+    pub(crate) TokensInUse,
+);
 impl SchedulingChannelSender {
     /// Send a scheduling event to the audio thread.
     ///
@@ -58,6 +61,9 @@ impl SchedulingChannelSender {
                 // std::sync::atomic::fence(std::sync::atomic::Ordering::Acquire);
                 return Err(ParameterError::GraphWasFreed.into());
             }
+            if let Some(token) = &event.token {
+                self.1.keep(token);
+            }
             sender
                 .push(event)
                 .map_err(|e| GraphError::PushChangeError(e.to_string()))?;
@@ -65,6 +71,9 @@ impl SchedulingChannelSender {
         #[cfg(not(feature = "std"))]
         {
             let mut sender = self.0.lock();
+            if let Some(token) = &event.token {
+                self.1.keep(token);
+            }
             sender
                 .push(event)
                 .map_err(|e| GraphError::PushChangeError(e.to_string()))?;
diff --git a/knaster_graph/src/scheduling.rs b/knaster_graph/src/scheduling.rs
index f2c25cb..dfd0e56 100644
--- a/knaster_graph/src/scheduling.rs
+++ b/knaster_graph/src/scheduling.rs
@@ -13,7 +13,9 @@
 //!
 //! 2. is mostly accomplished by using [`SchedulingToken`]
 
-use crate::core::sync::Arc;
+use crate::core::sync::{Arc, Mutex};
+/// no_std_compat prelude import, supporting both std and no_std
+use std::prelude::v1::*;
 
 use crate::{
     core::sync::atomic::{AtomicBool, AtomicU64},
@@ -38,6 +40,28 @@ pub(crate) type SchedulingChannelProducer = rtrb::Producer<SchedulingEvent>;
 // Every GraphGen has one of these for receiving parameter changes.
 pub(crate) type SchedulingChannelConsumer = rtrb::Consumer<SchedulingEvent>;
 
+/// References to all tokens that the audio thread may hold. They make sure that the audio thread
+/// never drops, and thereby frees, the last reference to a token.
+#[derive(Clone, Debug, Default)]
+pub(crate) struct TokensInUse(Arc<Mutex<Vec<SchedulingToken>>>);
+impl TokensInUse {
+    /// Keep a reference to `token` until the audio thread has let go of it. Not for use on the
+    /// audio thread.
+    pub fn keep(&self, token: &SchedulingToken) {
+        #[cfg(feature = "std")]
+        let mut tokens = match self.0.lock() {
+            Ok(t) => t,
+            Err(t) => t.into_inner(),
+        };
+        #[cfg(not(feature = "std"))]
+        let mut tokens = self.0.lock();
+        tokens.retain(|t| Arc::strong_count(&t.token) > 1);
+        if !tokens.iter().any(|t| Arc::ptr_eq(&t.token, &token.token)) {
+            tokens.push(token.clone());
+        }
+    }
+}
+
 /// Error related to scheduling
 pub enum SchedulingError {
     #[allow(missing_docs)]
-- 
2.43.0


From 4fccee58b842212914f0b0b4ea440dc6b5c3ef66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 16/53] fix: report nested graphs and feedback connections in
 inspections

---
 knaster_graph/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 1a1ad4f..7466f87 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1890,7 +1890,7 @@ impl<F: Float> Graph<F> {
                         },
                         from_index: edge.channel_in_source,
                         to_index: input_channel_index as u16,
-                        is_feedback: false,
+                        is_feedback: edge.is_feedback,
                     });
                 }
             }
@@ -1904,7 +1904,7 @@ impl<F: Float> Graph<F> {
                 parameter_descriptions: node.parameter_descriptions().collect(),
                 parameter_hints: node.parameter_hints().collect(),
                 unconnected: self.disconnected_nodes.contains(&node_key),
-                is_graph: None,
+                is_graph: node.is_graph,
             });
             node_key_processed.push(node_key);
         }
-- 
2.43.0


From 89eb8d465db0e767b75eb615f94887974aeedfbf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 17/53] fix: multiply Seconds including their fractions

---
 knaster_primitives/src/time.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 3e91921..3816715 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -179,13 +179,10 @@ impl ops::Mul<Seconds> for Seconds {
     type Output = Self;
 
     fn mul(self, rhs: Seconds) -> Self::Output {
-        let mut seconds = self.seconds * rhs.seconds;
-        let mut subsample_tesimals = self.subsecond_tesimals as u64 * rhs.subsecond_tesimals as u64;
-        if subsample_tesimals > SUBSECOND_TESIMALS_PER_SECOND as u64 {
-            seconds += (subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64) as u32;
-            subsample_tesimals %= SUBSECOND_TESIMALS_PER_SECOND as u64;
-        }
-        Seconds::new(seconds, subsample_tesimals as u32)
+        let tesimals = self.to_subsample_tesimals_u64() as u128
+            * rhs.to_subsample_tesimals_u64() as u128
+            / SUBSECOND_TESIMALS_PER_SECOND as u128;
+        Seconds::from_subsample_tesimals_u64(tesimals as u64)
     }
 }
 impl ops::Mul<f64> for Seconds {
-- 
2.43.0


From 040ea3b1c03dfade4f37ac81fe46bde97baee34b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 18/53] fix: terminate log messages that do not fit

---
 knaster_core/src/log.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knaster_core/src/log.rs b/knaster_core/src/log.rs
index 0de445c..b52aa7f 100644
--- a/knaster_core/src/log.rs
+++ b/knaster_core/src/log.rs
@@ -259,7 +259,11 @@ impl ArLogSender {
     pub fn send(&mut self, message: ArLogMessage) {
         match self {
             ArLogSender::RingBuffer(sender) => {
-                sender.push(message).ok();
+                // The last slot is for the `End` of a message. Otherwise, a message which is cut short
+                // because the buffer is full would continue with the next message.
+                if message.is_end() || sender.slots() > 1 {
+                    sender.push(message).ok();
+                }
             }
             ArLogSender::Log => log::warn!("{}", message),
         }
-- 
2.43.0


From 6a608854a0795c4e6114daf37e2c4c4498a8e2bc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 19/53] fix: check the parameter type in UGen::param

---
 knaster_core/src/ugen.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index b4f25a5..1383d7f 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -1,3 +1,5 @@
+use core::mem::discriminant;
+
 use crate::log::ArLogSender;
 use crate::numeric_array::NumericArray;
 use crate::{Param, ParameterError, ParameterHint, ParameterType, ParameterValue, rt_log};
@@ -350,23 +352,23 @@ pub trait UGen {
         param: impl Into<Param>,
         value: impl Into<ParameterValue>,
     ) -> Result<(), ParameterError> {
-        match param.into() {
+        let index = match param.into() {
             Param::Index(i) => {
                 if i >= Self::Parameters::USIZE {
                     return Err(ParameterError::ParameterIndexOutOfBounds);
                 }
-                self.param_apply(ctx, i, value.into());
-                Ok(())
-            }
-            Param::Desc(desc) => {
-                for (i, d) in Self::param_descriptions().into_iter().enumerate() {
-                    if d == desc {
-                        self.param_apply(ctx, i, value.into());
-                        return Ok(());
-                    }
-                }
-                Err(ParameterError::DescriptionNotFound(desc))
+                i
             }
+            Param::Desc(desc) => Self::param_descriptions()
+                .into_iter()
+                .position(|d| d == desc)
+                .ok_or(ParameterError::DescriptionNotFound(desc))?,
+        };
+        let value = value.into();
+        if discriminant(&Self::param_types()[index]) != discriminant(&value.ty()) {
+            return Err(ParameterError::WrongParameterType);
         }
+        self.param_apply(ctx, index, value);
+        Ok(())
     }
 }
-- 
2.43.0


From 7686e11d8561ab90a4e705fcfc5a1e527dd41ae3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 20/53] fix: log instead of panicking when smoothing is set
 without a wrapper

---
 knaster_macros/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index 6656861..50a9861 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -757,6 +757,7 @@ fn parse_ugen_impl(mut input: ItemImpl) -> syn::Result<proc_macro2::TokenStream>
             ) {
                 if let #crate_ident::ParameterValue::Smoothing(_, _) =_value  {
                     #crate_ident::rt_log!(ctx.logger(); "Error setting parameter smoothing for #struct_name, wrapper does not exist. Index: ", _index);
+                    return;
                 }
                 match _index {
                     #(#parameter_calls),*
-- 
2.43.0


From 7919acedd5d49d956285be60dfd3c5a20bcde354 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 21/53] fix: keep the precision of i32 constants in handle
 arithmetic

---
 knaster_graph/src/graph_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index ccbb0ef..2d4b5f8 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -990,7 +990,7 @@ impl ConstantNumber {
             ConstantNumber::F32(f) => F::new(f),
             ConstantNumber::F64(f) => F::new(f),
             ConstantNumber::Usize(u) => F::from_usize(u),
-            ConstantNumber::I32(i) => F::new(i as f32),
+            ConstantNumber::I32(i) => F::new(i as f64),
         }
     }
 }
-- 
2.43.0


From 628f162bd6033cbc3d18c11219d560401ae2260d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 22/53] fix: subtract and divide constants by handles in the
 right order

---
 knaster_graph/src/graph_edit.rs | 194 ++++++++++++++++++++++++++------
 1 file changed, 158 insertions(+), 36 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 2d4b5f8..c17f38b 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -1036,7 +1036,7 @@ impl From<ConstantNumber> for f64 {
 }
 
 macro_rules! math_gen_fn_static_constant {
-    ($fn_name:ident, $op:ty) => {
+    ($fn_name:ident, $op:ty, $source_input:literal, $constant_input:literal) => {
         fn $fn_name<F: Float, S0: Static, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
@@ -1049,10 +1049,17 @@ macro_rules! math_gen_fn_static_constant {
             let c = g.push_internal(Constant::new(c));
             for s0 in Static::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(s0.0, s0.1, $source_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(
+                    c.node_id(),
+                    0,
+                    $constant_input,
+                    NodeOrGraph::Node(mul.node_id()),
+                ) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push(NodeOrGraph::Node(mul.node_id()), 0);
@@ -1066,10 +1073,44 @@ macro_rules! math_gen_fn_static_constant {
         }
     };
 }
-math_gen_fn_static_constant!(add_sources_static_constant, knaster_core_dsp::math::Add);
-math_gen_fn_static_constant!(sub_sources_static_constant, knaster_core_dsp::math::Sub);
-math_gen_fn_static_constant!(mul_sources_static_constant, knaster_core_dsp::math::Mul);
-math_gen_fn_static_constant!(div_sources_static_constant, knaster_core_dsp::math::Div);
+math_gen_fn_static_constant!(
+    add_sources_static_constant,
+    knaster_core_dsp::math::Add,
+    0,
+    1
+);
+math_gen_fn_static_constant!(
+    sub_sources_static_constant,
+    knaster_core_dsp::math::Sub,
+    0,
+    1
+);
+// The constant is the left hand side
+math_gen_fn_static_constant!(
+    sub_constant_static_sources,
+    knaster_core_dsp::math::Sub,
+    1,
+    0
+);
+math_gen_fn_static_constant!(
+    mul_sources_static_constant,
+    knaster_core_dsp::math::Mul,
+    0,
+    1
+);
+math_gen_fn_static_constant!(
+    div_sources_static_constant,
+    knaster_core_dsp::math::Div,
+    0,
+    1
+);
+// The constant is the left hand side
+math_gen_fn_static_constant!(
+    div_constant_static_sources,
+    knaster_core_dsp::math::Div,
+    1,
+    0
+);
 // math_gen_fn_static_constant!(pow_sources_static_constant, knaster_core::math::Pow);
 
 // Macros for implementing arithmetics on sources without statically known channel configurations
@@ -1110,7 +1151,7 @@ math_gen_fn_dynamic!(pow_sources_dynamic, knaster_core_dsp::math::Pow);
 
 // Macros for implementing arithmetics on sources without statically known channel configurations
 macro_rules! math_gen_fn_dynamic_constant {
-    ($fn_name:ident, $op:ty) => {
+    ($fn_name:ident, $op:ty, $source_input:literal, $constant_input:literal) => {
         fn $fn_name<F: Float, S0: Dynamic, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
@@ -1122,10 +1163,17 @@ macro_rules! math_gen_fn_dynamic_constant {
             let c = g.push_internal(Constant::new(c));
             for s0 in Dynamic::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(s0.0, s0.1, $source_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(
+                    c.node_id(),
+                    0,
+                    $constant_input,
+                    NodeOrGraph::Node(mul.node_id()),
+                ) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push((NodeOrGraph::Node(mul.node_id()), 0));
@@ -1137,10 +1185,44 @@ macro_rules! math_gen_fn_dynamic_constant {
         }
     };
 }
-math_gen_fn_dynamic_constant!(add_sources_dynamic_constant, knaster_core_dsp::math::Add);
-math_gen_fn_dynamic_constant!(sub_sources_dynamic_constant, knaster_core_dsp::math::Sub);
-math_gen_fn_dynamic_constant!(mul_sources_dynamic_constant, knaster_core_dsp::math::Mul);
-math_gen_fn_dynamic_constant!(div_sources_dynamic_constant, knaster_core_dsp::math::Div);
+math_gen_fn_dynamic_constant!(
+    add_sources_dynamic_constant,
+    knaster_core_dsp::math::Add,
+    0,
+    1
+);
+math_gen_fn_dynamic_constant!(
+    sub_sources_dynamic_constant,
+    knaster_core_dsp::math::Sub,
+    0,
+    1
+);
+// The constant is the left hand side
+math_gen_fn_dynamic_constant!(
+    sub_constant_dynamic_sources,
+    knaster_core_dsp::math::Sub,
+    1,
+    0
+);
+math_gen_fn_dynamic_constant!(
+    mul_sources_dynamic_constant,
+    knaster_core_dsp::math::Mul,
+    0,
+    1
+);
+math_gen_fn_dynamic_constant!(
+    div_sources_dynamic_constant,
+    knaster_core_dsp::math::Div,
+    0,
+    1
+);
+// The constant is the left hand side
+math_gen_fn_dynamic_constant!(
+    div_constant_dynamic_sources,
+    knaster_core_dsp::math::Div,
+    1,
+    0
+);
 // math_gen_fn_dynamic_constant!(pow_sources_dynamic_constant, knaster_core::math::Pow);
 
 // Arithmetics with static types
@@ -1170,7 +1252,7 @@ math_impl_static_static!(div_sources, Div, div);
 // Arithmetics with and static types and constants
 // Create implementations for arithmetics with constants f32 f64 or usize
 macro_rules! math_impl_static_constant_type {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
+    ($fn_name:ident, $fn_name_lhs:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
         impl<'a, 'b, F: Float, S0: Static> $op<$ty> for SH<'a, 'b, F, S0> {
             type Output = SH<'a, 'b, F, ChannelsHandle<S0::Outputs>>;
 
@@ -1188,7 +1270,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: SH<'a, 'b, F, S0>) -> Self::Output {
                 let graph = rhs.graph;
                 SH {
-                    nodes: $fn_name(rhs.nodes, self, graph),
+                    nodes: $fn_name_lhs(rhs.nodes, self, graph),
                     graph: &rhs.graph,
                 }
             }
@@ -1196,17 +1278,37 @@ macro_rules! math_impl_static_constant_type {
     };
 }
 macro_rules! math_impl_static_constant {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident) => {
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, f32);
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, f64);
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, usize);
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, i32);
+    ($fn_name:ident, $fn_name_lhs:ident, $op:ident, $op_lowercase:ident) => {
+        math_impl_static_constant_type!($fn_name, $fn_name_lhs, $op, $op_lowercase, f32);
+        math_impl_static_constant_type!($fn_name, $fn_name_lhs, $op, $op_lowercase, f64);
+        math_impl_static_constant_type!($fn_name, $fn_name_lhs, $op, $op_lowercase, usize);
+        math_impl_static_constant_type!($fn_name, $fn_name_lhs, $op, $op_lowercase, i32);
     };
 }
-math_impl_static_constant!(mul_sources_static_constant, Mul, mul);
-math_impl_static_constant!(add_sources_static_constant, Add, add);
-math_impl_static_constant!(sub_sources_static_constant, Sub, sub);
-math_impl_static_constant!(div_sources_static_constant, Div, div);
+math_impl_static_constant!(
+    mul_sources_static_constant,
+    mul_sources_static_constant,
+    Mul,
+    mul
+);
+math_impl_static_constant!(
+    add_sources_static_constant,
+    add_sources_static_constant,
+    Add,
+    add
+);
+math_impl_static_constant!(
+    sub_sources_static_constant,
+    sub_constant_static_sources,
+    Sub,
+    sub
+);
+math_impl_static_constant!(
+    div_sources_static_constant,
+    div_constant_static_sources,
+    Div,
+    div
+);
 
 impl<'a, 'b, F: Float, S0: Static, S1: Static> Shr<SH<'a, 'b, F, S1>> for SH<'a, 'b, F, S0>
 where
@@ -1378,7 +1480,7 @@ impl<'a, 'b, F: Float, D0: Dynamic, D1: Dynamic> BitOr<DH<'a, 'b, F, D1>> for DH
 // Arithmetics with and dynamic types and constants
 // Create implementations for arithmetics with constants f32 f64 or usize
 macro_rules! math_impl_dynamic_constant_type {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
+    ($fn_name:ident, $fn_name_lhs:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
         impl<'a, 'b, F: Float, S: Dynamic> $op<$ty> for DH<'a, 'b, F, S> {
             type Output = DH<'a, 'b, F, DynamicChannelsHandle>;
 
@@ -1396,7 +1498,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: DH<'a, 'b, F, S>) -> Self::Output {
                 let graph = rhs.graph;
-                let handle = $fn_name(rhs.nodes, self, graph);
+                let handle = $fn_name_lhs(rhs.nodes, self, graph);
                 DH {
                     nodes: handle,
                     graph,
@@ -1406,17 +1508,37 @@ macro_rules! math_impl_dynamic_constant_type {
     };
 }
 macro_rules! math_impl_dynamic_constant {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident) => {
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, f32);
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, f64);
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, usize);
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, i32);
+    ($fn_name:ident, $fn_name_lhs:ident, $op:ident, $op_lowercase:ident) => {
+        math_impl_dynamic_constant_type!($fn_name, $fn_name_lhs, $op, $op_lowercase, f32);
+        math_impl_dynamic_constant_type!($fn_name, $fn_name_lhs, $op, $op_lowercase, f64);
+        math_impl_dynamic_constant_type!($fn_name, $fn_name_lhs, $op, $op_lowercase, usize);
+        math_impl_dynamic_constant_type!($fn_name, $fn_name_lhs, $op, $op_lowercase, i32);
     };
 }
-math_impl_dynamic_constant!(mul_sources_dynamic_constant, Mul, mul);
-math_impl_dynamic_constant!(add_sources_dynamic_constant, Add, add);
-math_impl_dynamic_constant!(sub_sources_dynamic_constant, Sub, sub);
-math_impl_dynamic_constant!(div_sources_dynamic_constant, Div, div);
+math_impl_dynamic_constant!(
+    mul_sources_dynamic_constant,
+    mul_sources_dynamic_constant,
+    Mul,
+    mul
+);
+math_impl_dynamic_constant!(
+    add_sources_dynamic_constant,
+    add_sources_dynamic_constant,
+    Add,
+    add
+);
+math_impl_dynamic_constant!(
+    sub_sources_dynamic_constant,
+    sub_constant_dynamic_sources,
+    Sub,
+    sub
+);
+math_impl_dynamic_constant!(
+    div_sources_dynamic_constant,
+    div_constant_dynamic_sources,
+    Div,
+    div
+);
 
 #[derive(Copy, Clone)]
 /// A stack of two nodes, where the channels are mapped sequentially first to the first node, then to the second node, when creating connections.
-- 
2.43.0


From d78d719b0ba607d1a05f4d219a0a0896b1040021 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 23/53] fix: a delay within the block applies to one parameter
 change only

WrPreciseTiming kept the delay of a parameter after it had been used, so
later changes that were to take effect at once were late by it.
---
 .../src/wrappers_core/precise_timing.rs         |  6 ++++--
 knaster_graph/src/graph_gen.rs                  | 17 ++++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 8388b7a..71a0d7c 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -124,10 +124,12 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
     }
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
-        if self.next_delay[index] == 0 {
+        // The delay only applies to the next change
+        let delay = core::mem::take(&mut self.next_delay[index]);
+        if delay == 0 {
             self.ugen.param_apply(ctx, index, value);
         } else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {
-            self.waiting_changes[self.next_delay_i] = Some((self.next_delay[index], index, value));
+            self.waiting_changes[self.next_delay_i] = Some((delay, index, value));
             self.next_delay_i += 1;
         } else {
             rt_log!(ctx.logger(); "Warning: Not enough space for echeduled changes in WrHiResParams, change ignored. Allocate more space for saving scheduled changes by setting the generic DelayedChangesPerBlock to a higher number than the current", DELAYED_CHANGES_PER_BLOCK);
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 7e6197d..9a2eccc 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -279,13 +279,16 @@ fn apply_parameter_change<'a, F: Float>(
         for (key, task) in keys.iter().zip(tasks.iter_mut()) {
             if *key == node_key {
                 let g = &mut task.ugen;
-                if delay_in_block > 0 {
-                    g.set_delay_within_block_for_param(ctx, event.parameter, delay_in_block as u16);
-                }
-                if let Some(smoothing) = event.smoothing {
-                    g.param_apply(ctx, event.parameter, smoothing.into());
-                }
-                if let Some(value) = event.value {
+                let smoothing = event.smoothing.map(|smoothing| smoothing.into());
+                for value in smoothing.into_iter().chain(event.value) {
+                    // A delay applies to one change, so it has to be set for each of them
+                    if delay_in_block > 0 {
+                        g.set_delay_within_block_for_param(
+                            ctx,
+                            event.parameter,
+                            delay_in_block as u16,
+                        );
+                    }
                     g.param_apply(ctx, event.parameter, value);
                 }
                 return None;
-- 
2.43.0


From f02e5f88860b6a0b31ca49ab6e2e5a75fe636625 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 24/53] fix: WrPreciseTiming forgets applied changes when
 processing frame by frame

The number of waiting changes was not reset in process, so after a while every
delayed change was dropped.
---
 knaster_core_dsp/src/wrappers_core/precise_timing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 71a0d7c..126fc70 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -60,6 +60,7 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
                 self.ugen.param_apply(ctx, index, value);
             }
         }
+        self.next_delay_i = 0;
         self.ugen.process(ctx, flags, input)
     }
     fn process_block<InBlock, OutBlock>(
-- 
2.43.0


From fa18f095a141d31b8b71232e1b9e7a206ec1f468 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 25/53] fix: WrSmoothParams and WrArParams pass on what other
 wrappers pass on

WrSmoothParams swallowed audio rate parameter buffers, so an audio rate
connection to a parameter of `ugen.ar_params().smooth_params()` did nothing,
and neither passed on the delay of a parameter change, which every wrapper must.
---
 knaster_core_dsp/src/wrappers_core/audio_rate.rs  |  4 ++++
 .../src/wrappers_core/smooth_params.rs            | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 9096bac..bd42842 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -82,6 +82,10 @@ impl<T: UGen> UGen for WrArParams<T> {
         debug_assert!(index < T::Parameters::USIZE);
         self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 /// Adds an audio input channel and uses that channel to set a parameter every
diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5d9e4d3..5a85e93 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -242,6 +242,21 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
             }
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe {
+            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        }
+    }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 #[derive(Copy, Clone, Debug)]
-- 
2.43.0


From 51ee544bf2392e892ee1bbb1b7a87e4626d1046d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 26/53] fix: start smoothing from the value set before
 smoothing was enabled

The first ramp of a parameter always started from 0, whatever its value was.
---
 knaster_core_dsp/src/wrappers_core/smooth_params.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5a85e93..5b5fb81 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -210,7 +210,8 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 // With an audio rate parameter, ignore other incoming parameter changes
                 if !matches!(self.parameters[index], Rate::AudioRate) {
                     match &mut self.smoothing_state[index] {
-                        ParameterSmoothingState::None { .. } => {
+                        ParameterSmoothingState::None { current_value } => {
+                            *current_value = float_value;
                             self.ugen.param_apply(ctx, index, value)
                         }
                         ParameterSmoothingState::Linear {
-- 
2.43.0


From a641abeb69e2cf1523d5db43c66bfa0137b75d89 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 27/53] fix: smoothing over less than a frame sets the value at
 once

A duration of 0 (or less than one frame) set the parameter to NaN.
---
 .../src/wrappers_core/smooth_params.rs        | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5b5fb81..fec64ad 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -46,7 +46,7 @@ impl<T: UGen> WrSmoothParams<T> {
                     frames_elapsed,
                     ..
                 } => {
-                    let current_mix = (frames_elapsed) as PFloat / (duration_frames) as PFloat;
+                    let current_mix = ramp_position(frames_elapsed, duration_frames);
                     let current_value = (end_value - start_value) * current_mix + start_value;
                     self.smoothing_state[index] = ParameterSmoothingState::None { current_value };
                 }
@@ -82,8 +82,7 @@ impl<T: UGen> WrSmoothParams<T> {
                                 done: true,
                             }
                         } else {
-                            let current_mix =
-                                (frames_elapsed) as PFloat / (duration_frames) as PFloat;
+                            let current_mix = ramp_position(frames_elapsed, duration_frames);
                             let current_value =
                                 (end_value - start_value) * current_mix + start_value;
                             self.smoothing_state[index] = ParameterSmoothingState::Linear {
@@ -225,8 +224,7 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                             if *done {
                                 *start_value = *end_value;
                             } else {
-                                let current_mix =
-                                    (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
+                                let current_mix = ramp_position(*frames_elapsed, *duration_frames);
                                 let current_value =
                                     (*end_value - *start_value) * current_mix + *start_value;
                                 *start_value = current_value;
@@ -260,6 +258,15 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
     }
 }
 
+/// How far into a ramp we are, from 0 to 1. A ramp without a duration is always at its end.
+fn ramp_position(frames_elapsed: usize, duration_frames: usize) -> PFloat {
+    if duration_frames == 0 {
+        1.0
+    } else {
+        frames_elapsed as PFloat / duration_frames as PFloat
+    }
+}
+
 #[derive(Copy, Clone, Debug)]
 /// Represents the internal state of a channel of parameter smoothing.
 enum ParameterSmoothingState {
@@ -294,7 +301,7 @@ impl ParameterSmoothingState {
                 if *done {
                     None
                 } else {
-                    let current_mix = (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
+                    let current_mix = ramp_position(*frames_elapsed, *duration_frames);
                     let current_value = (*end_value - *start_value) * current_mix + *start_value;
                     if *frames_elapsed == *duration_frames {
                         *done = true;
-- 
2.43.0


From 736b3f075c9979c23085122b4794086f6884bed3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 28/53] fix: a ramp whose smoothing is changed still reaches
 its target

Changing the smoothing of a parameter in the middle of a ramp stopped the ramp,
leaving the parameter at a value nobody set.
---
 knaster_core_dsp/src/wrappers_core/smooth_params.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index fec64ad..108fa70 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -89,9 +89,9 @@ impl<T: UGen> WrSmoothParams<T> {
                                 start_value: current_value,
                                 end_value,
                                 duration_frames: new_duration_in_frames,
-                                frames_elapsed,
+                                frames_elapsed: 0,
                                 rate: new_rate,
-                                done: true,
+                                done: false,
                             }
                         }
                     }
-- 
2.43.0


From f87ed8447317a484e746e06d072039895c0a4e90 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 29/53] fix: audio rate smoothing changes the value every frame

Audio rate ramps were only run at the start of a block, and advanced one frame
per block. The code that runs them frame by frame was never reached.
---
 .../src/wrappers_core/smooth_params.rs         | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 108fa70..7c18c59 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -138,14 +138,14 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
     {
         let mut there_is_an_ar_parameter = false;
         let org_block = ctx.block;
-        // TODO: set the Rate  of a parameter
-        for p in &self.parameters {
-            there_is_an_ar_parameter = there_is_an_ar_parameter || matches!(*p, Rate::AudioRate);
+        for p in &self.smoothing_state {
+            there_is_an_ar_parameter = there_is_an_ar_parameter || p.has_new_ar_value();
         }
         if there_is_an_ar_parameter {
             //  run sample by sample for as long as needed
             let mut i = 0;
-            while i < ctx.frames_to_process() {
+            let frames_to_process = org_block.frames_to_process();
+            while i < frames_to_process {
                 let mut there_is_a_new_smoothing_value = false;
 
                 for p in &self.smoothing_state {
@@ -166,15 +166,17 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                     self.ugen.process_block(ctx, flags, &input, &mut output);
                     i += 1;
                 } else {
-                    // Process the full block
-                    let input = PartialBlock::from_block(input, i, input.block_size() - i);
-                    let mut output = output.partial_mut(i, output.block_size() - i);
-                    let partial_ctx = org_block.make_partial(i, ctx.block_size() - i);
+                    // Process the rest of the block
+                    let frames_left = frames_to_process - i;
+                    let input = PartialBlock::from_block(input, i, frames_left);
+                    let mut output = output.partial_mut(i, frames_left);
+                    let partial_ctx = org_block.make_partial(i, frames_left);
                     ctx.block = partial_ctx;
                     self.ugen.process_block(ctx, flags, &input, &mut output);
                     break;
                 }
             }
+            ctx.block = org_block;
         } else {
             // We only have potentially block rate parameters, run the whole block
             for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-- 
2.43.0


From a407c170e3556b5dd9977b0e3e0a703b7eab73b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 30/53] fix: block rate smoothing takes as long as asked for in
 partial blocks

Every partial block advanced the ramp by a whole block.
---
 knaster_core_dsp/src/wrappers_core/smooth_params.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 7c18c59..5e1c0a2 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -154,7 +154,7 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 }
                 if there_is_a_new_smoothing_value {
                     for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                        if let Some(new_value) = state.next_value(ctx.block_size(), i) {
+                        if let Some(new_value) = state.next_value(frames_to_process, i) {
                             self.ugen
                                 .param_apply(ctx, j, ParameterValue::Float(new_value))
                         }
@@ -180,7 +180,7 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
         } else {
             // We only have potentially block rate parameters, run the whole block
             for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                if let Some(new_value) = state.next_value(ctx.block_size(), 0) {
+                if let Some(new_value) = state.next_value(ctx.frames_to_process(), 0) {
                     self.ugen
                         .param_apply(ctx, j, ParameterValue::Float(new_value))
                 }
-- 
2.43.0


From 68c6500d196ef3ab8a56a6b7f97e0218479694b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 31/53] fix: a frame processed as part of a block knows its
 offset and time

The default process_block called process for every frame with the offset and
the frame clock of the start of the block.
---
 knaster_core/src/ugen.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 1383d7f..c6a26b3 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -273,7 +273,10 @@ pub trait UGen {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        for frame in 0..ctx.block.frames_to_process {
+        let org_block = ctx.block;
+        for frame in 0..org_block.frames_to_process {
+            // Let `process` know where in the block, and in time, its frame is
+            ctx.block = org_block.make_partial(frame, 1);
             // This is potentially a tiny bit inefficient because it initialises the memory before overwriting it.
             let mut in_frame = Frame::default();
             for i in 0..Self::Inputs::USIZE {
@@ -284,6 +287,7 @@ pub trait UGen {
                 output.write(out_frame[i], i, frame);
             }
         }
+        ctx.block = org_block;
     }
 
     /// Specifies which [`ParameterType`] each parameter is. If the types given to [`Gen::param_apply`] match
-- 
2.43.0


From 59daf42a8b63cb43a3be65b3664c1ef2f04ff66d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 32/53] fix: UGens report the frame of the block at which they
 are done

Envelope, DoneOnTrig, and all of them in partial blocks or under wrappers which
run frame by frame, reported the start of the block, or the offset into the
partial block. With Done::FreeParent everything before that in the block was
silenced. DoneOnTrig reported done again every frame after its trigger.
---
 knaster_core_dsp/src/ugens/buffer.rs    |  6 +++---
 knaster_core_dsp/src/ugens/envelopes.rs | 22 ++++++++++++----------
 knaster_core_dsp/src/ugens/util.rs      |  5 +++--
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 8210ade..6cf34d3 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -121,7 +121,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
 
     fn process(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         flags: &mut UGenFlags,
         _input: knaster_core::Frame<Self::Sample, Self::Inputs>,
     ) -> knaster_core::Frame<Self::Sample, Self::Outputs> {
@@ -140,7 +140,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             if self.looping {
                 self.reset();
             } else {
-                flags.mark_done(0);
+                flags.mark_done((ctx.block_start_offset() + 1) as u32);
             }
         }
         output
@@ -169,7 +169,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
                     if self.looping {
                         self.reset();
                     } else {
-                        flags.mark_done((i + 1) as u32);
+                        flags.mark_done((ctx.block_start_offset() + i + 1) as u32);
                     }
                 }
                 if self.finished {
diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 170501e..029a3bc 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -150,14 +150,15 @@ impl<F: Float> EnvAsr<F> {
         }
     }
 
-    fn process(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
-        let out = self.next_sample(flags, 0);
+    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
+        let out = self.next_sample(flags, ctx.block_start_offset() as u32);
         [out]
     }
 
-    fn process_block(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 1]) {
+    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 1]) {
+        let offset = ctx.block_start_offset();
         for (i, out) in output[0].iter_mut().enumerate() {
-            *out = self.next_sample(flags, i as u32);
+            *out = self.next_sample(flags, (offset + i) as u32);
         }
     }
 }
@@ -282,13 +283,13 @@ impl<F: Float> EnvAr<F> {
             }
         }
     }
-    fn process(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
-        let out = self.next_sample(flags, 0);
+    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
+        let out = self.next_sample(flags, ctx.block_start_offset() as u32);
         [out]
     }
     fn process_block<InBlock, OutBlock>(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         flags: &mut UGenFlags,
         _input: &InBlock,
         output: &mut OutBlock,
@@ -296,8 +297,9 @@ impl<F: Float> EnvAr<F> {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
+        let offset = ctx.block_start_offset();
         for (i, out) in output.channel_as_slice_mut(0).iter_mut().enumerate() {
-            *out = self.next_sample(flags, i as u32);
+            *out = self.next_sample(flags, (offset + i) as u32);
         }
     }
 }
@@ -406,7 +408,7 @@ mod alloc_envelopes {
 
         fn process(
             &mut self,
-            _ctx: &mut AudioCtx,
+            ctx: &mut AudioCtx,
             flags: &mut UGenFlags,
             _input: Frame<Self::Sample, Self::Inputs>,
         ) -> Frame<Self::Sample, Self::Outputs> {
@@ -454,7 +456,7 @@ mod alloc_envelopes {
                             };
                         } else {
                             self.state = EnvelopeState::Stopped;
-                            flags.mark_done(0);
+                            flags.mark_done(ctx.block_start_offset() as u32);
                         }
                     }
                 }
diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index 8b08cec..dfdc142 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -25,9 +25,10 @@ impl<F: Float> DoneOnTrig<F> {
         self.triggered = true;
     }
     #[allow(missing_docs)]
-    pub fn process(&mut self, flags: &mut UGenFlags, _input: [F; 0]) -> [F; 0] {
+    pub fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, _input: [F; 0]) -> [F; 0] {
         if self.triggered {
-            flags.mark_done(0);
+            self.triggered = false;
+            flags.mark_done(ctx.block_start_offset() as u32);
         }
         []
     }
-- 
2.43.0


From 4b56a24cbec490430083de62b55a6d048c32f120 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 33/53] fix: SampleDelay supports delays up to and beyond its
 maximum delay time

The maximum delay time itself gave no delay at all, and anything longer panicked
on the audio thread. It is now treated as the maximum delay time.
---
 knaster_core_dsp/src/ugens/delay.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index f6a4c7a..ff1faae 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -36,14 +36,17 @@ impl<F: Float> SampleDelay<F> {
     }
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 1] {
         self.buffer[self.write_position] = input[0];
+        // Times longer than the maximum delay are the maximum delay
+        let delay_samples = self.delay_samples.min(self.buffer.len() - 1);
         let out = self.buffer
-            [(self.write_position + self.buffer.len() - self.delay_samples) % self.buffer.len()];
+            [(self.write_position + self.buffer.len() - delay_samples) % self.buffer.len()];
         self.write_position = (self.write_position + 1) % self.buffer.len();
         [out]
     }
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         self.buffer =
-            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize];
+            // One more than the longest delay, for the sample being written
+            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize + 1];
         self.write_position = 0;
     }
 }
-- 
2.43.0


From a3b728d0a56fd08393a3e62e6fb0df0cb6a7d7c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 34/53] fix: the state of AllpassInterpolator starts from and
 is reset to 0

As documented. It was 1, so allpass delays put out a click when started.
---
 knaster_core_dsp/src/ugens/delay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index ff1faae..8441bac 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -64,14 +64,14 @@ impl<F: Float> AllpassInterpolator<F> {
     pub fn new() -> Self {
         Self {
             coeff: F::ONE,
-            prev_input: F::ONE,
-            prev_output: F::ONE,
+            prev_input: F::ZERO,
+            prev_output: F::ZERO,
         }
     }
     /// Reset any state to 0
     pub fn clear(&mut self) {
-        self.prev_input = F::ONE;
-        self.prev_output = F::ONE;
+        self.prev_input = F::ZERO;
+        self.prev_output = F::ZERO;
     }
     /// Set the fractional number of frames in the delay time that we want to interpolate over
     pub fn set_delta(&mut self, delta: F) {
-- 
2.43.0


From c106e5a6fd1602de5713ba5caa23b9bafb8c8ff1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 35/53] fix: allpass delays work for the shortest and longest
 delay times

Between 1 and 1.5 frames (and below 1) there were 0 frames between writing and
reading, which delays by the length of the whole buffer. The maximum delay time
was ignored by AllpassDelay, while AllpassFeedbackDelay panicked for anything
longer; it now ignores longer times like AllpassDelay.
---
 knaster_core_dsp/src/ugens/delay.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 8441bac..6b16c92 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -139,7 +139,7 @@ impl<F: Float> AllpassDelay<F> {
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
         let delay_frames = seconds * ctx.sample_rate() as PFloat;
-        if (delay_frames as usize) < self.buffer.len() {
+        if (delay_frames as usize) <= self.buffer.len() {
             self.set_delay_in_frames(F::new(delay_frames));
         }
     }
@@ -164,7 +164,11 @@ impl<F: Float> AllpassDelay<F> {
         let num_frames_float = num_frames.floor();
         self.num_frames = num_frames_float.to_usize().unwrap();
         let mut delta = num_frames - num_frames_float;
-        if num_frames > F::new(0.5) && delta < F::new(0.5) {
+        if self.num_frames == 0 {
+            // The delay line is read before it is written so 1 frame is the shortest delay
+            self.num_frames = 1;
+            delta = F::ZERO;
+        } else if self.num_frames > 1 && delta < F::new(0.5) {
             delta += F::ONE;
             self.num_frames -= 1;
         }
@@ -233,7 +237,7 @@ impl<F: Float> AllpassFeedbackDelay<F> {
     /// Set delay time in seconds
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
-        self.set_delay_in_frames(F::new(seconds * ctx.sample_rate() as f64));
+        self.allpass_delay.delay_time(ctx, seconds);
         self.previous_delay_time = F::new(seconds);
     }
     /// Set delay feedback
-- 
2.43.0


From afc9f6aae4408316458ac371950b2a226b01360b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 36/53] fix: set_delay_in_frames_and_clear clears the
 interpolation as well

---
 knaster_core_dsp/src/ugens/delay.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 6b16c92..da3bf37 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -197,6 +197,7 @@ impl<F: Float> AllpassDelay<F> {
         for sample in &mut self.buffer {
             *sample = F::ZERO;
         }
+        self.allpass.clear();
         self.set_delay_in_frames(num_frames);
         // println!(
         //     "num_frames: {}, delta: {}",
-- 
2.43.0


From abe3d2a1dbcdb3f580f0a46a8eea6ed55f46827c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 37/53] fix: StaticSampleDelay keeps to the delay length set

Reading and writing blocks ignored the delay length, or panicked, once it had
been set to less than the maximum. A length of 0, as well as a fraction of more
than 1, led to panics later on.
---
 knaster_core_dsp/src/ugens/delay.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index da3bf37..a01ee48 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -337,28 +337,31 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Set a new delay length for the delay. Real time safe. If the given length is longer than the max delay length it will be set to the max delay length.
     #[inline]
     pub fn set_delay_length(&mut self, delay_length_in_samples: usize) {
-        self.delay_length = delay_length_in_samples.min(self.buffer.len());
+        self.delay_length = delay_length_in_samples.clamp(1, self.buffer.len());
+        self.position %= self.delay_length;
     }
     /// Set a new delay length for the delay as a fraction of the entire delay length. Real time safe.
     pub fn set_delay_length_fraction(&mut self, fraction: F) {
-        self.delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
+        let delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
             * fraction)
             .to_usize()
             .unwrap();
+        self.set_delay_length(delay_length);
     }
 
     /// Read a whole block at a time. Only use this if the delay time is longer than 1 block.
     #[inline]
     pub fn read_block(&mut self, output: &mut [F]) {
         let block_size = output.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let read_end = self.position + block_size;
-        if read_end <= self.buffer.len() {
+        if read_end <= self.delay_length {
             output.copy_from_slice(&self.buffer[self.position..read_end]);
         } else {
             // block wraps around
             let read_end = read_end % self.delay_length;
-            output[0..(block_size - read_end)].copy_from_slice(&self.buffer[self.position..]);
+            output[0..(block_size - read_end)]
+                .copy_from_slice(&self.buffer[self.position..self.delay_length]);
             output[(block_size - read_end)..].copy_from_slice(&self.buffer[0..read_end]);
         }
     }
@@ -366,17 +369,18 @@ impl<F: Float> StaticSampleDelay<F> {
     #[inline]
     pub fn write_block_and_advance(&mut self, input: &[F]) {
         let block_size = input.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let write_end = self.position + block_size;
-        if write_end <= self.buffer.len() {
+        if write_end <= self.delay_length {
             self.buffer[self.position..write_end].copy_from_slice(input);
         } else {
             // block wraps around
             let write_end = write_end % self.delay_length;
-            self.buffer[self.position..].copy_from_slice(&input[0..block_size - write_end]);
+            self.buffer[self.position..self.delay_length]
+                .copy_from_slice(&input[0..block_size - write_end]);
             self.buffer[0..write_end].copy_from_slice(&input[block_size - write_end..]);
         }
-        self.position = (self.position + block_size) % self.buffer.len();
+        self.position = (self.position + block_size) % self.delay_length;
     }
     /// Read a sample from the buffer. Does not advance the frame pointer. Read first, then write.
     #[inline]
@@ -411,7 +415,7 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Process one block of the delay. Will choose block based processing at runtime if the delay time is larger than the block size.
     #[inline]
     pub fn process(&mut self, input: &[F], output: &mut [F], block_size: usize) {
-        if self.buffer.len() > block_size {
+        if self.delay_length > block_size {
             self.read_block(output);
             self.write_block_and_advance(input);
         } else {
-- 
2.43.0


From cd80aa5b8a8f769a7d68f8c5e31b928140174f1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 38/53] fix: read zeroes outside of a Buffer instead of
 undefined memory

BufferReader can be set to start, or to end, outside of its buffer, and to have
more channels than the buffer. The samples were read without bounds checks.
---
 knaster_core_dsp/src/dsp/buffer.rs | 35 +++++++++++++++++-------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index a62615e..d740dc1 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -85,27 +85,32 @@ impl<F: Float> Buffer<F> {
     #[inline]
     pub fn get_linear_interp(&self, index: F, channel: usize) -> F {
         let mix = index.fract();
-        let index_u = index.to_usize().unwrap() * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
-        }
+        self.linear_interp_at(index.to_usize(), mix, channel)
     }
     /// Linearly interpolate between the value in between to samples using an f64 as an index. f64
     /// indexing is necessary for long buffers.
     #[inline]
     pub fn get_linear_interp_f64(&self, index: f64, channel: usize) -> F {
         let mix = F::new(index.fract());
-        let index_u = index as usize * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
+        let frame = if index >= 0.0 {
+            Some(index as usize)
+        } else {
+            None
+        };
+        self.linear_interp_at(frame, mix, channel)
+    }
+    #[inline]
+    fn linear_interp_at(&self, frame: Option<usize>, mix: F, channel: usize) -> F {
+        match frame {
+            Some(frame)
+                if channel < self.num_channels && frame < self.buffer.len() / self.num_channels =>
+            {
+                let index_u = frame * self.num_channels + channel;
+                let next = (index_u + self.num_channels) % self.buffer.len();
+                self.buffer[index_u] * (F::ONE - mix) + self.buffer[next] * mix
+            }
+            // There is nothing outside of the buffer
+            _ => F::ZERO,
         }
     }
     /// Get the samples for all channels at the index.
-- 
2.43.0


From bc7922e1e5d7704ceb2c8c8865325111f9414add Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 39/53] fix: Buffer::new allocates every channel of the buffer

---
 knaster_core_dsp/src/dsp/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index d740dc1..7611aee 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -48,7 +48,7 @@ impl<F: Float> Buffer<F> {
     /// Create an empty buffer with the specified options
     pub fn new(size: usize, num_channels: usize, sample_rate: f64) -> Self {
         Buffer {
-            buffer: vec![F::ZERO; size],
+            buffer: vec![F::ZERO; size * num_channels],
             num_channels,
             num_frames: size as f64,
             sample_rate,
-- 
2.43.0


From efc3016d188c9c415ca4979e7201f884a547a6d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 40/53] fix: BufferReader only processes the frames of a
 partial block

It wrote a full block of frames past the end of the partial output block and
advanced by too much.
---
 knaster_core_dsp/src/ugens/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 6cf34d3..0956768 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -158,7 +158,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     {
         let mut stop_sample = None;
         if !self.finished {
-            for i in 0..ctx.block_size() {
+            for i in 0..ctx.frames_to_process() {
                 for chan in 0..Channels::USIZE {
                     let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
                     output.write(sample, chan, i);
-- 
2.43.0


From 09d949f63bc9668d1d9dcf1f7267bf582e88c5a6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 41/53] fix: a negative BufferReader duration is the duration
 of the buffer

As documented.
---
 knaster_core_dsp/src/ugens/buffer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 0956768..3e7274b 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -91,8 +91,11 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     #[param]
     #[allow(missing_docs)]
     pub fn duration_s(&mut self, duration_s: PFloat) {
-        let dur_time = Seconds::from_secs_f64(duration_s);
-        self.dur_frame = dur_time.to_samples_f64(self.buffer.sample_rate());
+        self.dur_frame = if duration_s < 0.0 {
+            self.buffer.num_frames()
+        } else {
+            Seconds::from_secs_f64(duration_s).to_samples_f64(self.buffer.sample_rate())
+        };
         self.end_frame = self.start_frame + self.dur_frame;
     }
     #[param]
-- 
2.43.0


From bf3b4491397c1786a2fa72821fa4b88b9e8f3276 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 42/53] fix: wavetable phase offsets are a fraction of the
 period

The offset, set in a range of 0-1, was converted to a fraction of one sample of
the table and had hardly any effect.
---
 knaster_core_dsp/src/ugens/osc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/osc.rs b/knaster_core_dsp/src/ugens/osc.rs
index 9a376d6..204af9e 100644
--- a/knaster_core_dsp/src/ugens/osc.rs
+++ b/knaster_core_dsp/src/ugens/osc.rs
@@ -48,7 +48,9 @@ mod wavetable_vec {
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase(
+                (offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as u32,
+            );
         }
         /// Reset the phase of the oscillator.
         #[param]
@@ -131,7 +133,9 @@ mod wavetable_vec {
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase(
+                (offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as u32,
+            );
         }
         /// Reset the phase of the oscillator.
         #[param]
-- 
2.43.0


From 8a21329fc410831a36594445bbcad78cc040cce1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 43/53] fix: EnvAsr and EnvAr restart from their current value

Restarting during the release jumped to the position in the release, and
restarting an EnvAsr while sustaining overshot 1.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 029a3bc..b2cc2e7 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -42,9 +42,11 @@ impl<F: Float> EnvAsr<F> {
         }
     }
     /// Start the envelope from the current value
-    // TODO: Take the current value of self.t from Self::next_sample because the release value is
-    // not linear.
     fn trig_start(&mut self) {
+        if let AsrState::Releasing = self.state {
+            // Unlike the attack, the release is not linear
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = AsrState::Attacking;
     }
     /// Progress the envelope and return the next sample value
@@ -62,6 +64,7 @@ impl<F: Float> EnvAsr<F> {
 
                 if self.t >= F::ONE {
                     self.state = AsrState::Sustaining;
+                    self.t = F::ONE;
                 }
             }
             AsrState::Sustaining => {
@@ -197,8 +200,11 @@ impl<F: Float> EnvAr<F> {
         }
     }
     /// (Re)start the envelope from the current value
-    // TODO: Take the relase curve into account, e.g. by taking the current value of `next_sample`
     fn trig_start(&mut self) {
+        if let ArState::Releasing = self.state {
+            // Unlike the attack, the release is not linear
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = ArState::Attacking;
     }
     /// Progress the envelope one frame and return the value
-- 
2.43.0


From 7039a0608a8656cac27fba30ea1fc489b03a7d47 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 44/53] fix: Envelope segments of no duration, and stopping at
 the end of a segment

The value of a segment without duration was NaN, and stopping in the frame a
segment ends overshot its value.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index b2cc2e7..492a7b7 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -442,11 +442,7 @@ mod alloc_envelopes {
                     } else if current_segment + 1 < self.segments.len() {
                         self.from_value = self.segments[current_segment].value;
                         let segment = &self.segments[current_segment];
-                        out = F::new(
-                            self.from_value
-                                + (t * segment.reciprocal_duration)
-                                    * (segment.value - self.from_value),
-                        );
+                        out = F::new(self.from_value);
                         self.state = EnvelopeState::Running {
                             current_segment: current_segment + 1,
                             current_time: current_time - segment.duration
@@ -524,8 +520,13 @@ mod alloc_envelopes {
                     {
                         let t = current_time;
                         let segment = &self.segments[current_segment];
-                        self.from_value = self.from_value
-                            + (t * segment.reciprocal_duration) * (segment.value - self.from_value);
+                        self.from_value = if t < segment.duration {
+                            self.from_value
+                                + (t * segment.reciprocal_duration)
+                                    * (segment.value - self.from_value)
+                        } else {
+                            segment.value
+                        };
                     }
                     self.state = EnvelopeState::Stopped;
                 }
-- 
2.43.0


From 42460e0c696b7d8ff6588f2a0ed5f8c7b0309e23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 45/53] fix: the SvfFilter bell is centered on the cutoff
 frequency

g is not scaled by the gain for the bell filter, see Simper (2013). The filter
was off by half an octave for 12 dB and the gain at cutoff was not the gain set.
---
 knaster_core_dsp/src/ugens/svf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/svf.rs b/knaster_core_dsp/src/ugens/svf.rs
index e39b7b1..35407c5 100644
--- a/knaster_core_dsp/src/ugens/svf.rs
+++ b/knaster_core_dsp/src/ugens/svf.rs
@@ -207,7 +207,7 @@ impl<F: Float> SvfFilter<F> {
             }
             SvfFilterType::Bell => {
                 let amp = F::new(10.0).powf(gain_db / F::new(40.));
-                let g = ((F::PI * cutoff) / sample_rate).tan() / amp.sqrt();
+                let g = ((F::PI * cutoff) / sample_rate).tan();
                 let k = F::ONE / (q * amp);
                 self.a1 = F::ONE / (F::ONE + g * (g + k));
                 self.a2 = g * self.a1;
-- 
2.43.0


From da75ad97805ecf8fd26039d2c6111c67e07685ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 46/53] fix: LogProbe logs every N samples, not every N+1

---
 knaster_core_dsp/src/ugens/util.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index dfdc142..a280296 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -94,9 +94,8 @@ impl<F: Float> LogProbe<F> {
         if self.sample_counter == 0 {
             rt_log!(_ctx.logger(); "Probe", self.name, input[0].to_f64());
             self.sample_counter = self.samples_between_logs;
-        } else {
-            self.sample_counter -= 1;
         }
+        self.sample_counter = self.sample_counter.saturating_sub(1);
         []
     }
 }
-- 
2.43.0


From 7fabf5192d8329aefc19532923cc5f3996234481 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 47/53] fix: Galactic does not overflow for samples of 2 and
 more

The dither level, 2 to the power of the exponent + 62, was calculated using u64.
---
 knaster_airwindows/src/galactic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knaster_airwindows/src/galactic.rs b/knaster_airwindows/src/galactic.rs
index fba545c..2ae7bd2 100644
--- a/knaster_airwindows/src/galactic.rs
+++ b/knaster_airwindows/src/galactic.rs
@@ -366,7 +366,7 @@ impl<F: Float> Galactic<F> {
             input_sample_l += F::new(
                 ((fpd_l as f64) - (0x7fffffff_u32) as f64)
                     * 5.5e-36
-                    * (2_u64.pow(exp_l + 62) as f64),
+                    * 2.0_f64.powi(exp_l.saturating_add(62)),
             );
             self.fpd_l = fpd_l;
 
@@ -378,7 +378,7 @@ impl<F: Float> Galactic<F> {
             input_sample_r += F::new(
                 ((fpd_r as f64) - (0x7fffffff_u32) as f64)
                     * 5.5e-36
-                    * (2_u64.pow(exp_r + 62) as f64),
+                    * 2.0_f64.powi(exp_r.saturating_add(62)),
             );
             self.fpd_r = fpd_r;
 
@@ -388,13 +388,13 @@ impl<F: Float> Galactic<F> {
     }
 }
 
-fn frexp(s: f32) -> (f32, u32) {
+fn frexp(s: f32) -> (f32, i32) {
     if 0.0 == s {
         (s, 0)
     } else {
         let lg = s.abs().log2();
         let x = (lg - lg.floor() - 1.0).exp2();
         let exp = lg.floor() + 1.0;
-        (s.signum() * x, exp as u32)
+        (s.signum() * x, exp as i32)
     }
 }
-- 
2.43.0


From c615adc17cc00ddda55f6b066cda91daedf7c91f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 48/53] fix: nothing is read before the start of a Buffer

---
 knaster_core_dsp/src/dsp/buffer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index 7611aee..abbfdf2 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -85,7 +85,12 @@ impl<F: Float> Buffer<F> {
     #[inline]
     pub fn get_linear_interp(&self, index: F, channel: usize) -> F {
         let mix = index.fract();
-        self.linear_interp_at(index.to_usize(), mix, channel)
+        let frame = if index >= F::ZERO {
+            index.to_usize()
+        } else {
+            None
+        };
+        self.linear_interp_at(frame, mix, channel)
     }
     /// Linearly interpolate between the value in between to samples using an f64 as an index. f64
     /// indexing is necessary for long buffers.
-- 
2.43.0


From 70f285c7b70ea72199da21ba82449eda3aa42748 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 49/53] fix: sums of connections that were disconnected or
 replaced are removed

---
 knaster_graph/src/graph.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 7466f87..184946e 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1114,16 +1114,34 @@ impl<F: Float> Graph<F> {
         }
         Ok(())
     }
+    /// Returns true if any input, parameter or graph output is connected to this node
+    fn has_dependents(&self, key: NodeKey) -> bool {
+        let is_source =
+            |edge: &Edge| matches!(edge.source, NodeKeyOrGraph::Node(source) if source == key);
+        self.node_input_edges
+            .values()
+            .any(|edges| edges.iter().flatten().any(is_source))
+            || self.output_edges.iter().flatten().any(is_source)
+            || self
+                .node_parameter_edges
+                .values()
+                .any(|edges| edges.iter().any(|edge| edge.source == key))
+    }
     /// If the node should be automatically removed, this removes it.
     fn evaluate_if_node_should_be_removed(&mut self, key: NodeKey) {
         if !self.node_exists(key) {
             return;
         }
-        let node = &mut self.get_nodes_mut()[key];
-        if node.auto_math_node {
+        if self.get_nodes()[key].auto_math_node {
             // We assume math nodes have two inputs and one output
-            assert_eq!(node.data.inputs, 2);
-            assert_eq!(node.data.outputs, 1);
+            let data = &self.get_nodes()[key].data;
+            assert_eq!(data.inputs, 2);
+            assert_eq!(data.outputs, 1);
+            // The sum has been disconnected or replaced
+            if !self.has_dependents(key) {
+                self.free_node_from_key(key).ok();
+                return;
+            }
             if let Some(edges) = self.node_input_edges.get(key) {
                 match (edges[0], edges[1]) {
                     (Some(_), Some(_)) => (),
-- 
2.43.0


From c9fe2d27e75733840827a81b2413b8f59533c8c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 50/53] fix: KnasterIntegerParameter describes enums with
 explicit discriminants by their values

---
 knaster_macros/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index 50a9861..b0fee5f 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -22,20 +22,19 @@ pub fn knaster_integer_parameter(input: TokenStream) -> TokenStream {
 
     let ident = input.ident;
 
-    let (len, descriptions) = match input.data {
-        syn::Data::Enum(enum_item) => {
-            let descriptions = enum_item
-                .variants
-                .iter()
-                .map(|v| v.ident.to_string())
-                .collect::<Vec<_>>();
-            (enum_item.variants.len(), descriptions)
-        }
+    let variants = match input.data {
+        syn::Data::Enum(enum_item) => enum_item
+            .variants
+            .into_iter()
+            .map(|v| v.ident)
+            .collect::<Vec<_>>(),
         _ => panic!("KnasterIntegerParameter only works on Enums"),
     };
-    let description_matches = descriptions.iter().enumerate().map(|(i, d)| {
+    // The variants may have explicit discriminants, so their values are not always their positions
+    let description_matches = variants.iter().map(|variant| {
+        let description = variant.to_string();
         quote! {
-            PInteger(#i) => Some(#d),
+            PInteger(v) if v == #ident :: #variant as usize => Some(#description),
         }
     });
 
@@ -53,9 +52,13 @@ pub fn knaster_integer_parameter(input: TokenStream) -> TokenStream {
     }
     impl #crate_ident::PIntegerConvertible for #ident {
         fn pinteger_range() -> (PInteger, PInteger) {
+            let end = [ #(#ident :: #variants as usize),* ]
+                .into_iter()
+                .max()
+                .map_or(0, |max| max + 1);
             (
                 PInteger(0),
-                PInteger(#len),
+                PInteger(end),
             )
         }
         fn pinteger_descriptions(v: PInteger) -> Option<&'static str> {
-- 
2.43.0


From 4cfd50226c0cc9340b443623365cd22324816bc1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 51/53] fix: loading a sound file returns an error instead of
 panicking

---
 knaster_core_dsp/src/dsp/buffer.rs | 37 ++++++++++++------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index abbfdf2..1dd0b0e 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -164,7 +164,9 @@ impl<F: Float> Buffer<F> {
     pub fn from_sound_file(path: impl Into<PathBuf>) -> Result<Self, BufferError> {
         let path = path.into();
         let mut buffer = Vec::new();
-        let inp_file = std::fs::File::open(&path).expect("Buffer: failed to open file!");
+        let not_supported =
+            || BufferError::FileFormatNotSupported(path.to_string_lossy().into_owned());
+        let inp_file = std::fs::File::open(&path).map_err(SymphoniaError::from)?;
         // hint to the format registry of the decoder what file format it might be
         let mut hint = Hint::new();
         // Provide the file extension as a hint.
@@ -193,16 +195,15 @@ impl<F: Float> Buffer<F> {
                     .tracks()
                     .iter()
                     .find(|t| t.codec_params.codec != CODEC_TYPE_NULL)
-                    .expect("no supported audio tracks");
+                    .ok_or_else(not_supported)?;
                 // Set the decoder options.
                 let decode_options = DecoderOptions {
                     ..Default::default()
                 };
 
                 // Create a decoder for the stream.
-                let mut decoder = symphonia::default::get_codecs()
-                    .make(&track.codec_params, &decode_options)
-                    .expect("unsupported codec");
+                let mut decoder =
+                    symphonia::default::get_codecs().make(&track.codec_params, &decode_options)?;
                 let codec_params = track.codec_params.clone();
                 // Store the track identifier, it will be used to filter packets.
                 let track_id = track.id;
@@ -217,19 +218,13 @@ impl<F: Float> Buffer<F> {
                             // then restart the decode loop. This is an advanced feature and it is not
                             // unreasonable to consider this "the end." As of v0.5.0, the only usage of this is
                             // for chained OGG physical streams.
-                            unimplemented!();
+                            break;
                         }
-                        Err(err) => match err {
-                            SymphoniaError::IoError(_e) => {
-                                // println!("{e}");
-                                break;
-                            }
-                            SymphoniaError::DecodeError(_) => todo!(),
-                            SymphoniaError::SeekError(_) => todo!(),
-                            SymphoniaError::Unsupported(_) => todo!(),
-                            SymphoniaError::LimitError(_) => todo!(),
-                            SymphoniaError::ResetRequired => todo!(),
-                        },
+                        Err(SymphoniaError::IoError(_e)) => {
+                            // println!("{e}");
+                            break;
+                        }
+                        Err(err) => return Err(From::from(err)),
                     };
 
                     // Consume any new metadata that has been read since the last packet.
@@ -290,9 +285,7 @@ impl<F: Float> Buffer<F> {
             }
             Err(_err) => {
                 // The input was not supported by any format reader.
-                return Err(BufferError::FileFormatNotSupported(
-                    path.to_str().unwrap().to_string(),
-                ));
+                return Err(not_supported());
             }
         };
 
@@ -308,8 +301,8 @@ impl<F: Float> Buffer<F> {
             // https://docs.rs/symphonia-core/0.5.1/src/symphonia_core/audio.rs.html#29-90
             // The number of bits set to 1 is the number of channels in the buffer.
             (
-                cp.sample_rate.unwrap() as f64,
-                cp.channels.unwrap().bits().count_ones() as usize,
+                cp.sample_rate.ok_or_else(not_supported)? as f64,
+                cp.channels.ok_or_else(not_supported)?.bits().count_ones() as usize,
             )
         };
         let buffer = buffer.into_iter().map(|v| F::from(v).unwrap()).collect();
-- 
2.43.0


From 5a11d5ab3e8b582fdd43a786bbc0fa1f530d4bd2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:46 +0000
Subject: [PATCH 52/53] fix: AudioProcessor::run refuses inputs shorter than a
 block

---
 knaster_graph/src/processor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 89f0634..bfa71a3 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -116,9 +116,18 @@ impl<F: Float> AudioProcessor<F> {
     }
 
     /// Produce one block of audio with the given inputs
+    ///
+    /// # Panics
+    ///
+    /// Panics if there isn't one slice per input to the top level graph, or if a slice is shorter
+    /// than the block size.
     pub fn run(&mut self, inputs: &[&[F]]) {
         assert_eq!(inputs.len(), self.input_pointers.len());
         for (slice, ptr) in inputs.iter().zip(self.input_pointers.iter_mut()) {
+            assert!(
+                slice.len() >= self.block_size,
+                "Every input must be at least as long as the block"
+            );
             *ptr = slice.as_ptr();
         }
         self.ctx.block.set_frame_clock(self.frame_clock);
-- 
2.43.0


From e34f11b4d1056e3f0c610489fd484e4bd58a8155 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:09 +0000
Subject: [PATCH 53/53] fix: NonAaWavetable::set_from_buffer refuses buffers of
 other sizes than it reads

---
 knaster_core_dsp/src/dsp/wavetable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index e5a332e..41f9342 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -118,9 +118,11 @@ mod wavetable_vec {
         }
         /// Create a [`PartialTable`] from an existing buffer.
         ///
-        /// # Errors
-        /// The buffer has to be of [`TABLE_SIZE`] length, otherwise an error will be returned.
+        /// # Panics
+        /// Panics if the buffer isn't of [`TABLE_SIZE`] length.
         pub fn set_from_buffer(&mut self, buffer: Vec<F>) {
+            // `get` relies on every phase being within the buffer
+            assert_eq!(buffer.len(), TABLE_SIZE);
             // TODO: FFT of the buffer for anti-aliasing
             self.buffer = buffer;
             self.update_diff_buffer();
-- 
2.43.0

