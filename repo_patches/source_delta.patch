From 6d50b5fee35148ebe98a68b7c5210e95170ae322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 01/15] Observation points for verification, under
 cfg(vertigo_verif)

---
 .../src/driver_module/api/external_api.rs     |   6 +
 crates/vertigo/src/lib.rs                     |   4 +
 crates/vertigo/src/verif_hooks.rs             | 129 ++++++++++++++++++
 3 files changed, 139 insertions(+)
 create mode 100644 crates/vertigo/src/verif_hooks.rs

diff --git a/crates/vertigo/src/driver_module/api/external_api.rs b/crates/vertigo/src/driver_module/api/external_api.rs
index 096b780..bcccf43 100644
--- a/crates/vertigo/src/driver_module/api/external_api.rs
+++ b/crates/vertigo/src/driver_module/api/external_api.rs
@@ -26,8 +26,14 @@ pub mod api {
     pub mod safe_wrappers {
         pub fn safe_panic_message(_ptr: u32, _size: u32) {}
 
+        #[cfg(not(vertigo_verif))]
         pub fn safe_dom_access(_ptr: u32, _size: u32) -> u32 {
             0
         }
+
+        #[cfg(vertigo_verif)]
+        pub fn safe_dom_access(ptr: u32, size: u32) -> u32 {
+            crate::verif_hooks::host_call(ptr, size)
+        }
     }
 }
diff --git a/crates/vertigo/src/lib.rs b/crates/vertigo/src/lib.rs
index 47ac574..388eae7 100644
--- a/crates/vertigo/src/lib.rs
+++ b/crates/vertigo/src/lib.rs
@@ -96,6 +96,7 @@
 //! * [router::Router] - Hash or history routing
 
 #![deny(rust_2018_idioms)]
+#![allow(unexpected_cfgs)]
 #![feature(try_trait_v2)] // https://github.com/rust-lang/rust/issues/84277
 
 mod computed;
@@ -111,6 +112,9 @@ mod render;
 pub mod router;
 #[cfg(test)]
 mod tests;
+#[cfg(vertigo_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
 mod websocket;
 
 use computed::struct_mut::ValueMut;
diff --git a/crates/vertigo/src/verif_hooks.rs b/crates/vertigo/src/verif_hooks.rs
new file mode 100644
index 0000000..d3863da
--- /dev/null
+++ b/crates/vertigo/src/verif_hooks.rs
@@ -0,0 +1,129 @@
+//! Observation points for verification harnesses. Compiled only with `--cfg vertigo_verif`.
+
+use std::cell::RefCell;
+use std::collections::{BTreeMap, BTreeSet};
+use std::rc::Rc;
+
+use crate::{
+    driver_module::api::CallbackId, get_driver, ApiImport, Dependencies, DomId, DropResource,
+    GraphId, JsValue, MemoryBlock,
+};
+
+pub use crate::driver_module::event_emitter::EventEmitter;
+
+type Host = Rc<dyn Fn(&[u8]) -> Option<Vec<u8>>>;
+
+thread_local! {
+    static HOST: RefCell<Option<Host>> = const { RefCell::new(None) };
+}
+
+/// Installs the stand-in for the JavaScript side: it receives the bytes of every host call and may answer
+/// with the bytes of a value. The harness must allocate below 4 GiB, as pointers are passed as `u32`.
+pub fn set_host(host: impl Fn(&[u8]) -> Option<Vec<u8>> + 'static) {
+    HOST.with(|slot| *slot.borrow_mut() = Some(Rc::new(host)));
+}
+
+pub(crate) fn host_call(ptr: u32, size: u32) -> u32 {
+    let host = HOST
+        .try_with(|slot| slot.borrow().clone())
+        .unwrap_or(None);
+
+    let Some(host) = host else {
+        return 0;
+    };
+
+    let bytes = unsafe { std::slice::from_raw_parts(ptr as usize as *const u8, size as usize) };
+
+    match host(bytes) {
+        Some(reply) => stash(&reply),
+        None => 0,
+    }
+}
+
+/// Hands bytes over to the library the way the JavaScript side does, gives the pointer to pass on
+pub fn stash(bytes: &[u8]) -> u32 {
+    let block = MemoryBlock::from_slice(bytes);
+    let ptr = block.get_ptr();
+    get_driver().inner.api.arguments.set(block);
+    ptr
+}
+
+pub fn flush_dom_changes() {
+    get_driver().inner.dom.flush_dom_changes();
+}
+
+/// One dependency graph
+#[derive(Default)]
+pub struct DependencyGraph {
+    inner: Dependencies,
+}
+
+impl DependencyGraph {
+    pub fn set_parents(&self, client: GraphId, parents: BTreeSet<GraphId>) -> BTreeMap<GraphId, bool> {
+        self.inner
+            .graph
+            .connections
+            .set_parent_for_client(client, parents)
+    }
+
+    pub fn all_dependants(&self, id: GraphId) -> BTreeSet<GraphId> {
+        self.inner.graph.connections.get_all_deps(id)
+    }
+}
+
+/// One store of callbacks
+#[derive(Default)]
+pub struct Callbacks {
+    api: ApiImport,
+}
+
+impl Callbacks {
+    pub fn register(&self, callback: impl Fn(JsValue) -> JsValue + 'static) -> (u64, DropResource) {
+        let (id, resource) = self.api.callback_store.register(callback);
+        (id.as_u64(), resource)
+    }
+
+    pub fn register_with_id(
+        &self,
+        callback: impl Fn(u64, JsValue) -> JsValue + 'static,
+    ) -> (u64, DropResource) {
+        let (id, resource) = self
+            .api
+            .callback_store
+            .register_with_id(move |id, value| callback(id.as_u64(), value));
+        (id.as_u64(), resource)
+    }
+
+    pub fn register_once(&self, callback: impl Fn(JsValue) -> JsValue + 'static) -> u64 {
+        self.api.callback_store.register_once(callback).as_u64()
+    }
+
+    pub fn call(&self, id: u64, value: JsValue) -> JsValue {
+        self.api.callback_store.call(CallbackId::from_u64(id), value)
+    }
+}
+
+/// Suspense bookkeeping of the current driver
+pub mod suspense {
+    use super::*;
+
+    pub fn set_node_suspense(id: DomId) {
+        get_driver().inner.dom.dom_suspense.set_node_suspense(id);
+    }
+
+    pub fn set_parent(id: DomId, parent: DomId) {
+        get_driver().inner.dom.dom_suspense.set_parent(id, parent);
+    }
+
+    pub fn remove(id: DomId) {
+        get_driver().inner.dom.dom_suspense.remove(id);
+    }
+
+    pub fn set_layer_callback(id: DomId, callback: impl Fn(bool) + 'static) -> DropResource {
+        get_driver()
+            .inner
+            .dom
+            .dom_suspense
+            .set_layer_callback(id, callback)
+    }
+}
-- 
2.43.0


From 4cb652dd746382909d3b40193da4d27b3104d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 02/15] fix: decode object keys of a JsValue the way they are
 encoded

---
 .../vertigo/src/driver_module/js_value/js_value_struct.rs  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
index a9af77e..3169bc6 100644
--- a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
@@ -333,13 +333,10 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
             let object_size = buffer.get_u16();
 
             for _ in 0..object_size {
-                let prop_name = decode_js_value_inner(buffer)?;
-                let JsValue::String(prop_name) = prop_name else {
-                    return Err("string expected".into());
-                };
+                let str_len = buffer.get_u32();
+                let prop_name = buffer.get_string(str_len)?;
 
                 let prop_value = decode_js_value_inner(buffer)?;
-
                 props.insert(prop_name, prop_value);
             }
 
-- 
2.43.0


From f624cbe3eebf9addaec3ae7856740dea6b5b1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 03/15] fix: reconnect nodes which were released while their
 new dependant was being calculated

A node read by a dependant that is still being calculated is not linked to it yet. When its last linked
dependant went away in the meantime, the node lost its value and its own links, and was then linked to the new
dependant without them, so later changes of the sources never reached that dependant.
---
 .../src/computed/dependencies/graph.rs        |  8 +++++-
 .../vertigo/src/computed/dependencies/mod.rs  |  2 +-
 .../src/computed/dependencies/refresh.rs      | 26 +++++++++++++----
 crates/vertigo/src/computed/graph_value.rs    | 28 +++++++++++++++----
 4 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/crates/vertigo/src/computed/dependencies/graph.rs b/crates/vertigo/src/computed/dependencies/graph.rs
index b965b39..5c655b1 100644
--- a/crates/vertigo/src/computed/dependencies/graph.rs
+++ b/crates/vertigo/src/computed/dependencies/graph.rs
@@ -29,7 +29,13 @@ impl Graph {
 
     pub(crate) fn push_context(&self, client_id: GraphId, context: Context) {
         let parents = context.get_parents();
-        self.set_parent_for_client(client_id, parents);
+        self.set_parent_for_client(client_id, parents.clone());
+
+        // A parent which lost its last dependant while the client was being calculated has also lost its own
+        // connections and its value. It has a dependant again, so it has to be connected again.
+        for parent_id in parents {
+            self.refresh.restore(&parent_id);
+        }
     }
 
     pub(crate) fn set_parent_for_client(
diff --git a/crates/vertigo/src/computed/dependencies/mod.rs b/crates/vertigo/src/computed/dependencies/mod.rs
index 0f8f51b..eae713c 100644
--- a/crates/vertigo/src/computed/dependencies/mod.rs
+++ b/crates/vertigo/src/computed/dependencies/mod.rs
@@ -9,7 +9,7 @@ mod graph;
 mod graph_connections;
 mod graph_one_to_many;
 pub mod hook;
-mod refresh;
+pub(crate) mod refresh;
 mod transaction_state;
 
 use {graph::Graph, hook::Hooks, transaction_state::TransactionState};
diff --git a/crates/vertigo/src/computed/dependencies/refresh.rs b/crates/vertigo/src/computed/dependencies/refresh.rs
index c507dab..064f28d 100644
--- a/crates/vertigo/src/computed/dependencies/refresh.rs
+++ b/crates/vertigo/src/computed/dependencies/refresh.rs
@@ -2,8 +2,18 @@ use std::rc::Rc;
 
 use crate::{computed::graph_id::GraphId, struct_mut::BTreeMapMut};
 
+#[derive(Clone, Copy)]
+pub enum RefreshKind {
+    /// Forget the calculated value
+    ClearCache,
+    /// Calculate the value again
+    Refresh,
+    /// Calculate the value if there is none
+    Restore,
+}
+
 pub struct Refresh {
-    refresh: BTreeMapMut<GraphId, Rc<dyn Fn(bool) + 'static>>, // Reference to GraphValue for refreshing if necessary
+    refresh: BTreeMapMut<GraphId, Rc<dyn Fn(RefreshKind) + 'static>>, // Reference to GraphValue for refreshing if necessary
 }
 
 impl Refresh {
@@ -13,7 +23,7 @@ impl Refresh {
         }
     }
 
-    pub fn refresh_token_add(&self, id: GraphId, graph_value_refresh: impl Fn(bool) + 'static) {
+    pub fn refresh_token_add(&self, id: GraphId, graph_value_refresh: impl Fn(RefreshKind) + 'static) {
         let prev_refresh = self.refresh.insert(id, Rc::new(graph_value_refresh));
 
         if prev_refresh.is_none() {
@@ -28,7 +38,7 @@ impl Refresh {
         self.refresh.remove(&id);
     }
 
-    fn get(&self, id: &GraphId) -> Option<Rc<dyn Fn(bool)>> {
+    fn get(&self, id: &GraphId) -> Option<Rc<dyn Fn(RefreshKind)>> {
         if let Some(item) = self.refresh.get_and_clone(id) {
             return Some(item);
         }
@@ -38,13 +48,19 @@ impl Refresh {
 
     pub(crate) fn refresh(&self, id: &GraphId) {
         if let Some(refresh) = self.get(id) {
-            refresh(true);
+            refresh(RefreshKind::Refresh);
         }
     }
 
     pub(crate) fn clear_cache(&self, id: &GraphId) {
         if let Some(refresh) = self.get(id) {
-            refresh(false);
+            refresh(RefreshKind::ClearCache);
+        }
+    }
+
+    pub(crate) fn restore(&self, id: &GraphId) {
+        if let Some(refresh) = self.get(id) {
+            refresh(RefreshKind::Restore);
         }
     }
 }
diff --git a/crates/vertigo/src/computed/graph_value.rs b/crates/vertigo/src/computed/graph_value.rs
index c366d22..21983b9 100644
--- a/crates/vertigo/src/computed/graph_value.rs
+++ b/crates/vertigo/src/computed/graph_value.rs
@@ -1,6 +1,11 @@
 use std::rc::Rc;
 
-use crate::{computed::GraphId, get_driver, struct_mut::ValueMut, Context};
+use crate::{
+    computed::{dependencies::refresh::RefreshKind, GraphId},
+    get_driver,
+    struct_mut::ValueMut,
+    Context,
+};
 
 pub struct GraphValue<T> {
     id: GraphId,
@@ -31,17 +36,20 @@ impl<T: Clone + 'static> GraphValue<T> {
             .dependencies
             .graph
             .refresh
-            .refresh_token_add(graph_value.id, move |kind: bool| {
+            .refresh_token_add(graph_value.id, move |kind: RefreshKind| {
                 if let Some(weak_value) = weak_value.upgrade() {
                     match kind {
-                        false => {
-                            //false - computed (clear_cache)
+                        RefreshKind::ClearCache => {
+                            // computed
                             weak_value.state.set(None);
                         }
-                        true => {
-                            //true - client (refresh)
+                        RefreshKind::Refresh => {
+                            // client
                             weak_value.refresh();
                         }
+                        RefreshKind::Restore => {
+                            weak_value.restore();
+                        }
                     }
                 }
             });
@@ -83,6 +91,14 @@ impl<T: Clone + 'static> GraphValue<T> {
         }
     }
 
+    fn restore(&self) {
+        let is_none = self.state.map(|item| item.is_none());
+
+        if is_none {
+            self.calculate_new_value();
+        }
+    }
+
     pub(crate) fn id(&self) -> GraphId {
         self.id
     }
-- 
2.43.0


From 0f316631547d9afe3b0fa36381564dc72c8fc1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 04/15] Observation points for the DOM commands, under
 cfg(vertigo_verif)

---
 crates/vertigo/src/verif_hooks.rs | 65 +++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/crates/vertigo/src/verif_hooks.rs b/crates/vertigo/src/verif_hooks.rs
index d3863da..264d615 100644
--- a/crates/vertigo/src/verif_hooks.rs
+++ b/crates/vertigo/src/verif_hooks.rs
@@ -127,3 +127,68 @@ pub mod suspense {
             .set_layer_callback(id, callback)
     }
 }
+
+/// Every DOM command of the current driver
+pub mod dom {
+    use super::*;
+
+    pub fn create_node(id: DomId, name: &str) {
+        get_driver().inner.dom.create_node(id, name.to_string());
+    }
+
+    pub fn create_text(id: DomId, value: &str) {
+        get_driver().inner.dom.create_text(id, value);
+    }
+
+    pub fn update_text(id: DomId, value: &str) {
+        get_driver().inner.dom.update_text(id, value);
+    }
+
+    pub fn set_attr(id: DomId, name: &str, value: &str) {
+        get_driver().inner.dom.set_attr(id, name.to_string(), value);
+    }
+
+    pub fn remove_attr(id: DomId, name: &str) {
+        get_driver().inner.dom.remove_attr(id, name.to_string());
+    }
+
+    pub fn remove_text(id: DomId) {
+        get_driver().inner.dom.remove_text(id);
+    }
+
+    pub fn remove_node(id: DomId) {
+        get_driver().inner.dom.remove_node(id);
+    }
+
+    pub fn insert_before(parent: DomId, child: DomId, ref_id: Option<DomId>) {
+        get_driver().inner.dom.insert_before(parent, child, ref_id);
+    }
+
+    pub fn insert_css(selector: &str, value: &str) {
+        get_driver().inner.dom.insert_css(selector, value);
+    }
+
+    pub fn create_comment(id: DomId, value: &str) {
+        get_driver().inner.dom.create_comment(id, value);
+    }
+
+    pub fn remove_comment(id: DomId) {
+        get_driver().inner.dom.remove_comment(id);
+    }
+
+    pub fn callback_add(id: DomId, event_name: &str, callback_id: u64) {
+        get_driver().inner.dom.callback_add(id, event_name, CallbackId::from_u64(callback_id));
+    }
+
+    pub fn callback_remove(id: DomId, event_name: &str, callback_id: u64) {
+        get_driver().inner.dom.callback_remove(id, event_name, CallbackId::from_u64(callback_id));
+    }
+}
+
+pub fn fetch_start() {
+    get_driver().inner.api.on_fetch_start.trigger(());
+}
+
+pub fn fetch_stop() {
+    get_driver().inner.api.on_fetch_stop.trigger(());
+}
-- 
2.43.0


From 84139e873c94871dd2b7d29a2df4de9cac302d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 05/15] fix: accept the removal of an attribute on the server

---
 crates/vertigo-cli/src/serve/html/dom_command.rs |  6 ++++++
 crates/vertigo-cli/src/serve/html/element.rs     | 11 +++++++++++
 crates/vertigo-cli/src/serve/html/ordered_map.rs |  5 +++++
 3 files changed, 22 insertions(+)

diff --git a/crates/vertigo-cli/src/serve/html/dom_command.rs b/crates/vertigo-cli/src/serve/html/dom_command.rs
index 344bf43..c0dd597 100644
--- a/crates/vertigo-cli/src/serve/html/dom_command.rs
+++ b/crates/vertigo-cli/src/serve/html/dom_command.rs
@@ -16,6 +16,8 @@ pub enum DomCommand {
         name: String,
         value: String,
     },
+    #[serde(rename = "remove_attr")]
+    RemoveAttr { id: u64, name: String },
     #[serde(rename = "remove_node")]
     RemoveNode { id: u64 },
     #[serde(rename = "remove_text")]
@@ -68,6 +70,10 @@ impl JsJsonDeserialize for DomCommand {
                 name: json.get_property(&context, "name")?,
                 value: json.get_property(&context, "value")?,
             },
+            "remove_attr" => Self::RemoveAttr {
+                id: json.get_property(&context, "id")?,
+                name: json.get_property(&context, "name")?,
+            },
             "remove_node" => Self::RemoveNode {
                 id: json.get_property(&context, "id")?,
             },
diff --git a/crates/vertigo-cli/src/serve/html/element.rs b/crates/vertigo-cli/src/serve/html/element.rs
index dbb50f1..b6326b7 100644
--- a/crates/vertigo-cli/src/serve/html/element.rs
+++ b/crates/vertigo-cli/src/serve/html/element.rs
@@ -67,6 +67,14 @@ impl AllElements {
         element.attr.set(name, value);
     }
 
+    fn remove_attr(&mut self, id: u64, name: String) {
+        let Some(Node::Element(element)) = self.all.get_mut(&id) else {
+            unreachable!();
+        };
+
+        element.attr.remove(&name);
+    }
+
     fn remove_from_parent(&mut self, child_id: u64) {
         let Some(parent_id) = self.parent.get(&child_id) else {
             return;
@@ -130,6 +138,9 @@ impl AllElements {
                 DomCommand::SetAttr { id, name, value } => {
                     self.set_attr(id, name, value);
                 }
+                DomCommand::RemoveAttr { id, name } => {
+                    self.remove_attr(id, name);
+                }
                 DomCommand::RemoveNode { id } => {
                     self.remove(id);
                 }
diff --git a/crates/vertigo-cli/src/serve/html/ordered_map.rs b/crates/vertigo-cli/src/serve/html/ordered_map.rs
index 21f3e63..50834ce 100644
--- a/crates/vertigo-cli/src/serve/html/ordered_map.rs
+++ b/crates/vertigo-cli/src/serve/html/ordered_map.rs
@@ -36,6 +36,11 @@ impl OrderedMap {
         }
     }
 
+    pub fn remove(&mut self, name: &str) {
+        self.order.retain(|item_name| item_name != name);
+        self.data.remove(name);
+    }
+
     pub fn get_iter(&self) -> Vec<(String, String)> {
         let mut result = Vec::new();
 
-- 
2.43.0


From 2547ade912ff0382facd8c904901ccf2621cad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 06/15] fix: show the contents of fragments, values and lists
 in order inside lists and fragments

The contents of a marker are placed before it, so placing a node before the marker of the following
item put that node behind the contents of that item.
---
 crates/vertigo/src/dom/dom_comment.rs | 11 +++----
 crates/vertigo/src/render/dom_list.rs | 41 +++++++++++++++++++++------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/crates/vertigo/src/dom/dom_comment.rs b/crates/vertigo/src/dom/dom_comment.rs
index 4a785c6..ce1aa43 100644
--- a/crates/vertigo/src/dom/dom_comment.rs
+++ b/crates/vertigo/src/dom/dom_comment.rs
@@ -69,20 +69,17 @@ impl DomComment {
         self.subscriptions.push(client);
     }
 
-    pub fn dom_fragment(mut list: Vec<DomNode>) -> DomComment {
-        list.reverse();
-
+    pub fn dom_fragment(list: Vec<DomNode>) -> DomComment {
         Self::new_marker("list dom node", move |parent_id, comment_id| {
-            let mut prev_node = comment_id;
             let driver = get_driver();
 
+            // Every node goes directly before the marker of this fragment. A node can't be placed before the next one,
+            // because if the next one is a marker then its contents are already before it.
             for node in list.iter() {
-                let node_id = node.id_dom();
                 driver
                     .inner
                     .dom
-                    .insert_before(parent_id, node_id, Some(prev_node));
-                prev_node = node_id;
+                    .insert_before(parent_id, node.id_dom(), Some(comment_id));
             }
 
             None
diff --git a/crates/vertigo/src/render/dom_list.rs b/crates/vertigo/src/render/dom_list.rs
index 9cf5f05..e5dbfb1 100644
--- a/crates/vertigo/src/render/dom_list.rs
+++ b/crates/vertigo/src/render/dom_list.rs
@@ -99,20 +99,47 @@ fn reorder_nodes<T: PartialEq, K: Eq + Hash>(
         render,
     );
 
+    if !pairs_middle.is_empty() {
+        move_markers(parent_id, last_before, &pairs_bottom);
+    }
+
     let mut pairs = pairs_top;
     pairs.append(&mut pairs_middle);
     pairs.append(&mut pairs_bottom);
     pairs
 }
 
+fn is_marker(node: &DomNode) -> bool {
+    matches!(node, DomNode::Comment { .. })
+}
+
+// The first node before which other nodes can be placed. Not a marker, as its contents are placed before it.
 fn find_first_dom<T>(list: &VecDeque<(T, DomNode)>) -> Option<DomId> {
-    if let Some((_, first)) = list.front() {
-        return Some(first.id_dom());
+    for (_, node) in list.iter() {
+        if !is_marker(node) {
+            return Some(node.id_dom());
+        }
     }
 
     None
 }
 
+// The markers at the beginning of the list have to be moved (with their contents) behind the nodes just placed
+fn move_markers<T>(parent_id: DomId, last_before: DomId, list: &VecDeque<(T, DomNode)>) {
+    let driver = get_driver();
+
+    for (_, node) in list.iter() {
+        if !is_marker(node) {
+            return;
+        }
+
+        driver
+            .inner
+            .dom
+            .insert_before(parent_id, node.id_dom(), Some(last_before));
+    }
+}
+
 // Try to match starting from top
 fn get_pairs_top<T: PartialEq>(
     current: &mut VecDeque<(T, DomNode)>,
@@ -198,18 +225,16 @@ fn get_pairs_middle<T: PartialEq, K: Eq + Hash>(
     }
 
     let driver = get_driver();
-    let mut last_before = last_before;
 
-    for item in new_child.into_iter().rev() {
+    for item in new_child.into_iter() {
         let node = real_node.get_or_create(&item);
-        let node_id = node.id_dom();
-        pairs_middle.push_front((item, node));
 
         driver
             .inner
             .dom
-            .insert_before(parent_id, node_id, Some(last_before));
-        last_before = node_id;
+            .insert_before(parent_id, node.id_dom(), Some(last_before));
+
+        pairs_middle.push_back((item, node));
     }
 
     pairs_middle
-- 
2.43.0


From 768f5dd3ac6995b75aa6d66d1950637966669bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 07/15] fix: find the brackets in css with characters of
 several bytes

The position of a bracket was counted in characters and used as a position in bytes, so css with brackets and non-ASCII
characters was cut at the wrong place or panicked.
---
 crates/vertigo/src/css/transform_css/splits.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 7e00253..88cdc23 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -83,17 +83,15 @@ pub fn find_brackets(line: &str) -> Option<(&str, &str, &str)> {
     let mut start: Option<usize> = None;
     let mut end: Option<usize> = None;
 
-    let chars: Vec<char> = line.chars().collect();
-
-    for (index, char) in chars.iter().enumerate() {
-        if *char == '{' {
+    for (index, char) in line.char_indices() {
+        if char == '{' {
             start = Some(index);
             break;
         }
     }
 
-    for (index, char) in chars.iter().enumerate().rev() {
-        if *char == '}' {
+    for (index, char) in line.char_indices().rev() {
+        if char == '}' {
             end = Some(index);
             break;
         }
-- 
2.43.0


From bed11155a1b71b67d8f2e69343e00b1e3c14f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 08/15] fix: accept css rows which begin with a bracket group
 that has no colon or dot before it

A media query such as '@media print { ... }' or a selector such as '[hidden] { ... }' panicked.
---
 crates/vertigo/src/css/transform_css/splits.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 88cdc23..46c103d 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -21,13 +21,10 @@ pub fn css_split_rows(css: &str) -> Vec<&str> {
 
     for (index, char) in css.char_indices() {
         if char == '{' {
-            if row_side == RowSideState::Right {
-                row_side = RowSideState::BracketsOpened(1);
-            } else if let RowSideState::BracketsOpened(counter) = &mut row_side {
+            if let RowSideState::BracketsOpened(counter) = &mut row_side {
                 *counter += 1;
             } else {
-                log::info!("css input: {css}");
-                panic!("unsupported use case at opening bracket");
+                row_side = RowSideState::BracketsOpened(1);
             }
         }
 
-- 
2.43.0


From 45a21cf1f0a916dc6060177d954e17b39956cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 09/15] fix: equal requests hash equally whatever the order of
 their headers

---
 crates/vertigo-cli/src/serve/wasm/message.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/message.rs b/crates/vertigo-cli/src/serve/wasm/message.rs
index 38425d9..2b4b041 100644
--- a/crates/vertigo-cli/src/serve/wasm/message.rs
+++ b/crates/vertigo-cli/src/serve/wasm/message.rs
@@ -42,7 +42,10 @@ impl Hash for FetchRequest {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.method.hash(state);
         self.url.hash(state);
-        for (key, value) in self.headers.iter() {
+        // equal maps may iterate in different orders
+        let mut headers = self.headers.iter().collect::<Vec<_>>();
+        headers.sort();
+        for (key, value) in headers {
             key.hash(state);
             value.hash(state);
         }
-- 
2.43.0


From 713a21083c4b2fef2eb96e454564230ae152dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 10/15] fix: equal JSON objects hash equally whatever the order
 of their names

---
 crates/vertigo/src/driver_module/js_value/js_json_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
index 745e643..c5c2bad 100644
--- a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
@@ -113,7 +113,10 @@ impl Hash for JsJson {
             }
             Self::Object(map) => {
                 state.write_u8(JsJsonConst::Object.into());
-                for (name, value) in map {
+                // equal maps may iterate in different orders
+                let mut props = map.iter().collect::<Vec<_>>();
+                props.sort_by_key(|(name, _)| *name);
+                for (name, value) in props {
                     name.hash(state);
                     value.hash(state);
                 }
-- 
2.43.0


From 1abc4de9b53cc5cd2354f58b63cae036ba73141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 11/15] fix: requests with NaN or an infinity in their JSON
 body are sent by the server

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index 2a54bb1..2230b5f 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -56,7 +56,8 @@ fn convert_to_jsvalue(value: JsJson) -> Value {
         JsJson::True => Value::Bool(true),
         JsJson::False => Value::Bool(false),
         JsJson::Null => Value::Null,
-        JsJson::Number(value) => Value::Number(Number::from_f64(value).unwrap()),
+        // NaN and infinities become null, the same as in a browser
+        JsJson::Number(value) => Number::from_f64(value).map_or(Value::Null, Value::Number),
         JsJson::String(value) => Value::String(value),
         JsJson::List(list) => {
             let list = list.into_iter().map(convert_to_jsvalue).collect::<Vec<_>>();
-- 
2.43.0


From 091a5de2f0dfccf32282e3f6c0651cfe7d57d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 12/15] fix: requests of every method are sent by the server

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index 2230b5f..886bcf1 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -1,4 +1,4 @@
-use reqwest::Response;
+use reqwest::{Method, Response};
 use serde_json::{Map, Number, Value};
 use std::{
     collections::{HashMap, VecDeque},
@@ -179,11 +179,13 @@ fn get_response_type(response: &Response) -> ResponseType {
 async fn send_request_inner(request_params: Arc<FetchRequest>) -> Option<(u32, RequestBody)> {
     let client = reqwest::Client::new();
 
-    let mut request = match request_params.method.trim().to_lowercase().as_str() {
-        "get" => client.get(&request_params.url),
-        "post" => client.post(&request_params.url),
-        _ => {
-            unreachable!();
+    let method = request_params.method.trim().to_uppercase();
+
+    let mut request = match Method::from_bytes(method.as_bytes()) {
+        Ok(method) => client.request(method, &request_params.url),
+        Err(error) => {
+            log::error!("Error send: {error}");
+            return None;
         }
     };
 
-- 
2.43.0


From f8a084cb39be80bfe5b6b7c43945f4fdbabf2047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 13/15] fix: keep the suspense callback of an element when it
 replaces an earlier one

---
 crates/vertigo/src/dom/dom_element_class.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/vertigo/src/dom/dom_element_class.rs b/crates/vertigo/src/dom/dom_element_class.rs
index 6284b7c..a62976f 100644
--- a/crates/vertigo/src/dom/dom_element_class.rs
+++ b/crates/vertigo/src/dom/dom_element_class.rs
@@ -112,6 +112,9 @@ impl DomElementClassMerge {
                 return;
             };
 
+            // The previous subscription concerns the same element, it must be dropped before registering the new one
+            state._suspense_drop = None;
+
             let drop = get_driver()
                 .inner
                 .dom
-- 
2.43.0


From 63bab77772ebacfaa70bd0a1293ef5c9685808fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:19 +0000
Subject: [PATCH 14/15] Observation points for the memory entry points, under
 cfg(vertigo_verif)

---
 crates/vertigo/src/verif_hooks.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/vertigo/src/verif_hooks.rs b/crates/vertigo/src/verif_hooks.rs
index 264d615..6dde822 100644
--- a/crates/vertigo/src/verif_hooks.rs
+++ b/crates/vertigo/src/verif_hooks.rs
@@ -192,3 +192,23 @@ pub fn fetch_start() {
 pub fn fetch_stop() {
     get_driver().inner.api.on_fetch_stop.trigger(());
 }
+
+/// A function the other side can call by its number
+pub fn register(callback: impl Fn(JsValue) -> JsValue + 'static) -> (u64, DropResource) {
+    let (id, resource) = get_driver().inner.api.callback_store.register(callback);
+    (id.as_u64(), resource)
+}
+
+/// The memory entry points, which are exported in WebAssembly only
+pub fn alloc(size: u32) -> u32 {
+    get_driver().inner.api.arguments.alloc(size)
+}
+
+pub fn free(pointer: u32) {
+    get_driver().inner.api.arguments.free(pointer);
+}
+
+/// Takes the value handed over under a pointer
+pub fn handed_over(ptr: u32) -> JsValue {
+    get_driver().inner.api.arguments.get_by_ptr(ptr)
+}
-- 
2.43.0


From 659c36fcd590ed14d38250ee5a880c4811447388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:19 +0000
Subject: [PATCH 15/15] fix: allocate memory blocks with the alignment of the
 Vec which takes them over

---
 crates/vertigo/src/driver_module/js_value/memory_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/js_value/memory_block.rs b/crates/vertigo/src/driver_module/js_value/memory_block.rs
index b933911..e0b248f 100644
--- a/crates/vertigo/src/driver_module/js_value/memory_block.rs
+++ b/crates/vertigo/src/driver_module/js_value/memory_block.rs
@@ -4,7 +4,7 @@ use std::mem;
 use super::memory_block_write::MemoryBlockWrite;
 
 fn alloc_memory(size: usize) -> (*mut u8, Layout) {
-    let align = mem::align_of::<usize>();
+    let align = mem::align_of::<u8>();
 
     if let Ok(layout) = Layout::from_size_align(size, align) {
         unsafe {
-- 
2.43.0

