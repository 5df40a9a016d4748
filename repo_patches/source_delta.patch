From d96c027a962d0ac9066d020f150f5d84a2ab0fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 01/51] fix: link a computed to its parents at the moment of
 reading

When an evaluation had read a computed without other clients and a later read
of the same evaluation detached the last other client of that computed, the
computed lost its own parents, and changes were never propagated again.
Likewise a connected value which was set while being connected left a stale
value in the computed which had just read it.
---
 crates/vertigo/src/computed/context.rs        | 22 ++++++++++++++++++-
 .../src/computed/dependencies/graph.rs        |  8 +++++++
 .../dependencies/graph_connections.rs         |  9 ++++++++
 crates/vertigo/src/computed/graph_value.rs    |  2 +-
 4 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/computed/context.rs b/crates/vertigo/src/computed/context.rs
index 213cad9..ad2c0d6 100644
--- a/crates/vertigo/src/computed/context.rs
+++ b/crates/vertigo/src/computed/context.rs
@@ -1,20 +1,40 @@
 use std::collections::BTreeSet;
 
-use crate::{struct_mut::VecMut, GraphId};
+use crate::{get_driver, struct_mut::VecMut, GraphId};
 
 pub struct Context {
+    //The node which is being evaluated in this context (None in a transaction)
+    client_id: Option<GraphId>,
     //In transaction
     parent_ids: VecMut<GraphId>,
 }
 impl Context {
     pub(crate) fn new() -> Context {
         Context {
+            client_id: None,
+            parent_ids: VecMut::new(),
+        }
+    }
+
+    pub(crate) fn new_for_client(client_id: GraphId) -> Context {
+        Context {
+            client_id: Some(client_id),
             parent_ids: VecMut::new(),
         }
     }
 
     pub(crate) fn add_parent(&self, parent_id: GraphId) {
         self.parent_ids.push(parent_id);
+
+        // The edge has to exist from the moment of reading. If it were added only after the evaluation,
+        // the node just read could be considered unused and detached from its own parents in the meantime.
+        if let Some(client_id) = self.client_id {
+            get_driver()
+                .inner
+                .dependencies
+                .graph
+                .add_parent_for_client(client_id, parent_id);
+        }
     }
 
     pub(crate) fn get_parents(self) -> BTreeSet<GraphId> {
diff --git a/crates/vertigo/src/computed/dependencies/graph.rs b/crates/vertigo/src/computed/dependencies/graph.rs
index b965b39..6663076 100644
--- a/crates/vertigo/src/computed/dependencies/graph.rs
+++ b/crates/vertigo/src/computed/dependencies/graph.rs
@@ -27,6 +27,14 @@ impl Graph {
         self.set_parent_for_client(client_id, BTreeSet::new());
     }
 
+    pub(crate) fn add_parent_for_client(&self, client_id: GraphId, parent_id: GraphId) {
+        self.connections.add_parent_for_client(client_id, parent_id);
+
+        if let GraphIdKind::Value = parent_id.get_type() {
+            self.external_connections.set_connection(parent_id, true);
+        }
+    }
+
     pub(crate) fn push_context(&self, client_id: GraphId, context: Context) {
         let parents = context.get_parents();
         self.set_parent_for_client(client_id, parents);
diff --git a/crates/vertigo/src/computed/dependencies/graph_connections.rs b/crates/vertigo/src/computed/dependencies/graph_connections.rs
index 5322ceb..66fee46 100644
--- a/crates/vertigo/src/computed/dependencies/graph_connections.rs
+++ b/crates/vertigo/src/computed/dependencies/graph_connections.rs
@@ -190,6 +190,15 @@ impl GraphConnections {
         }
     }
 
+    pub(crate) fn add_parent_for_client(&self, client_id: GraphId, parent_id: GraphId) {
+        self.inner.change(|state| {
+            state.exec_command(UpdateConnection::Add {
+                parent: parent_id,
+                client: client_id,
+            })
+        });
+    }
+
     pub(crate) fn set_parent_for_client(
         &self,
         client_id: GraphId,
diff --git a/crates/vertigo/src/computed/graph_value.rs b/crates/vertigo/src/computed/graph_value.rs
index c366d22..f5541bc 100644
--- a/crates/vertigo/src/computed/graph_value.rs
+++ b/crates/vertigo/src/computed/graph_value.rs
@@ -50,7 +50,7 @@ impl<T: Clone + 'static> GraphValue<T> {
     }
 
     fn calculate_new_value(&self) -> T {
-        let context = Context::new();
+        let context = Context::new_for_client(self.id);
         let new_value = (self.get_value)(&context);
         get_driver()
             .inner
-- 
2.43.0


From 8d50992ac6b40456a0bac73c8cf47f6f6b2fd59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 02/51] fix: keep computeds created during an evaluation alive
 as long as they are depended on

A computed read by another computed and dropped afterwards (for example
self.some_computed().get(context)) took its edges with it, so that changes of
its sources were never propagated.
---
 crates/vertigo/src/computed/context.rs     | 16 +++++++++++++++-
 crates/vertigo/src/computed/graph_value.rs | 14 ++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/computed/context.rs b/crates/vertigo/src/computed/context.rs
index ad2c0d6..0e93cd9 100644
--- a/crates/vertigo/src/computed/context.rs
+++ b/crates/vertigo/src/computed/context.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeSet;
+use std::{any::Any, collections::BTreeSet, rc::Rc};
 
 use crate::{get_driver, struct_mut::VecMut, GraphId};
 
@@ -7,12 +7,15 @@ pub struct Context {
     client_id: Option<GraphId>,
     //In transaction
     parent_ids: VecMut<GraphId>,
+    //Computeds which have been read by the node being evaluated
+    parents: VecMut<Rc<dyn Any>>,
 }
 impl Context {
     pub(crate) fn new() -> Context {
         Context {
             client_id: None,
             parent_ids: VecMut::new(),
+            parents: VecMut::new(),
         }
     }
 
@@ -20,6 +23,7 @@ impl Context {
         Context {
             client_id: Some(client_id),
             parent_ids: VecMut::new(),
+            parents: VecMut::new(),
         }
     }
 
@@ -37,6 +41,16 @@ impl Context {
         }
     }
 
+    pub(crate) fn keep_parent(&self, parent: Rc<dyn Any>) {
+        if self.client_id.is_some() {
+            self.parents.push(parent);
+        }
+    }
+
+    pub(crate) fn take_kept_parents(&self) -> Vec<Rc<dyn Any>> {
+        self.parents.take()
+    }
+
     pub(crate) fn get_parents(self) -> BTreeSet<GraphId> {
         let list = self.parent_ids.into_inner();
         list.into_iter().collect::<BTreeSet<_>>()
diff --git a/crates/vertigo/src/computed/graph_value.rs b/crates/vertigo/src/computed/graph_value.rs
index f5541bc..d596b1d 100644
--- a/crates/vertigo/src/computed/graph_value.rs
+++ b/crates/vertigo/src/computed/graph_value.rs
@@ -1,4 +1,4 @@
-use std::rc::Rc;
+use std::{any::Any, rc::Rc};
 
 use crate::{computed::GraphId, get_driver, struct_mut::ValueMut, Context};
 
@@ -6,6 +6,8 @@ pub struct GraphValue<T> {
     id: GraphId,
     get_value: Box<dyn Fn(&Context) -> T>,
     state: ValueMut<Option<T>>,
+    // Computeds on which the current state depends, they must live as long as they can change it
+    parents: ValueMut<Vec<Rc<dyn Any>>>,
 }
 
 impl<T: Clone + 'static> GraphValue<T> {
@@ -22,6 +24,7 @@ impl<T: Clone + 'static> GraphValue<T> {
             id,
             get_value: Box::new(get_value),
             state: ValueMut::new(None),
+            parents: ValueMut::new(Vec::new()),
         });
 
         let weak_value = Rc::downgrade(&graph_value);
@@ -52,19 +55,26 @@ impl<T: Clone + 'static> GraphValue<T> {
     fn calculate_new_value(&self) -> T {
         let context = Context::new_for_client(self.id);
         let new_value = (self.get_value)(&context);
+        let parents = context.take_kept_parents();
         get_driver()
             .inner
             .dependencies
             .graph
             .push_context(self.id, context);
 
+        let prev_parents = self
+            .parents
+            .change(move |current| std::mem::replace(current, parents));
+        drop(prev_parents);
+
         self.state.set(Some(new_value.clone()));
 
         new_value
     }
 
-    pub fn get_value(&self, context: &Context) -> T {
+    pub fn get_value(self: &Rc<Self>, context: &Context) -> T {
         context.add_parent(self.id);
+        context.keep_parent(self.clone());
 
         let inner_value = self.state.map(|value| value.clone());
 
-- 
2.43.0


From 84f09273f2d3720ed39b2712078870e8679c845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 03/51] fix: keep the order of fragment children when some of
 them are markers

The comment of a marker (conditional content, list, nested fragment) stands behind its content, so inserting the previous sibling before that comment placed it behind the content.
---
 crates/vertigo/src/dom/dom_comment.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo/src/dom/dom_comment.rs b/crates/vertigo/src/dom/dom_comment.rs
index 4a785c6..63ab319 100644
--- a/crates/vertigo/src/dom/dom_comment.rs
+++ b/crates/vertigo/src/dom/dom_comment.rs
@@ -69,20 +69,15 @@ impl DomComment {
         self.subscriptions.push(client);
     }
 
-    pub fn dom_fragment(mut list: Vec<DomNode>) -> DomComment {
-        list.reverse();
-
+    pub fn dom_fragment(list: Vec<DomNode>) -> DomComment {
         Self::new_marker("list dom node", move |parent_id, comment_id| {
-            let mut prev_node = comment_id;
             let driver = get_driver();
 
             for node in list.iter() {
-                let node_id = node.id_dom();
                 driver
                     .inner
                     .dom
-                    .insert_before(parent_id, node_id, Some(prev_node));
-                prev_node = node_id;
+                    .insert_before(parent_id, node.id_dom(), Some(comment_id));
             }
 
             None
-- 
2.43.0


From 525248395f8b22deb8c4d31930b43d915b9e281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 04/51] fix: keep the order of list items whose root is a
 marker

As with fragments: an item which is a marker starts with content, not with its comment, so nothing can be inserted before the comment to come before the item.
---
 crates/vertigo/src/render/dom_list.rs | 38 +++++++++++++++++----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/crates/vertigo/src/render/dom_list.rs b/crates/vertigo/src/render/dom_list.rs
index 9cf5f05..587a7c5 100644
--- a/crates/vertigo/src/render/dom_list.rs
+++ b/crates/vertigo/src/render/dom_list.rs
@@ -89,28 +89,40 @@ fn reorder_nodes<T: PartialEq, K: Eq + Hash>(
     let pairs_top = get_pairs_top(&mut real_child, &mut new_child);
     let mut pairs_bottom = get_pairs_bottom(&mut real_child, &mut new_child);
 
-    let last_before: DomId = find_first_dom(&pairs_bottom).unwrap_or(comment_id);
+    let insert_ref: DomId = find_first_dom(&pairs_bottom).unwrap_or(comment_id);
     let mut pairs_middle = get_pairs_middle(
         parent_id,
-        last_before,
+        insert_ref,
         real_child,
         new_child,
         get_key,
         render,
     );
 
+    if !pairs_middle.is_empty() {
+        // Those items start with content we cannot refer to, so they have to be placed behind the inserted ones
+        let dom = get_driver().inner.dom;
+        for (_, node) in pairs_bottom.iter().take_while(|(_, node)| is_marker(node)) {
+            dom.insert_before(parent_id, node.id_dom(), Some(insert_ref));
+        }
+    }
+
     let mut pairs = pairs_top;
     pairs.append(&mut pairs_middle);
     pairs.append(&mut pairs_bottom);
     pairs
 }
 
-fn find_first_dom<T>(list: &VecDeque<(T, DomNode)>) -> Option<DomId> {
-    if let Some((_, first)) = list.front() {
-        return Some(first.id_dom());
-    }
+// The comment of a marker stands behind the nodes which the marker has inserted
+fn is_marker(node: &DomNode) -> bool {
+    matches!(node, DomNode::Comment { .. })
+}
 
-    None
+// The first item before which other nodes can be inserted
+fn find_first_dom<T>(list: &VecDeque<(T, DomNode)>) -> Option<DomId> {
+    list.iter()
+        .find(|(_, node)| !is_marker(node))
+        .map(|(_, node)| node.id_dom())
 }
 
 // Try to match starting from top
@@ -183,7 +195,7 @@ fn get_pairs_bottom<T: PartialEq>(
 
 fn get_pairs_middle<T: PartialEq, K: Eq + Hash>(
     parent_id: DomId,
-    last_before: DomId,
+    insert_ref: DomId,
     real_child: VecDeque<(T, DomNode)>,
     new_child: VecDeque<T>,
     get_key: Rc<dyn Fn(&T) -> K + 'static>,
@@ -198,18 +210,16 @@ fn get_pairs_middle<T: PartialEq, K: Eq + Hash>(
     }
 
     let driver = get_driver();
-    let mut last_before = last_before;
 
-    for item in new_child.into_iter().rev() {
+    for item in new_child.into_iter() {
         let node = real_node.get_or_create(&item);
-        let node_id = node.id_dom();
-        pairs_middle.push_front((item, node));
 
         driver
             .inner
             .dom
-            .insert_before(parent_id, node_id, Some(last_before));
-        last_before = node_id;
+            .insert_before(parent_id, node.id_dom(), Some(insert_ref));
+
+        pairs_middle.push_back((item, node));
     }
 
     pairs_middle
-- 
2.43.0


From abf116e744b3cefe84f6c38da724ad9111c4b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 05/51] fix: split css at byte offsets, texts may contain
 multi-byte characters

---
 .../vertigo/src/css/transform_css/splits.rs   | 21 +++----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 7e00253..795d6d9 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -80,24 +80,9 @@ pub fn css_row_split_to_pair(row: &str) -> Option<(&str, String)> {
 }
 
 pub fn find_brackets(line: &str) -> Option<(&str, &str, &str)> {
-    let mut start: Option<usize> = None;
-    let mut end: Option<usize> = None;
-
-    let chars: Vec<char> = line.chars().collect();
-
-    for (index, char) in chars.iter().enumerate() {
-        if *char == '{' {
-            start = Some(index);
-            break;
-        }
-    }
-
-    for (index, char) in chars.iter().enumerate().rev() {
-        if *char == '}' {
-            end = Some(index);
-            break;
-        }
-    }
+    // Byte offsets, the line may contain multi-byte characters
+    let start = line.find('{');
+    let end = line.rfind('}');
 
     if let (Some(start), Some(end)) = (start, end) {
         let start_word = &line[0..start];
-- 
2.43.0


From 2c9a093d82faed43516de9626ffdab3707aab168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 06/51] fix: accept css rules without a colon before their
 opening bracket

---
 crates/vertigo/src/css/transform_css/splits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 795d6d9..0d9d293 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -49,7 +49,8 @@ pub fn css_split_rows(css: &str) -> Vec<&str> {
             }
         }
 
-        if (char == ':' || char == '.') && row_side == RowSideState::Left {
+        // '@' and '[' start a rule which may have no colon before the bracket: "@media print { ... }"
+        if matches!(char, ':' | '.' | '@' | '[') && row_side == RowSideState::Left {
             row_side = RowSideState::Right;
         }
 
-- 
2.43.0


From 7222ff718f30774327e9ce1e444b725dddf41852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 07/51] fix: report a request with invalid headers as failed

Building the headers could throw outside of the try block; the request was then never answered.
---
 crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts | 4 ++--
 crates/vertigo/src/driver_module/wasm_run.js                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts b/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
index edac527..4605f1d 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
@@ -120,9 +120,9 @@ export class Fetch {
     ): Promise<void> => {
         const wasm = this.getWasm();
 
-        const [fetchHeaders, fetchBody] = getHeadersAndBody(headers, body);
-
         try {
+            const [fetchHeaders, fetchBody] = getHeadersAndBody(headers, body);
+
             const response = await fetch(url, {
                 method,
                 headers: fetchHeaders,
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 923f1a6..2cfe65b 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 6456740aea374efd4b79e024df8bb7932b771f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 08/51] fix: a percent sign in the hash which is not an escape
 stands for itself

---
 .../src/driver_module/src_js/api_browser/hashrouter.ts   | 9 ++++++++-
 crates/vertigo/src/driver_module/wasm_run.js             | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts b/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts
index dd178aa..dca5c4a 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts
@@ -38,6 +38,13 @@ export class HashRouter {
     }
 
     public get(): string {
-        return decodeURIComponent(location.hash.substr(1));
+        // A percent sign which does not begin a valid sequence stands for itself
+        return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi, (part) => {
+            try {
+                return decodeURIComponent(part);
+            } catch {
+                return part;
+            }
+        });
     }
 }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 2cfe65b..e5ef103 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 5f157e90bff39772982c52747e69b78b4bf64b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 09/51] fix: close the socket of a dropped handle also while it
 is connecting

---
 .../src_js/api_browser/websocket/connection.ts            | 8 ++++++--
 crates/vertigo/src/driver_module/wasm_run.js              | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts b/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
index cd9b19e..9e26c97 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
@@ -30,6 +30,7 @@ export type UnsubscribeFnType = () => void;
 interface OpenSocketResult {
     socket: Promise<SocketConnection | null>,
     done: Promise<void>,
+    close: () => void,
 }
 
 export interface SocketConnectionController {
@@ -130,7 +131,8 @@ export class SocketConnection {
 
         return {
             socket: result.promise,
-            done: done.promise
+            done: done.promise,
+            close: closeSocket,
         };
     }
 
@@ -142,12 +144,14 @@ export class SocketConnection {
     ): SocketConnectionController {
         let isConnect: boolean = true;
         let socketConnection: SocketConnection | null = null;
+        let closeCurrent: (() => void) | null = null;
 
         const log = new LogContext(host);
 
         (async (): Promise<void> => {
             while (isConnect) {
                 const openSocketResult = SocketConnection.connect(log, host, timeout_connection);
+                closeCurrent = openSocketResult.close;
 
                 const socket = await openSocketResult.socket;
 
@@ -198,7 +202,7 @@ export class SocketConnection {
             },
             dispose: (): void => {
                 isConnect = false;
-                socketConnection?.close();
+                closeCurrent?.();
             }
         };
     }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index e5ef103..3d4b289 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 5140423e228770183b5c93e98c728e5604b4f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 10/51] fix: compare addresses in the form the browser keeps
 them

---
 .../driver_module/src_js/api_browser/historyLocation.ts  | 9 +++++++--
 crates/vertigo/src/driver_module/wasm_run.js             | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/historyLocation.ts b/crates/vertigo/src/driver_module/src_js/api_browser/historyLocation.ts
index 5fd9e15..16558c5 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/historyLocation.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/historyLocation.ts
@@ -28,7 +28,7 @@ export class HistoryLocation {
     }
 
     public push = (url: string) => {
-        if (this.get() === url) {
+        if (this.isCurrent(url)) {
             return;
         }
 
@@ -37,7 +37,7 @@ export class HistoryLocation {
     }
 
     public replace = (url: string) => {
-        if (this.get() === url) {
+        if (this.isCurrent(url)) {
             return;
         }
 
@@ -45,6 +45,11 @@ export class HistoryLocation {
         this.trigger();
     }
 
+    // The browser keeps addresses in their resolved and encoded form
+    private isCurrent = (url: string): boolean => {
+        return new URL(url, document.baseURI).href === window.location.href;
+    }
+
     public get(): string {
         return window.location.pathname + window.location.search + window.location.hash;
     }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 3d4b289..09b9c2f 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 011b3fb4c9d694bffcd1bc0a55b9e295d6f58dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 11/51] fix: a router reads the location when it gets connected

---
 crates/vertigo/src/computed/value.rs | 6 ++++++
 crates/vertigo/src/router.rs         | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/computed/value.rs b/crates/vertigo/src/computed/value.rs
index 05b3b39..c065aa1 100644
--- a/crates/vertigo/src/computed/value.rs
+++ b/crates/vertigo/src/computed/value.rs
@@ -110,6 +110,12 @@ impl<T: Clone + 'static> Value<T> {
         });
     }
 
+    /// Replaces the content of a value that nobody has read yet since it was connected,
+    /// so there is nobody to notify.
+    pub(crate) fn set_when_connecting(&self, value: T) {
+        self.inner.value.set(value);
+    }
+
     pub fn get(&self, context: &Context) -> T {
         context.add_parent(self.inner.id);
         self.inner.value.get()
diff --git a/crates/vertigo/src/router.rs b/crates/vertigo/src/router.rs
index d82bed9..adc442f 100644
--- a/crates/vertigo/src/router.rs
+++ b/crates/vertigo/src/router.rs
@@ -85,12 +85,15 @@ impl<T: Clone + ToString + From<String> + PartialEq + 'static> Router<T> {
     fn new(use_history_api: bool) -> Self {
         let driver = get_driver();
 
-        let init_value = match use_history_api {
+        let get_location = move || match use_history_api {
             false => T::from(driver.inner.api.get_hash_location()),
             true => T::from(driver.inner.api.get_history_location()),
         };
 
-        let route = Value::with_connect(init_value, move |value| {
+        let route = Value::with_connect(get_location(), move |value| {
+            // The location may have changed while nobody was listening
+            value.set_when_connecting(get_location());
+
             let value = value.clone();
             let callback = move |url: String| {
                 value.set_value_and_compare(T::from(url));
-- 
2.43.0


From e77733299b3c95330eb6754af33b2af3b4f80bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 12/51] fix: reach the element of a DomElementRef, its id is a
 bigint

---
 crates/vertigo/src/driver_module/src_js/js_node.ts | 4 ++--
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/js_node.ts b/crates/vertigo/src/driver_module/src_js/js_node.ts
index 2a6e12d..9e9d1e1 100644
--- a/crates/vertigo/src/driver_module/src_js/js_node.ts
+++ b/crates/vertigo/src/driver_module/src_js/js_node.ts
@@ -98,8 +98,8 @@ export class JsNode {
             return null;
         }
 
-        if (GuardJsValue.isNumber(firstName) && rest.length === 0) {
-            const domId = firstName.value;
+        if ((GuardJsValue.isNumber(firstName) || GuardJsValue.isBigInt(firstName)) && rest.length === 0) {
+            const domId = Number(firstName.value);
 
             const node = this.nodes.get_any_option(domId);
 
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 09b9c2f..7284858 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 3a24591f1e0aec947d65c7cbe5cd72af3f0bf7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 13/51] fix: decode the keys of an object the way they are
 written

---
 .../vertigo/src/driver_module/js_value/js_value_struct.rs   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
index a9af77e..6bb8f94 100644
--- a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
@@ -333,10 +333,8 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
             let object_size = buffer.get_u16();
 
             for _ in 0..object_size {
-                let prop_name = decode_js_value_inner(buffer)?;
-                let JsValue::String(prop_name) = prop_name else {
-                    return Err("string expected".into());
-                };
+                let str_len = buffer.get_u32();
+                let prop_name = buffer.get_string(str_len)?;
 
                 let prop_value = decode_js_value_inner(buffer)?;
 
-- 
2.43.0


From 2cc4eeca105717ade683fa9ba73491c3258a0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 14/51] fix: lists and byte buffers coming from the page stay
 what they are

---
 .../src/driver_module/src_js/jsvalue.ts       | 26 +++++++++----------
 crates/vertigo/src/driver_module/wasm_run.js  |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 552f640..8e89a40 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -446,6 +446,18 @@ export const convertToJsValue = (value: unknown): JsValueType => {
         return value;
     }
 
+    if (Array.isArray(value)) {
+        try {
+            const list = value.map(convertToJsJson);
+            return {
+                type: JsValueConst.Json,
+                value: list
+            };
+        } catch (_error) {
+            return value.map(convertToJsValue);
+        }
+    }
+
     if (typeof value === 'object') {
         try {
             const json = convertToJsJson(value);
@@ -468,18 +480,6 @@ export const convertToJsValue = (value: unknown): JsValueType => {
         };
     }
 
-    if (Array.isArray(value)) {
-        try {
-            const list = value.map(convertToJsJson);
-            return {
-                type: JsValueConst.Json,
-                value: list
-            };
-        } catch (_error) {
-            return value.map(convertToJsValue);
-        }
-    }
-
     console.warn('convertToJsValue', value);
     throw Error('It is not possible to convert this data to JsValue');
 };
@@ -494,7 +494,7 @@ export const convertToJsJson = (value: unknown): JsJsonType => {
         return value.map(convertToJsJson);
     }
 
-    if (typeof value === 'object') {
+    if (typeof value === 'object' && !(value instanceof Uint8Array)) {
         const result: Record<string, JsJsonType> = {};
 
         for (const [propName, propValue] of Object.entries(value)) {
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 7284858..1862eda 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From cfa16d7c0b2b1968afdf003ae89ad4a23af27313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 15/51] fix: carry bigints of the upper half of u64 as unsigned

---
 crates/vertigo/src/driver_module/src_js/jsvalue.ts | 2 +-
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 8e89a40..5b4ac4a 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -437,7 +437,7 @@ export const convertToJsValue = (value: unknown): JsValueType => {
 
     if (typeof value === 'bigint') {
         return {
-            type: JsValueConst.I64,
+            type: value < 2n ** 63n ? JsValueConst.I64 : JsValueConst.U64,
             value
         };
     }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 1862eda..b591136 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 488371aa958602506c4e0dcdd8cea269ff0e7268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 16/51] fix: get_props gives the values themselves, not their
 bridge form

---
 crates/vertigo/src/driver_module/src_js/js_node.ts | 4 ++--
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/js_node.ts b/crates/vertigo/src/driver_module/src_js/js_node.ts
index 9e9d1e1..ba36c87 100644
--- a/crates/vertigo/src/driver_module/src_js/js_node.ts
+++ b/crates/vertigo/src/driver_module/src_js/js_node.ts
@@ -172,7 +172,7 @@ export class JsNode {
     }
 
     nextGetProps(path: Array<JsValueType>, args: Array<JsValueType>): JsNode | null {
-        const result: Record<string, JsValueType> = {};
+        const result: Record<string, unknown> = {};
 
         for (const property of args) {
             if (GuardJsValue.isString(property)) {
@@ -181,7 +181,7 @@ export class JsNode {
                     return null;
                 }
 
-                result[property] = value.toValue();
+                result[property] = value.wsk;
             } else {
                 console.error('JsNode.nextGetProps - wrong parameters', { path, args, property });
                 return null;
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index b591136..61dfe41 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 9cd3e1cd7999aae4271ac02476ed435ebaa960ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 17/51] fix: keep a byte order mark at the beginning of a text

---
 crates/vertigo/src/driver_module/src_js/buffer_cursor.ts | 2 +-
 crates/vertigo/src/driver_module/wasm_run.js             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
index 0e03584..cecec55 100644
--- a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
+++ b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
@@ -1,6 +1,6 @@
 ///https://javascript.info/arraybuffer-binary-arrays#dataview
 
-const decoder = new TextDecoder("utf-8");
+const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
 const encoder = new TextEncoder();
 
 export class BufferCursor {
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 61dfe41..a28b099 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 123a900bd786dd4bc29a7a37ec514bdc6e3ae4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 18/51] fix: give the page a copy of a byte buffer, not a view
 of the memory

---
 crates/vertigo/src/driver_module/src_js/buffer_cursor.ts | 3 ++-
 crates/vertigo/src/driver_module/wasm_run.js             | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
index cecec55..a71dba7 100644
--- a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
+++ b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
@@ -98,9 +98,10 @@ export class BufferCursor {
 
     public getBuffer(): Uint8Array {
         const size = this.getU32();
+        // a copy, the memory will be used again
         const result = this
             .getUint8Memory()
-            .subarray(
+            .slice(
                 this.ptr + this.pointer,
                 this.ptr + this.pointer + size
             );
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index a28b099..8e1aebe 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From c3ef65c50ae69442199e82b1b31bd17cf0eb428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 19/51] fix: carry objects of more than 65535 properties

---
 crates/vertigo/src/driver_module/js_value/js_json_struct.rs | 6 +++---
 .../vertigo/src/driver_module/js_value/js_value_struct.rs   | 6 +++---
 crates/vertigo/src/driver_module/src_js/jsjson.ts           | 6 +++---
 crates/vertigo/src/driver_module/src_js/jsvalue.ts          | 6 +++---
 crates/vertigo/src/driver_module/wasm_run.js                | 2 +-
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
index 745e643..45f1f3e 100644
--- a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
@@ -7,7 +7,7 @@ use super::{memory_block_read::MemoryBlockRead, memory_block_write::MemoryBlockW
 const PARAM_TYPE: u32 = 1;
 const STRING_SIZE: u32 = 4;
 const LIST_COUNT: u32 = 4;
-const OBJECT_COUNT: u32 = 2;
+const OBJECT_COUNT: u32 = 4;
 
 enum JsJsonConst {
     True = 1,
@@ -186,7 +186,7 @@ impl JsJson {
             }
             Self::Object(map) => {
                 buff.write_u8(JsJsonConst::Object);
-                buff.write_u16(map.len() as u16);
+                buff.write_u32(map.len() as u32);
 
                 for (key, value) in map {
                     write_string_to(key.as_str(), buff);
@@ -286,7 +286,7 @@ pub fn decode_js_json_inner(buffer: &mut MemoryBlockRead) -> Result<JsJson, Stri
         }
         JsJsonConst::Object => {
             let mut props = HashMap::new();
-            let object_size = buffer.get_u16();
+            let object_size = buffer.get_u32();
 
             for _ in 0..object_size {
                 let str_len = buffer.get_u32();
diff --git a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
index 6bb8f94..093f29c 100644
--- a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
@@ -12,7 +12,7 @@ const PARAM_TYPE: u32 = 1;
 const STRING_SIZE: u32 = 4;
 const VEC_SIZE: u32 = 4;
 const LIST_COUNT: u32 = 4;
-const OBJECT_COUNT: u32 = 2;
+const OBJECT_COUNT: u32 = 4;
 
 enum JsValueConst {
     U32 = 1,
@@ -206,7 +206,7 @@ impl JsValue {
             }
             Self::Object(map) => {
                 buff.write_u8(JsValueConst::Object);
-                buff.write_u16(map.len() as u16);
+                buff.write_u32(map.len() as u32);
 
                 for (key, value) in map {
                     write_string_to(key.as_str(), buff);
@@ -330,7 +330,7 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
         }
         JsValueConst::Object => {
             let mut props = HashMap::new();
-            let object_size = buffer.get_u16();
+            let object_size = buffer.get_u32();
 
             for _ in 0..object_size {
                 let str_len = buffer.get_u32();
diff --git a/crates/vertigo/src/driver_module/src_js/jsjson.ts b/crates/vertigo/src/driver_module/src_js/jsjson.ts
index 457c1e4..c5f61b9 100644
--- a/crates/vertigo/src/driver_module/src_js/jsjson.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsjson.ts
@@ -52,7 +52,7 @@ export const jsJsonGetSize = (value: JsJsonType): number => {
     }
 
     //object
-    let sum = 1 + 2;
+    let sum = 1 + 4;
 
     for (const [key, propertyValue] of Object.entries(value)) {
         sum += 4 + getStringSize(key);
@@ -100,7 +100,7 @@ export const jsJsonDecodeItem = (cursor: BufferCursor): JsJsonType => {
     //object
     const out: Record<string, JsJsonType> = {};
 
-    const listSize = cursor.getU16();
+    const listSize = cursor.getU32();
 
     for (let i=0; i<listSize; i++) {
         const key = cursor.getString();
@@ -158,7 +158,7 @@ export const saveJsJsonToBufferItem = (value: JsJsonType, cursor: BufferCursor)
     }
 
     cursor.setByte(JsJsonConst.Object);
-    cursor.setU16(list.length);
+    cursor.setU32(list.length);
 
     for (const [key, propertyValue] of list) {
         cursor.setString(key);
diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 5b4ac4a..666d386 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -124,7 +124,7 @@ const jsValueDecodeItem = (cursor: BufferCursor): JsValueType => {
     if (typeParam === JsValueConst.Object) {
         const out: Record<string, JsValueType> = {};
 
-        const listSize = cursor.getU16();
+        const listSize = cursor.getU32();
 
         for (let i=0; i<listSize; i++) {
             const key = cursor.getString();
@@ -198,7 +198,7 @@ const getSize = (value: JsValueType): number => {
     }
 
     if (value.type === JsValueConst.Object) {
-        let sum = 1 + 2;
+        let sum = 1 + 4;
 
         for (const [key, propertyValue] of Object.entries(value.value)) {
             sum += 4 + getStringSize(key);
@@ -297,7 +297,7 @@ const saveToBufferItem = (value: JsValueType, cursor: BufferCursor) => {
         }
 
         cursor.setByte(JsValueConst.Object);
-        cursor.setU16(list.length);
+        cursor.setU32(list.length);
 
         for (const [key, propertyValue] of list) {
             cursor.setString(key);
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 8e1aebe..a4060a7 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 62c65731f1cbac94a02fe71c1df0208166e3901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 20/51] fix: carry a property called __proto__ like any other

---
 .../src/driver_module/src_js/jsjson.ts        |  6 ++--
 .../src/driver_module/src_js/jsvalue.ts       | 36 +++++++------------
 crates/vertigo/src/driver_module/wasm_run.js  |  2 +-
 3 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/jsjson.ts b/crates/vertigo/src/driver_module/src_js/jsjson.ts
index c5f61b9..aafb4af 100644
--- a/crates/vertigo/src/driver_module/src_js/jsjson.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsjson.ts
@@ -98,17 +98,17 @@ export const jsJsonDecodeItem = (cursor: BufferCursor): JsJsonType => {
     }
 
     //object
-    const out: Record<string, JsJsonType> = {};
+    const out: Array<[string, JsJsonType]> = [];
 
     const listSize = cursor.getU32();
 
     for (let i=0; i<listSize; i++) {
         const key = cursor.getString();
         const value = jsJsonDecodeItem(cursor);
-        out[key] = value;
+        out.push([key, value]);
     }
 
-    return out;
+    return Object.fromEntries(out);
 }
 
 export const saveJsJsonToBufferItem = (value: JsJsonType, cursor: BufferCursor) => {
diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 666d386..7c8d6f3 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -122,19 +122,19 @@ const jsValueDecodeItem = (cursor: BufferCursor): JsValueType => {
     }
 
     if (typeParam === JsValueConst.Object) {
-        const out: Record<string, JsValueType> = {};
+        const out: Array<[string, JsValueType]> = [];
 
         const listSize = cursor.getU32();
 
         for (let i=0; i<listSize; i++) {
             const key = cursor.getString();
             const value = jsValueDecodeItem(cursor);
-            out[key] = value;
+            out.push([key, value]);
         }
 
         return {
             type: JsValueConst.Object,
-            value: out
+            value: Object.fromEntries(out)
         };
     }
 
@@ -386,13 +386,9 @@ export const convertFromJsValue = (value: JsValueType): unknown => {
     }
 
     if (value.type === JsValueConst.Object) {
-        const result: Record<string, unknown> = {};
-
-        for (const [key, propertyValue] of Object.entries(value.value)) {
-            result[key] = convertFromJsValue(propertyValue);
-        }
-
-        return result;
+        return Object.fromEntries(Object.entries(value.value).map(
+            ([key, propertyValue]) => [key, convertFromJsValue(propertyValue)]
+        ));
     }
 
     if (value.type === JsValueConst.Json) {
@@ -468,15 +464,11 @@ export const convertToJsValue = (value: unknown): JsValueType => {
         } catch (_error) {
         }
 
-        const result: Record<string, JsValueType> = {};
-
-        for (const [propName, propValue] of Object.entries(value)) {
-            result[propName] = convertToJsValue(propValue);
-        }
-
         return {
             type: JsValueConst.Object,
-            value: result
+            value: Object.fromEntries(Object.entries(value).map(
+                ([propName, propValue]) => [propName, convertToJsValue(propValue)]
+            ))
         };
     }
 
@@ -495,13 +487,9 @@ export const convertToJsJson = (value: unknown): JsJsonType => {
     }
 
     if (typeof value === 'object' && !(value instanceof Uint8Array)) {
-        const result: Record<string, JsJsonType> = {};
-
-        for (const [propName, propValue] of Object.entries(value)) {
-            result[propName] = convertToJsJson(propValue);
-        }
-
-        return result;
+        return Object.fromEntries(Object.entries(value).map(
+            ([propName, propValue]) => [propName, convertToJsJson(propValue)]
+        ));
     }
 
     console.warn('convertToJsJson', value);
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index a4060a7..0ec0f4b 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From d01f74fa07edfc03810db8c7fb1b6336676a57a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 21/51] fix: a number which the integer type does not hold is
 an error

---
 .../src/driver_module/js_value/serialize.rs   | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/serialize.rs b/crates/vertigo/src/driver_module/js_value/serialize.rs
index 0f6f99b..f2d7349 100644
--- a/crates/vertigo/src/driver_module/js_value/serialize.rs
+++ b/crates/vertigo/src/driver_module/js_value/serialize.rs
@@ -77,6 +77,23 @@ impl JsJsonDeserialize for String {
     }
 }
 
+/// A number which is not whole, or which the type doesn't hold, is not a value of this type.
+fn whole_number<T: TryFrom<i128>>(
+    context: JsJsonContext,
+    value: f64,
+    typename: &str,
+) -> Result<T, JsJsonContext> {
+    let whole = value as i128;
+
+    if whole as f64 == value {
+        if let Ok(whole) = T::try_from(whole) {
+            return Ok(whole);
+        }
+    }
+
+    Err(context.add(format!("number({typename}) expected, received {value}")))
+}
+
 impl JsJsonSerialize for u64 {
     fn to_json(self) -> JsJson {
         JsJson::Number(self as f64)
@@ -86,7 +103,7 @@ impl JsJsonSerialize for u64 {
 impl JsJsonDeserialize for u64 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as u64),
+            JsJson::Number(value) => whole_number(context, value, "u64"),
             other => {
                 let message = ["number(u64) expected, received ", other.typename()].concat();
                 Err(context.add(message))
@@ -104,7 +121,7 @@ impl JsJsonSerialize for i64 {
 impl JsJsonDeserialize for i64 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as i64),
+            JsJson::Number(value) => whole_number(context, value, "i64"),
             other => {
                 let message = ["number(i64) expected, received ", other.typename()].concat();
                 Err(context.add(message))
@@ -122,7 +139,7 @@ impl JsJsonSerialize for u32 {
 impl JsJsonDeserialize for u32 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as u32),
+            JsJson::Number(value) => whole_number(context, value, "u32"),
             other => {
                 let message = ["number(u32) expected, received ", other.typename()].concat();
                 Err(context.add(message))
@@ -140,7 +157,7 @@ impl JsJsonSerialize for i32 {
 impl JsJsonDeserialize for i32 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as i32),
+            JsJson::Number(value) => whole_number(context, value, "i32"),
             other => {
                 let message = ["number(i32) expected, received ", other.typename()].concat();
                 Err(context.add(message))
-- 
2.43.0


From f6e613239d711378897ad00175bb33a87adbc13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 22/51] fix: JSON of an empty struct or variant has to be an
 object

---
 crates/vertigo-macro/src/jsjson/enums.rs   | 8 ++++++++
 crates/vertigo-macro/src/jsjson/structs.rs | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/crates/vertigo-macro/src/jsjson/enums.rs b/crates/vertigo-macro/src/jsjson/enums.rs
index a006913..74c97c7 100644
--- a/crates/vertigo-macro/src/jsjson/enums.rs
+++ b/crates/vertigo-macro/src/jsjson/enums.rs
@@ -152,8 +152,16 @@ pub(super) fn impl_js_json_enum(name: &Ident, data: &DataEnum) -> Result<TokenSt
                     })
                     .collect::<Vec<_>>();
 
+                // Without fields there is nothing that would notice a different type
+                let check_object = if field_decodes.is_empty() {
+                    quote! { value.clone().get_hashmap(&ctx)?; }
+                } else {
+                    quote! {}
+                };
+
                 variant_object_decodes.push(quote! {
                     if let Some(value) = compound_variant.get_mut(#variant_name) {
+                        #check_object
                         return Ok(Self::#variant_ident {
                             #(#field_decodes)*
                         })
diff --git a/crates/vertigo-macro/src/jsjson/structs.rs b/crates/vertigo-macro/src/jsjson/structs.rs
index 08edbb4..b735112 100644
--- a/crates/vertigo-macro/src/jsjson/structs.rs
+++ b/crates/vertigo-macro/src/jsjson/structs.rs
@@ -23,6 +23,7 @@ pub(super) fn impl_js_json_struct(name: &Ident, data: &DataStruct) -> Result<Tok
 
     let mut list_to_json = Vec::new();
     let mut list_from_json = Vec::new();
+    let mut check_object = quote! {};
 
     for (field_name, attrs) in field_list {
         let field_unraw = field_name.unraw().to_string();
@@ -45,6 +46,13 @@ pub(super) fn impl_js_json_struct(name: &Ident, data: &DataStruct) -> Result<Tok
         })
     }
 
+    // Without fields there is nothing that would notice a different type
+    if list_from_json.is_empty() {
+        check_object = quote! {
+            json.clone().get_hashmap(&context)?;
+        };
+    }
+
     let result = quote! {
         impl vertigo::JsJsonSerialize for #name {
             fn to_json(self) -> vertigo::JsJson {
@@ -56,6 +64,7 @@ pub(super) fn impl_js_json_struct(name: &Ident, data: &DataStruct) -> Result<Tok
 
         impl vertigo::JsJsonDeserialize for #name {
             fn from_json(context: vertigo::JsJsonContext, mut json: vertigo::JsJson) -> Result<Self, vertigo::JsJsonContext> {
+                #check_object
                 Ok(Self {
                     #(#list_from_json)*
                 })
-- 
2.43.0


From c4674c9caba891695f54f19d409e57bc102720ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 23/51] fix: a page with an absent optional attribute could not
 be rendered by the server

---
 crates/vertigo-cli/src/serve/html/dom_command.rs |  6 ++++++
 crates/vertigo-cli/src/serve/html/element.rs     | 11 +++++++++++
 crates/vertigo-cli/src/serve/html/ordered_map.rs |  6 ++++++
 3 files changed, 23 insertions(+)

diff --git a/crates/vertigo-cli/src/serve/html/dom_command.rs b/crates/vertigo-cli/src/serve/html/dom_command.rs
index 344bf43..c0dd597 100644
--- a/crates/vertigo-cli/src/serve/html/dom_command.rs
+++ b/crates/vertigo-cli/src/serve/html/dom_command.rs
@@ -16,6 +16,8 @@ pub enum DomCommand {
         name: String,
         value: String,
     },
+    #[serde(rename = "remove_attr")]
+    RemoveAttr { id: u64, name: String },
     #[serde(rename = "remove_node")]
     RemoveNode { id: u64 },
     #[serde(rename = "remove_text")]
@@ -68,6 +70,10 @@ impl JsJsonDeserialize for DomCommand {
                 name: json.get_property(&context, "name")?,
                 value: json.get_property(&context, "value")?,
             },
+            "remove_attr" => Self::RemoveAttr {
+                id: json.get_property(&context, "id")?,
+                name: json.get_property(&context, "name")?,
+            },
             "remove_node" => Self::RemoveNode {
                 id: json.get_property(&context, "id")?,
             },
diff --git a/crates/vertigo-cli/src/serve/html/element.rs b/crates/vertigo-cli/src/serve/html/element.rs
index dbb50f1..6d3c35a 100644
--- a/crates/vertigo-cli/src/serve/html/element.rs
+++ b/crates/vertigo-cli/src/serve/html/element.rs
@@ -67,6 +67,14 @@ impl AllElements {
         element.attr.set(name, value);
     }
 
+    fn remove_attr(&mut self, id: u64, name: &str) {
+        let Some(Node::Element(element)) = self.all.get_mut(&id) else {
+            unreachable!();
+        };
+
+        element.attr.remove(name);
+    }
+
     fn remove_from_parent(&mut self, child_id: u64) {
         let Some(parent_id) = self.parent.get(&child_id) else {
             return;
@@ -130,6 +138,9 @@ impl AllElements {
                 DomCommand::SetAttr { id, name, value } => {
                     self.set_attr(id, name, value);
                 }
+                DomCommand::RemoveAttr { id, name } => {
+                    self.remove_attr(id, &name);
+                }
                 DomCommand::RemoveNode { id } => {
                     self.remove(id);
                 }
diff --git a/crates/vertigo-cli/src/serve/html/ordered_map.rs b/crates/vertigo-cli/src/serve/html/ordered_map.rs
index 21f3e63..6117e95 100644
--- a/crates/vertigo-cli/src/serve/html/ordered_map.rs
+++ b/crates/vertigo-cli/src/serve/html/ordered_map.rs
@@ -36,6 +36,12 @@ impl OrderedMap {
         }
     }
 
+    pub fn remove(&mut self, name: &str) {
+        if self.data.remove(name).is_some() {
+            self.order.retain(|item_name| item_name != name);
+        }
+    }
+
     pub fn get_iter(&self) -> Vec<(String, String)> {
         let mut result = Vec::new();
 
-- 
2.43.0


From 3ecad097124ca7cce8c0b1752997b542a88eb52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 24/51] fix: answer with an error when the application panics,
 instead of dropping the connection

---
 .../src/serve/wasm/wasm_instance.rs           | 44 ++++++++++++++++---
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
index f644adc..091279b 100644
--- a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
+++ b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
@@ -14,6 +14,9 @@ use super::{
 pub struct WasmInstance {
     instance: Instance,
     store: Store<RequestState>,
+    sender: UnboundedSender<Message>,
+    // After a trap the state of the application is not consistent, it must not be called any more
+    trapped: bool,
 }
 
 impl WasmInstance {
@@ -40,6 +43,8 @@ impl WasmInstance {
         });
 
         let import_dom_access = {
+            let sender = sender.clone();
+
             Func::wrap(
                 &mut store,
                 move |caller: Caller<'_, RequestState>, ptr: u32, offset: u32| -> u32 {
@@ -143,7 +148,12 @@ impl WasmInstance {
         let imports = [import_panic_message.into(), import_dom_access.into()];
         let instance = Instance::new(&mut store, module, &imports).unwrap();
 
-        WasmInstance { instance, store }
+        WasmInstance {
+            instance,
+            store,
+            sender,
+            trapped: false,
+        }
     }
 
     fn call_function<Params: wasmtime::WasmParams, Results: wasmtime::WasmResults>(
@@ -162,21 +172,41 @@ impl WasmInstance {
             .map_err(|error| format!("{error}"))
     }
 
+    // The application reports its own panic before the trap, so this message
+    // matters only if it has been stopped in some other way.
+    fn report_trap(&mut self, error: String) {
+        log::error!("wasm trap: {error}");
+        self.trapped = true;
+        let _ = self.sender.send(Message::Panic(Some(error)));
+    }
+
     pub fn call_vertigo_entry_function(&mut self) {
-        self.call_function::<(u32, u32), ()>(
+        let result = self.call_function::<(u32, u32), ()>(
             "vertigo_entry_function",
             (super::VERTIGO_VERSION_MAJOR, super::VERTIGO_VERSION_MINOR),
-        )
-        .unwrap();
+        );
+
+        if let Err(error) = result {
+            self.report_trap(error);
+        }
     }
 
     pub fn wasm_callback(&mut self, callback_id: u64, params: JsValue) -> JsValue {
+        if self.trapped {
+            return JsValue::Undefined;
+        }
+
         let mut data_context = DataContext::from_store(&mut self.store, self.instance);
         let params_ptr = data_context.save_value(params);
 
-        let result = self
-            .call_function::<(u64, u32), u64>("wasm_callback", (callback_id, params_ptr))
-            .unwrap();
+        let result =
+            match self.call_function::<(u64, u32), u64>("wasm_callback", (callback_id, params_ptr)) {
+                Ok(result) => result,
+                Err(error) => {
+                    self.report_trap(error);
+                    return JsValue::Undefined;
+                }
+            };
 
         if result == 0 {
             JsValue::Undefined
-- 
2.43.0


From d2bf10b7ea225ffab6f3776b2f120dbca8b6ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 25/51] fix: send requests of every method during server-side
 rendering

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index 2a54bb1..c262f53 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -1,4 +1,4 @@
-use reqwest::Response;
+use reqwest::{Method, Response};
 use serde_json::{Map, Number, Value};
 use std::{
     collections::{HashMap, VecDeque},
@@ -178,11 +178,13 @@ fn get_response_type(response: &Response) -> ResponseType {
 async fn send_request_inner(request_params: Arc<FetchRequest>) -> Option<(u32, RequestBody)> {
     let client = reqwest::Client::new();
 
-    let mut request = match request_params.method.trim().to_lowercase().as_str() {
-        "get" => client.get(&request_params.url),
-        "post" => client.post(&request_params.url),
-        _ => {
-            unreachable!();
+    let method = request_params.method.trim().to_uppercase();
+
+    let mut request = match Method::from_bytes(method.as_bytes()) {
+        Ok(method) => client.request(method, &request_params.url),
+        Err(error) => {
+            log::error!("Incorrect method: {error}");
+            return None;
         }
     };
 
-- 
2.43.0


From 82e66ed6b1cb8a3ecdde91f536027f550b1ee918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 26/51] fix: equal requests have to have equal hashes

---
 crates/vertigo-cli/src/serve/wasm/message.rs              | 8 ++++----
 .../vertigo/src/driver_module/js_value/js_json_struct.rs  | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/message.rs b/crates/vertigo-cli/src/serve/wasm/message.rs
index 38425d9..8d75b09 100644
--- a/crates/vertigo-cli/src/serve/wasm/message.rs
+++ b/crates/vertigo-cli/src/serve/wasm/message.rs
@@ -42,10 +42,10 @@ impl Hash for FetchRequest {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.method.hash(state);
         self.url.hash(state);
-        for (key, value) in self.headers.iter() {
-            key.hash(state);
-            value.hash(state);
-        }
+        // The order in which a HashMap is iterated differs between equal maps
+        let mut headers = self.headers.iter().collect::<Vec<_>>();
+        headers.sort();
+        headers.hash(state);
         self.body.hash(state);
     }
 }
diff --git a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
index 45f1f3e..8744086 100644
--- a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
@@ -113,9 +113,12 @@ impl Hash for JsJson {
             }
             Self::Object(map) => {
                 state.write_u8(JsJsonConst::Object.into());
-                for (name, value) in map {
+                // The order in which a HashMap is iterated differs between equal maps
+                let mut names = map.keys().collect::<Vec<_>>();
+                names.sort();
+                for name in names {
                     name.hash(state);
-                    value.hash(state);
+                    map[name].hash(state);
                 }
             }
         }
-- 
2.43.0


From d031bdc501d26707911c31e7a33cc644a65f7616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 27/51] fix: a number which JSON does not have is sent by the
 server as null

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index c262f53..64872f8 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -56,7 +56,10 @@ fn convert_to_jsvalue(value: JsJson) -> Value {
         JsJson::True => Value::Bool(true),
         JsJson::False => Value::Bool(false),
         JsJson::Null => Value::Null,
-        JsJson::Number(value) => Value::Number(Number::from_f64(value).unwrap()),
+        JsJson::Number(value) => {
+            // The same as JSON.stringify does in the browser
+            Number::from_f64(value).map_or(Value::Null, Value::Number)
+        }
         JsJson::String(value) => Value::String(value),
         JsJson::List(list) => {
             let list = list.into_iter().map(convert_to_jsvalue).collect::<Vec<_>>();
-- 
2.43.0


From 00e493bb557523894cb2595e0a9690ea4f1ab597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 28/51] fix: text of a script or style must not end the element
 too early

---
 .../src/serve/html/html_element.rs            | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_element.rs b/crates/vertigo-cli/src/serve/html/html_element.rs
index 4e6aa22..2ca0204 100644
--- a/crates/vertigo-cli/src/serve/html/html_element.rs
+++ b/crates/vertigo-cli/src/serve/html/html_element.rs
@@ -68,6 +68,31 @@ fn attributes_to_string(attr: OrderedMap) -> String {
     line.concat()
 }
 
+/// There are no entities in the content of `<script>` and `<style>`, but a part of it
+/// must not be taken for the end of the element. A backslash before `/` or the code of `!`
+/// means the same in strings of scripts, styles and JSON.
+fn encode_raw_text(name: &str, text: String) -> String {
+    let lower = text.to_ascii_lowercase();
+    let end_tag = format!("</{name}");
+
+    let mut result = String::with_capacity(text.len());
+    let mut copied = 0;
+
+    for (index, _) in lower.match_indices(&end_tag) {
+        result.push_str(&text[copied..index]);
+        result.push_str("<\\");
+        copied = index + 1;
+    }
+
+    result.push_str(&text[copied..]);
+
+    if lower.contains("<!--") && lower.contains("<script") {
+        result = result.replace("<!--", "<\\u0021--");
+    }
+
+    result
+}
+
 enum ChildMode {
     Child(Vec<HtmlNode>),
     Text(String),
@@ -170,12 +195,12 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
                     result.push(line.concat());
                 }
                 ChildMode::Text(text) => {
-                    let escaped_text =
-                        if ["script", "style"].contains(&element.name.to_lowercase().as_str()) {
-                            Cow::from(text)
-                        } else {
-                            encode_safe(&text)
-                        };
+                    let name = element.name.to_lowercase();
+                    let escaped_text = if ["script", "style"].contains(&name.as_str()) {
+                        Cow::from(encode_raw_text(&name, text))
+                    } else {
+                        encode_safe(&text)
+                    };
 
                     let line = [
                         //open tag
-- 
2.43.0


From 9a8f507adefd7fb2589ebaa2bdc0aa6876d9096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 29/51] fix: an integer in a request made by the server has no
 fractional part

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index 64872f8..c83db2b 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -58,7 +58,11 @@ fn convert_to_jsvalue(value: JsJson) -> Value {
         JsJson::Null => Value::Null,
         JsJson::Number(value) => {
             // The same as JSON.stringify does in the browser
-            Number::from_f64(value).map_or(Value::Null, Value::Number)
+            if value.fract() == 0.0 && value.abs() <= 9_007_199_254_740_991.0 {
+                Value::Number(Number::from(value as i64))
+            } else {
+                Number::from_f64(value).map_or(Value::Null, Value::Number)
+            }
         }
         JsJson::String(value) => Value::String(value),
         JsJson::List(list) => {
-- 
2.43.0


From 1e72c4aba0871dfe5e02825a9051aed898a8fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 30/51] fix: a page which uses a random number or the time zone
 could not be rendered by the server

---
 .../src/serve/wasm/decode_commands.rs         | 39 ++++++++++++++++++-
 .../src/serve/wasm/wasm_instance.rs           |  8 ++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/decode_commands.rs b/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
index 07279b3..e20d29a 100644
--- a/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
+++ b/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
@@ -1,4 +1,7 @@
-use std::collections::HashMap;
+use std::{
+    collections::{hash_map::RandomState, HashMap},
+    hash::{BuildHasher, Hasher},
+};
 use vertigo::{from_json, JsJson, JsValue};
 
 use crate::serve::html::RequestBody;
@@ -147,6 +150,40 @@ pub fn match_date_now(arg: &JsValue) -> Result<JsValue, ()> {
     Ok(JsValue::I64(time as i64))
 }
 
+pub fn match_timezone_offset(arg: &JsValue) -> Result<JsValue, ()> {
+    let matcher = Match::new(arg)?;
+
+    let matcher = matcher.test_list(&["api"])?;
+    let matcher = matcher.test_list(&["call", "getTimezoneOffset"])?;
+    matcher.end()?;
+
+    // The time zone of the visitor is not known on the server
+    Ok(JsValue::I32(0))
+}
+
+pub fn match_random(arg: &JsValue) -> Result<JsValue, ()> {
+    let matcher = Match::new(arg)?;
+
+    let matcher = matcher.test_list(&["api"])?;
+    let (matcher, (min, max)) =
+        matcher.test_list_with_fn(|matcher: Match| -> Result<(u32, u32), ()> {
+            let matcher = matcher.str("call")?;
+            let matcher = matcher.str("getRandom")?;
+            let (matcher, min) = matcher.u32()?;
+            let (matcher, max) = matcher.u32()?;
+            matcher.end()?;
+
+            Ok((min, max))
+        })?;
+    matcher.end()?;
+
+    let random = RandomState::new().build_hasher().finish();
+    let count = u64::from(max.saturating_sub(min)) + 1;
+    let value = u64::from(min) + random % count;
+
+    Ok(JsValue::I32(value as u32 as i32))
+}
+
 pub fn match_websocket(arg: &JsValue) -> Result<(), ()> {
     let matcher = Match::new(arg)?;
 
diff --git a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
index 091279b..20e0043 100644
--- a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
+++ b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
@@ -102,6 +102,14 @@ impl WasmInstance {
                         return data_context.save_value(current_time);
                     }
 
+                    if let Ok(offset) = match_timezone_offset(&value) {
+                        return data_context.save_value(offset);
+                    }
+
+                    if let Ok(random) = match_random(&value) {
+                        return data_context.save_value(random);
+                    }
+
                     if let Ok(result) = match_interval(&value) {
                         match result {
                             CallWebsocketResult::TimeoutSet { time, callback_id } => {
-- 
2.43.0


From 93dafb7e769830a19d7e977606b78fad6d7bf06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 31/51] fix: the proxy has to pass the body of a POST request
 as it is

---
 crates/vertigo-cli/src/serve/serve_run.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index ad0ea66..f89f03b 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -1,13 +1,12 @@
 use axum::{
-    body::BoxBody,
-    extract::{Json, RawQuery, State},
+    body::{BoxBody, Bytes},
+    extract::{RawQuery, State},
     http::{header::HeaderMap, HeaderValue, StatusCode, Uri},
     response::Response,
     routing::get,
     Router,
 };
 use reqwest::header;
-use serde_json::Value;
 use std::{
     sync::Arc,
     time::{Duration, Instant},
@@ -108,9 +107,8 @@ async fn get_response(target_url: String) -> Response<BoxBody> {
     response
 }
 
-async fn post_response(target_url: String, headers: HeaderMap, body: Value) -> Response<BoxBody> {
+async fn post_response(target_url: String, headers: HeaderMap, body: Bytes) -> Response<BoxBody> {
     let client = reqwest::Client::new();
-    let body = serde_json::to_vec(&body).unwrap();
     let response = match client
         .post(target_url.clone())
         .headers(headers)
@@ -175,10 +173,9 @@ fn install_proxy(
             .post({
                 let path = path.clone();
 
-                move |url: Uri, headers: HeaderMap, body: Json<Value>| async move {
+                move |url: Uri, headers: HeaderMap, body: Bytes| async move {
                     let from_url = format!("{path}{url}");
                     let target_url = format!("{target}{url}");
-                    let Json(body) = body;
                     log::info!("proxy post {from_url} -> {target_url}");
 
                     post_response(target_url, headers, body).await
-- 
2.43.0


From c0eb052742fa293243a3fadca648b4d2754c017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 32/51] fix: the server answered 500 at its time limit to a
 page which waits for a request of a LazyCache

Nothing was sent to the server before the first content was complete, so there was no page to send when the limit was reached.
---
 crates/vertigo/src/driver_module/dom.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/dom.rs b/crates/vertigo/src/driver_module/dom.rs
index 7705b31..8671035 100644
--- a/crates/vertigo/src/driver_module/dom.rs
+++ b/crates/vertigo/src/driver_module/dom.rs
@@ -111,7 +111,9 @@ impl Commands {
     fn flush_dom_changes(&self) {
         let is_ready = self.state.map(|state| state.is_ready());
 
-        if is_ready {
+        // The server waits for the requests by itself, and has to have something
+        // to send if some of them are not answered in time.
+        if is_ready || !self.api.is_browser() {
             self.flush_dom_changes_inner();
         }
     }
-- 
2.43.0


From 4ce4952e70a23580d0aed3bf1d53ea83a7ecbc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 33/51] fix: an answer of a proxied server which has been sent
 in chunks broke the connection

Its Transfer-Encoding header was passed on together with a body of a known length.
---
 crates/vertigo-cli/src/serve/serve_run.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index f89f03b..e592828 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -71,6 +71,14 @@ pub async fn run(opts: ServeOpts, port_watch: Option<u16>) -> Result<(), i32> {
     Ok(())
 }
 
+/// The body is sent again as a whole, so how it has been transferred to us does not matter.
+fn get_end_to_end_headers(headers: &HeaderMap) -> HeaderMap {
+    let mut headers = headers.clone();
+    headers.remove(header::CONNECTION);
+    headers.remove(header::TRANSFER_ENCODING);
+    headers
+}
+
 async fn get_response(target_url: String) -> Response<BoxBody> {
     let response = match reqwest::get(target_url.clone()).await {
         Ok(response) => response,
@@ -84,7 +92,7 @@ async fn get_response(target_url: String) -> Response<BoxBody> {
         }
     };
 
-    let headers = response.headers().clone();
+    let headers = get_end_to_end_headers(response.headers());
     let status = response.status();
     let body = match response.bytes().await {
         Ok(body) => body.to_vec(),
@@ -127,7 +135,7 @@ async fn post_response(target_url: String, headers: HeaderMap, body: Bytes) -> R
         }
     };
 
-    let headers = response.headers().clone();
+    let headers = get_end_to_end_headers(response.headers());
     let status = response.status();
     let body = match response.bytes().await {
         Ok(body) => body.to_vec(),
-- 
2.43.0


From 8e25a8a06ceb9a7bb847cb824959aba32616914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 34/51] fix: the attributes of a cookie are written without a
 stray quote

---
 crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts | 2 +-
 crates/vertigo/src/driver_module/wasm_run.js                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts b/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
index 49ed2e6..c3d305c 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
@@ -53,7 +53,7 @@ export class Cookies {
         d.setTime(d.getTime() + (Number(expires_in) * 1000));
         let expires = "expires="+ d.toUTCString();
 
-        document.cookie = `${cname}=${cvalueEncoded};${expires};path=/;samesite=strict"`;
+        document.cookie = `${cname}=${cvalueEncoded};${expires};path=/;samesite=strict`;
     }
 
     public set_json = (
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 0ec0f4b..2644ea6 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 4231156663dd61c5c47cbe2c3aae7cf4bd150e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 35/51] fix: a cookie's value may contain '=' and need not be
 percent-encoded properly

---
 .../src_js/api_browser/cookies.ts             | 24 +++++++++----------
 crates/vertigo/src/driver_module/wasm_run.js  |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts b/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
index c3d305c..45defd3 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
@@ -5,23 +5,23 @@ export class Cookies {
         for (const cookie of document.cookie.split(';')) {
             if (cookie === "") continue;
 
-            const cookieChunk = cookie.trim().split('=');
+            // The value may contain '=' if it was set by someone else
+            const cookieTrimmed = cookie.trim();
+            const separator = cookieTrimmed.indexOf('=');
 
-            if (cookieChunk.length !== 2) {
-                console.warn(`Cookies.get: Incorrect number of cookieChunk => ${cookieChunk.length} in ${cookie}`);
+            if (separator === -1) {
+                console.warn(`Cookies.get: Missing name in ${cookie}`);
                 continue;
             }
 
-            const cookieName = cookieChunk[0];
-            const cookieValue = cookieChunk[1];
+            if (cookieTrimmed.slice(0, separator) === cname) {
+                const cookieValue = cookieTrimmed.slice(separator + 1);
 
-            if (cookieName === undefined || cookieValue === undefined) {
-                console.warn(`Cookies.get: Broken cookie part => ${cookie}`);
-                continue;
-            }
-
-            if (cookieName === cname) {
-                return decodeURIComponent(cookieValue);
+                try {
+                    return decodeURIComponent(cookieValue);
+                } catch {
+                    return cookieValue;
+                }
             }
         }
 
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 2644ea6..465086a 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim(),s=r.indexOf("=");if(-1!==s){if(r.slice(0,s)===e){const e=r.slice(s+1);try{return decodeURIComponent(e)}catch{return e}}}else console.warn(`Cookies.get: Missing name in ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 85432fd78c2d2042f5779dbcbcc09685a55d616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 36/51] fix: cookies holding a JSON text, number or boolean are
 read as such

---
 .../src/driver_module/api/api_import.rs       | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo/src/driver_module/api/api_import.rs b/crates/vertigo/src/driver_module/api/api_import.rs
index 13ebd9b..22ea0d8 100644
--- a/crates/vertigo/src/driver_module/api/api_import.rs
+++ b/crates/vertigo/src/driver_module/api/api_import.rs
@@ -131,12 +131,21 @@ impl ApiImport {
                 .call("get_json", vec![JsValue::str(cname)])
                 .fetch();
 
-            if result != JsValue::Null {
-                if let JsValue::Json(value) = result {
-                    return value;
+            return match result {
+                JsValue::Null => JsJson::Null,
+                JsValue::Json(value) => value,
+                // Texts, numbers and booleans are not wrapped in JsValue::Json
+                JsValue::True => JsJson::True,
+                JsValue::False => JsJson::False,
+                JsValue::String(value) => JsJson::String(value),
+                JsValue::I32(value) => JsJson::Number(value as f64),
+                JsValue::I64(value) => JsJson::Number(value as f64),
+                JsValue::F64(value) => JsJson::Number(value),
+                result => {
+                    log::error!("cookie_get_json -> params decode error -> result={result:?}");
+                    JsJson::Null
                 }
-                log::error!("cookie_get_json -> params decode error -> result={result:?}");
-            }
+            };
         }
         JsJson::Null
     }
-- 
2.43.0


From d77521316c2cd81e10f3b601be7d139135c8edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 37/51] fix: attributes of html, head and body which only the
 server's page had are removed when the browser takes over

---
 .../src/driver_module/src_js/api_browser/dom/dom.ts | 13 +++++++++++++
 crates/vertigo/src/driver_module/wasm_run.js        |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts b/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
index 2701150..310afb5 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
@@ -429,6 +429,15 @@ export class DriverDom {
         return list;
     };
 
+    // Attributes rendered by the server, the application sets its own ones. The environment has to stay.
+    private clear_attributes = (element: Element) => {
+        for (const name of element.getAttributeNames()) {
+            if (!name.startsWith('data-env-')) {
+                element.removeAttribute(name);
+            }
+        }
+    };
+
     private get_to_clear = (): [Array<ChildNode>, Array<ChildNode>] => {
         if (this.initBeforeFirstUpdate === true) {
             return [[], []];
@@ -436,6 +445,10 @@ export class DriverDom {
 
         this.initBeforeFirstUpdate = true;
 
+        this.clear_attributes(this.nodes.get_root_html());
+        this.clear_attributes(this.nodes.get_root_head());
+        this.clear_attributes(this.nodes.get_root_body());
+
         return [
             this.get_node_to_clear(this.nodes.get_root_head()),
             this.get_node_to_clear(this.nodes.get_root_body())
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 465086a..ee73770 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim(),s=r.indexOf("=");if(-1!==s){if(r.slice(0,s)===e){const e=r.slice(s+1);try{return decodeURIComponent(e)}catch{return e}}}else console.warn(`Cookies.get: Missing name in ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim(),s=r.indexOf("=");if(-1!==s){if(r.slice(0,s)===e){const e=r.slice(s+1);try{return decodeURIComponent(e)}catch{return e}}}else console.warn(`Cookies.get: Missing name in ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.clear_attributes=e=>{for(const t of e.getAttributeNames())t.startsWith("data-env-")||e.removeAttribute(t)},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,this.clear_attributes(this.nodes.get_root_html()),this.clear_attributes(this.nodes.get_root_head()),this.clear_attributes(this.nodes.get_root_body()),[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 9274e994ab67b83de1ef578ee1be10a3ac3e1812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 38/51] fix: an instant does not underflow when the clock is
 set back

---
 crates/vertigo/src/instant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/instant.rs b/crates/vertigo/src/instant.rs
index b676f54..7f8f7c4 100644
--- a/crates/vertigo/src/instant.rs
+++ b/crates/vertigo/src/instant.rs
@@ -28,7 +28,8 @@ impl Instant {
     }
 
     pub fn elapsed(&self) -> InstantType {
-        self.api.instant_now() - self.instant
+        // The instant may lie ahead, and the clock may be set back
+        self.api.instant_now().saturating_sub(self.instant)
     }
 
     pub fn seconds_elapsed(&self) -> InstantType {
-- 
2.43.0


From 7bdb708659595085d7a688bcabf822636d4cc5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 39/51] fix: random numbers above i32 reach the application

---
 .../vertigo/src/driver_module/api/api_import.rs   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo/src/driver_module/api/api_import.rs b/crates/vertigo/src/driver_module/api/api_import.rs
index 22ea0d8..40ee987 100644
--- a/crates/vertigo/src/driver_module/api/api_import.rs
+++ b/crates/vertigo/src/driver_module/api/api_import.rs
@@ -657,12 +657,15 @@ impl ApiImport {
             .call("getRandom", vec![JsValue::U32(min), JsValue::U32(max)])
             .fetch();
 
-        if let JsValue::I32(result) = result {
-            result as u32
-        } else {
-            self.panic_message
-                .show(format!("api.get_random -> incorrect result {result:?}"));
-            min
+        match result {
+            JsValue::I32(result) => result as u32,
+            // Numbers above i32::MAX
+            JsValue::F64(result) => result as u32,
+            _ => {
+                self.panic_message
+                    .show(format!("api.get_random -> incorrect result {result:?}"));
+                min
+            }
         }
     }
 
-- 
2.43.0


From 02e87820d10f5321725423b53f989fdace964f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 40/51] fix: build: cargo's own target directory is used,
 wherever it is configured

---
 crates/vertigo-cli/src/build/build_run.rs   |  6 +++---
 crates/vertigo-cli/src/build/cargo_build.rs |  7 ++++++-
 crates/vertigo-cli/src/build/find_target.rs | 16 +++++-----------
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/crates/vertigo-cli/src/build/build_run.rs b/crates/vertigo-cli/src/build/build_run.rs
index 33346d0..502f4b3 100644
--- a/crates/vertigo-cli/src/build/build_run.rs
+++ b/crates/vertigo-cli/src/build/build_run.rs
@@ -4,7 +4,7 @@ use crate::commons::models::IndexModel;
 
 use super::{
     build_opts::BuildOpts,
-    cargo_build::run_cargo_build,
+    cargo_build::{get_target_path, run_cargo_build},
     cargo_workspace::{get_workspace, Workspace},
     wasm_opt::run_wasm_opt,
     wasm_path::WasmPath,
@@ -47,7 +47,7 @@ pub fn run_with_ws(opts: BuildOpts, ws: &Workspace) -> Result<(), i32> {
 
     // Delete rlibs to re-generate static files
 
-    find_package_rlib_in_target(&package_name).remove_file();
+    find_package_rlib_in_target(&get_target_path(ws), &package_name).remove_file();
 
     // Run build
 
@@ -80,7 +80,7 @@ pub fn run_with_ws(opts: BuildOpts, ws: &Workspace) -> Result<(), i32> {
 
     // Copy .wasm to destination
 
-    let wasm_path_target = find_wasm_in_target(&package_name);
+    let wasm_path_target = find_wasm_in_target(&target_path, &package_name);
     let wasm_path = opts.new_path_in_static_from(&wasm_path_target);
 
     // Optimize .wasm
diff --git a/crates/vertigo-cli/src/build/cargo_build.rs b/crates/vertigo-cli/src/build/cargo_build.rs
index 82600bd..00bfeea 100644
--- a/crates/vertigo-cli/src/build/cargo_build.rs
+++ b/crates/vertigo-cli/src/build/cargo_build.rs
@@ -7,6 +7,11 @@ use super::Workspace;
 const TARGET: &str = "wasm32-unknown-unknown";
 const MODE: &str = "release";
 
+/// The directory in which cargo puts what has been built
+pub fn get_target_path(ws: &Workspace) -> PathBuf {
+    ws.get_target_dir().join(TARGET).join(MODE)
+}
+
 pub fn run_cargo_build(
     package_name: &str,
     public_path: &str,
@@ -26,7 +31,7 @@ pub fn run_cargo_build(
         .output_with_status();
 
     if status.success() {
-        Ok(ws.get_target_dir().join(TARGET).join(MODE))
+        Ok(get_target_path(ws))
     } else {
         Err(output)
     }
diff --git a/crates/vertigo-cli/src/build/find_target.rs b/crates/vertigo-cli/src/build/find_target.rs
index 49a2cb4..67fcbd8 100644
--- a/crates/vertigo-cli/src/build/find_target.rs
+++ b/crates/vertigo-cli/src/build/find_target.rs
@@ -1,19 +1,13 @@
-use std::path::PathBuf;
+use std::path::Path;
 
 use super::wasm_path::WasmPath;
 
-pub fn find_wasm_in_target(package_name: &str) -> WasmPath {
+pub fn find_wasm_in_target(target_path: &Path, package_name: &str) -> WasmPath {
     let wasm_file_name = package_name.replace('-', "_");
-    let path = PathBuf::from(format!(
-        "target/wasm32-unknown-unknown/release/{wasm_file_name}.wasm"
-    ));
-    WasmPath::new(path)
+    WasmPath::new(target_path.join(format!("{wasm_file_name}.wasm")))
 }
 
-pub fn find_package_rlib_in_target(package_name: &str) -> WasmPath {
+pub fn find_package_rlib_in_target(target_path: &Path, package_name: &str) -> WasmPath {
     let wasm_file_name = package_name.replace('-', "_");
-    let path = PathBuf::from(format!(
-        "target/wasm32-unknown-unknown/release/deps/lib{wasm_file_name}.rlib"
-    ));
-    WasmPath::new(path)
+    WasmPath::new(target_path.join(format!("deps/lib{wasm_file_name}.rlib")))
 }
-- 
2.43.0


From 3d1a16c4ea1fbb5ce3c1ddf3da2a78e65e83bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 41/51] fix: watch: the status stream listens on --port-watch

---
 crates/vertigo-cli/src/watch/watch_run.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index b0a7d48..67249ae 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -110,8 +110,10 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
             .with(cors_middleware)
             .data(rx);
 
+        let port_watch = opts.port_watch;
+
         async move {
-            Server::new(TcpListener::bind("127.0.0.1:5555"))
+            Server::new(TcpListener::bind(("127.0.0.1", port_watch)))
                 .run(app)
                 .await
         }
-- 
2.43.0


From d93c0e897f7521eff38b9c8a05b2bdca802ebe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 42/51] fix: watch: a tab opened during a build reloads when
 the new version is there

---
 crates/vertigo-cli/src/serve/watch.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/watch.js b/crates/vertigo-cli/src/serve/watch.js
index 5ba5318..d66b380 100644
--- a/crates/vertigo-cli/src/serve/watch.js
+++ b/crates/vertigo-cli/src/serve/watch.js
@@ -26,7 +26,8 @@ function start_watch(url) {
             return;
         }
 
-        if (last_message === null) {
+        // A page which has been told about a build in progress may come from an earlier one
+        if (last_message === null && building_message === null) {
             console.info(`Watch - init version ${message}`);
             last_message = message;
             return;
-- 
2.43.0


From ce1fa8942d4b4b466005a0341e24819d6d3e46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 43/51] fix: watch: a superseded build has ended before the
 next one starts

---
 crates/vertigo-cli/src/commons/spawn.rs   | 7 +++++++
 crates/vertigo-cli/src/watch/watch_run.rs | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/commons/spawn.rs b/crates/vertigo-cli/src/commons/spawn.rs
index ba3dd72..aacec37 100644
--- a/crates/vertigo-cli/src/commons/spawn.rs
+++ b/crates/vertigo-cli/src/commons/spawn.rs
@@ -13,6 +13,13 @@ impl SpawnOwner {
     }
 
     pub fn off(self) {}
+
+    /// Stops the task and waits until it has really ended
+    /// (a task can't be stopped before it reaches its next await).
+    pub async fn stop(mut self) {
+        self.handler.abort();
+        let _ = (&mut self.handler).await;
+    }
 }
 
 impl Drop for SpawnOwner {
diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index 67249ae..bc22adc 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -142,7 +142,8 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
 
         let spawn = build_and_watch(version, tx.clone(), &opts, &ws);
         notify_build.notified().await;
-        spawn.off();
+        // The next build must not start while this one is still writing the same files
+        spawn.stop().await;
     }
 }
 
-- 
2.43.0


From a131577a16ac1ca17f609ca5767fbe9122e5ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 44/51] fix: include_static: the build which runs the macro
 finds its target directory when CARGO_TARGET_DIR is set

---
 crates/vertigo-macro/src/include_static.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/vertigo-macro/src/include_static.rs b/crates/vertigo-macro/src/include_static.rs
index 88e27aa..ff522dd 100644
--- a/crates/vertigo-macro/src/include_static.rs
+++ b/crates/vertigo-macro/src/include_static.rs
@@ -40,15 +40,11 @@ fn bundle_file(mut file_path: PathBuf, file: String) -> Result<String, String> {
         let file_name = file_path.file_name();
         let file_static_target = {
             let mut target_path = WasmPath::new(PathBuf::from(
-                std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| {
-                    format!(
-                        "target/{}/release",
-                        std::env::var("TARGET")
-                            .unwrap_or_else(|_| "wasm32-unknown-unknown".to_string())
-                    )
-                }),
+                std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "target".to_string()),
             ));
-            target_path.push(&["static", "included", file_name.as_str()]);
+            let target =
+                std::env::var("TARGET").unwrap_or_else(|_| "wasm32-unknown-unknown".to_string());
+            target_path.push(&[target.as_str(), "release", "static", "included", file_name.as_str()]);
             target_path
         };
 
-- 
2.43.0


From 7b72a2f3b4ce45fef1f1ae73ba2e762ae839d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 45/51] fix: watch: the status stream is answered while a build
 runs

---
 crates/vertigo-cli/src/watch/watch_run.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index bc22adc..e047cf7 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -7,6 +7,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::watch::Sender;
 use tokio::sync::Notify;
+use tokio::task::block_in_place;
 use tokio::time::sleep;
 use tokio_retry::{strategy::FibonacciBackoff, Retry};
 
@@ -158,7 +159,10 @@ fn build_and_watch(
     SpawnOwner::new(async move {
         sleep(Duration::from_millis(200)).await;
 
-        match crate::build::run_with_ws(opts.to_build_opts(), &ws) {
+        // The events and the pages are served meanwhile
+        let result = block_in_place(|| crate::build::run_with_ws(opts.to_build_opts(), &ws));
+
+        match result {
             Ok(()) => {
                 log::info!("build run ok");
 
-- 
2.43.0


From 7b4ebb210c0e8f41a7dc36bdde93295b623e54e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 46/51] fix: css: rules in media queries come after the class's
 own rule and override it

---
 crates/vertigo/src/css/css_manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/css/css_manager.rs b/crates/vertigo/src/css/css_manager.rs
index d16084d..e46433f 100644
--- a/crates/vertigo/src/css/css_manager.rs
+++ b/crates/vertigo/src/css/css_manager.rs
@@ -29,7 +29,11 @@ impl CssManagerInner {
     }
 
     fn insert_css(&self, css: &str) -> u64 {
-        let (class_id, css_selectors) = transform_css(css, &self.next_id);
+        let (class_id, mut css_selectors) = transform_css(css, &self.next_id);
+
+        // The last one is the rule of the class itself. It goes first, because a rule from a media query
+        // has the same specificity, so it is effective only when it comes later.
+        css_selectors.rotate_right(1);
 
         for (selector, selector_data) in css_selectors {
             (self.insert_css)(&selector, &selector_data);
-- 
2.43.0


From 2b9ac37f5bd1b93a842734717eecd17c95b61d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 47/51] fix: css: strings, parentheses and comments are not
 split at separators in them

---
 .../vertigo/src/css/transform_css/splits.rs   | 54 ++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 0d9d293..20402fa 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -5,6 +5,14 @@ enum RowSideState {
     BracketsOpened(u16),
 }
 
+/// Text in which a semicolon or a bracket has no meaning of its own
+#[derive(Eq, PartialEq, Debug)]
+enum Opaque {
+    Quoted(char),
+    Parentheses(u16),
+    Comment,
+}
+
 // Splits rules into Vec
 //
 // "rule1; rule2;" -> ["rule1", "rule2"]
@@ -18,8 +26,52 @@ pub fn css_split_rows(css: &str) -> Vec<&str> {
 
     let mut row_side = RowSideState::Left;
     let mut start = 0;
+    // Strings, parentheses and comments which are opened here. There is at most a string in parentheses.
+    let mut opaque: Vec<Opaque> = Vec::new();
+    let mut chars = css.char_indices().peekable();
+
+    while let Some((index, char)) = chars.next() {
+        match opaque.last_mut() {
+            Some(Opaque::Comment) => {
+                if char == '*' && matches!(chars.peek(), Some((_, '/'))) {
+                    chars.next();
+                    opaque.pop();
+                }
+                continue;
+            }
+            Some(Opaque::Quoted(quote)) => {
+                if char == '\\' {
+                    chars.next();
+                } else if char == *quote {
+                    opaque.pop();
+                }
+                continue;
+            }
+            Some(Opaque::Parentheses(counter)) => match char {
+                '(' => *counter += 1,
+                ')' if *counter > 1 => *counter -= 1,
+                ')' => {
+                    opaque.pop();
+                }
+                '"' | '\'' => opaque.push(Opaque::Quoted(char)),
+                _ => {}
+            },
+            None => match char {
+                '(' => opaque.push(Opaque::Parentheses(1)),
+                '"' | '\'' => opaque.push(Opaque::Quoted(char)),
+                '/' if matches!(chars.peek(), Some((_, '*'))) => {
+                    chars.next();
+                    opaque.push(Opaque::Comment);
+                    continue;
+                }
+                _ => {}
+            },
+        }
+
+        if !opaque.is_empty() {
+            continue;
+        }
 
-    for (index, char) in css.char_indices() {
         if char == '{' {
             if row_side == RowSideState::Right {
                 row_side = RowSideState::BracketsOpened(1);
-- 
2.43.0


From 44c829ca214ff40a49a31d8cb564e20950f1214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 48/51] fix: css!: expressions next to text, percentages,
 quoted values and urls keep their form

---
 crates/vertigo-macro/src/css.pest      |  9 +++++----
 crates/vertigo-macro/src/css_parser.rs | 16 ++++++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/vertigo-macro/src/css.pest b/crates/vertigo-macro/src/css.pest
index 1bf91a0..15d5ae2 100644
--- a/crates/vertigo-macro/src/css.pest
+++ b/crates/vertigo-macro/src/css.pest
@@ -274,11 +274,12 @@ unknown_rule = {
 }
 
 rule_ident = { (ASCII_ALPHA_LOWER | "@" | "-" ) ~ (ASCII_ALPHA_LOWER | "-")+ }
-value = _{ url_value | (simple_value)+ }
-simple_value = _{ expression | color_value | unquoted_value | quoted_value }
+value = _{ (url_value | simple_value)+ }
+simple_value = _{ expression | color_value | quoted_value | unquoted_value }
 
-unquoted_value = { (!semicolon ~ ANY)+ }
-quoted_value = { PUSH(quote) ~ (!PEEK ~ ANY)+ ~ POP }
+unquoted_value = { (comment | raw_url | !(semicolon | quote | brace_left | url_value) ~ ANY)+ }
+quoted_value = ${ PUSH(quote) ~ ("\\" ~ ANY | !PEEK ~ ANY)* ~ POP }
+raw_url = _{ "url(" ~ (!(")" | quote | brace_left) ~ ANY)+ ~ ")" }
 
 color_value = { hexa_value | hex_value | rgba_value | rgb_value | hsla_value | hsl_value }
 hex_value = _{ hash ~ ASCII_HEX_DIGIT{6} }
diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index 1366cdf..5788e23 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -110,9 +110,16 @@ impl CssParser {
         let rule_ident = pairs.next().unwrap();
 
         let ident_str = rule_ident.as_str();
-        let mut value_strs = Vec::new();
+        let mut value_strs = String::new();
+        let mut last_end = None;
 
         for value in pairs {
+            // Parts are separated only where they were separated in the source, i.e. "{width}%"
+            if last_end.is_some_and(|last_end| last_end < value.as_span().start()) {
+                value_strs.push(' ');
+            }
+            last_end = Some(value.as_span().end());
+
             let value_str = match value.as_rule() {
                 Rule::color_value => value.as_str().to_string(),
                 Rule::unquoted_value => value.as_str().to_string(),
@@ -144,13 +151,10 @@ impl CssParser {
                     "".to_string()
                 }
             };
-            value_strs.push(value_str);
+            value_strs.push_str(&value_str);
         }
 
-        format!(
-            "{ident_str}: {};",
-            value_strs.join(" ").replace("} px", "}px")
-        )
+        format!("{ident_str}: {};", value_strs.replace("} px", "}px"))
     }
 
     fn generate_animation_rule(&mut self, pair: Pair<Rule>) -> String {
-- 
2.43.0


From 8efa04eb3268e5f9bc7e626fa2da4f82982de23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 49/51] fix: css!: properties which begin with animation are
 not taken for animation

---
 crates/vertigo-macro/src/css.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vertigo-macro/src/css.pest b/crates/vertigo-macro/src/css.pest
index 15d5ae2..c2b750d 100644
--- a/crates/vertigo-macro/src/css.pest
+++ b/crates/vertigo-macro/src/css.pest
@@ -269,7 +269,7 @@ simple_rule = _{
 }
 
 unknown_rule = {
-    !("animation")
+    !("animation" ~ colon)
     ~ rule_ident ~ colon ~ value ~ semicolon
 }
 
-- 
2.43.0


From 7a07081e4a1f44057927308ce34c8a96ec5a3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 50/51] fix: links with another scheme (mailto, tel) are left
 to the browser

---
 crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts | 2 +-
 crates/vertigo/src/driver_module/wasm_run.js                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts b/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
index 310afb5..92583d3 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
@@ -116,7 +116,7 @@ export class DriverDom {
                     return;
                 }
 
-                if (href.startsWith('#') || href.startsWith('http://') || href.startsWith('https://') || href.startsWith('//')) {
+                if (href.startsWith('#') || href.startsWith('//') || /^[a-z][a-z\d+.-]*:/i.test(href)) {
                     return;
                 }
 
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index ee73770..fbbac7f 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim(),s=r.indexOf("=");if(-1!==s){if(r.slice(0,s)===e){const e=r.slice(s+1);try{return decodeURIComponent(e)}catch{return e}}}else console.warn(`Cookies.get: Missing name in ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.clear_attributes=e=>{for(const t of e.getAttributeNames())t.startsWith("data-env-")||e.removeAttribute(t)},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,this.clear_attributes(this.nodes.get_root_html()),this.clear_attributes(this.nodes.get_root_head()),this.clear_attributes(this.nodes.get_root_body()),[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim(),s=r.indexOf("=");if(-1!==s){if(r.slice(0,s)===e){const e=r.slice(s+1);try{return decodeURIComponent(e)}catch{return e}}}else console.warn(`Cookies.get: Missing name in ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return location.hash.substr(1).replace(/(%[0-9a-f]{2})+/gi,(e=>{try{return decodeURIComponent(e)}catch(t){return e}}))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const [i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),l=await fetch(r,{method:t,headers:i,body:a}),c=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(l.headers.get("content-type"));if("json"===c)return void S(n,e,l,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===c)return void S(n,e,l,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,l,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.clear_attributes=e=>{for(const t of e.getAttributeNames())t.startsWith("data-env-")||e.removeAttribute(t)},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,this.clear_attributes(this.nodes.get_root_html()),this.clear_attributes(this.nodes.get_root_head()),this.clear_attributes(this.nodes.get_root_body()),[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z\d+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.isCurrent(e)||(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.isCurrent(e)||(window.history.replaceState(null,"",e),this.trigger())},this.isCurrent=e=>new URL(e,document.baseURI).href===window.location.href,this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 2341d87395d4381a19a08bb59e24159e1eee82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:29 +0000
Subject: [PATCH 51/51] fix: the inspector's root is the page, not its head or
 body at random

---
 crates/vertigo/src/inspect.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/inspect.rs b/crates/vertigo/src/inspect.rs
index 68f8f68..98bc400 100644
--- a/crates/vertigo/src/inspect.rs
+++ b/crates/vertigo/src/inspect.rs
@@ -165,7 +165,9 @@ impl DomDebugFragment {
         }
 
         // Try to return real root node
-        let root_node = if let Some(root_node) = map
+        let root_node = if map.contains_key(&DomId::root_id()) {
+            Some(DomId::root_id())
+        } else if let Some(root_node) = map
             .iter()
             .find(|(_, child)| child.parent_id == DomId::root_id())
             .map(|(id, _)| id)
-- 
2.43.0

