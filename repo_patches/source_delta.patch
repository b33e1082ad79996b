From f89a457b586510f517cac6218e61665c64a34933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:44 +0000
Subject: [PATCH 01/14] fix: keep segment boundaries apart in the route trie

A trie node held the rest of a split segment and the next segment of the
path in one list of children. Routes that only share leading characters
could therefore match each other's requests, run each other's middleware,
turn a ':' inside a segment into a parameter and be refused as ambiguous
or conflicting.
---
 src/router/route_trie.rs | 59 ++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index a028bca..b2843eb 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -261,12 +261,14 @@ impl RouteTrie {
             match curr_node.process_insertion(k) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
-                        if next_node.value.is_some() || !next_node.child_nodes.is_empty() {
+                        if next_node.value.is_some()
+                            || next_node.child_nodes.iter().any(|x| !x.is_continuation)
+                        {
                             panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
                         }
 
                         next_node.value = src.head.value;
-                        next_node.child_nodes = src.head.child_nodes;
+                        next_node.child_nodes.extend(src.head.child_nodes);
                         break;
                     }
                     curr_node = next_node;
@@ -308,6 +310,8 @@ struct Node {
     key: String,
     value: Option<RouteValue>,
     child_nodes: Vec<Node>,
+    /// The key continues the path segment of the parent node instead of starting a new one
+    is_continuation: bool,
 }
 
 impl Node {
@@ -316,20 +320,41 @@ impl Node {
             key,
             value,
             child_nodes: Vec::default(),
+            is_continuation: false,
+        }
+    }
+
+    /// Node of which the key continues the path segment of its parent node
+    fn new_continuation(key: String, value: Option<RouteValue>) -> Self {
+        Node {
+            is_continuation: true,
+            ..Self::new(key, value)
         }
     }
 
     fn is_param(&self) -> bool {
-        self.key.chars().next().unwrap_or(' ') == ':'
+        !self.is_continuation && self.key.chars().next().unwrap_or(' ') == ':'
     }
 
     /// Process the side effects of node insertion
     fn process_insertion(&mut self, key: &str) -> Result<&mut Self, ObsidianError> {
-        let action = self.get_insertion_action(key);
+        self.process_key_insertion(key, false)
+    }
+
+    fn process_key_insertion(
+        &mut self,
+        key: &str,
+        is_continuation: bool,
+    ) -> Result<&mut Self, ObsidianError> {
+        let action = self.get_insertion_action(key, is_continuation);
 
         match action.name {
             ActionName::CreateNewNode => {
-                let new_node = Self::new(key.to_string(), None);
+                let new_node = if is_continuation {
+                    Self::new_continuation(key.to_string(), None)
+                } else {
+                    Self::new(key.to_string(), None)
+                };
 
                 match key {
                     k if k == "*" => {
@@ -355,7 +380,7 @@ impl Node {
             }
             ActionName::SplitKey => {
                 if let Some(node) = self.child_nodes.get_mut(action.payload.node_index) {
-                    return node.process_insertion(&key[action.payload.match_count..]);
+                    return node.process_key_insertion(&key[action.payload.match_count..], true);
                 };
             }
             ActionName::SplitNode => {
@@ -365,7 +390,7 @@ impl Node {
                     let new_key = key[count..].to_string();
                     node.key = key[..count].to_string();
 
-                    let mut inter_node = Self::new(child_key, None);
+                    let mut inter_node = Self::new_continuation(child_key, None);
 
                     // Move out the previous child and transfer to intermediate node
                     inter_node.child_nodes = std::mem::take(&mut node.child_nodes);
@@ -378,7 +403,7 @@ impl Node {
                         return Ok(node);
                     }
 
-                    let new_node = Self::new(new_key, None);
+                    let new_node = Self::new_continuation(new_key, None);
 
                     node.child_nodes.insert(0, new_node);
                     if let Some(result_node) = node.child_nodes.first_mut() {
@@ -400,9 +425,15 @@ impl Node {
     }
 
     /// Determine the action required to be performed for the new route path
-    fn get_insertion_action(&self, key: &str) -> Action {
+    fn get_insertion_action(&self, key: &str, is_continuation: bool) -> Action {
         for (index, node) in self.child_nodes.iter().enumerate() {
-            let is_param = node.is_param() || key.chars().next().unwrap_or(' ') == ':';
+            // Keys are only comparable when both of them start or both of them continue a segment
+            if node.is_continuation != is_continuation {
+                continue;
+            }
+
+            let is_param =
+                node.is_param() || (!is_continuation && key.chars().next().unwrap_or(' ') == ':');
             if is_param {
                 // Only allow one param leaf in one children series
                 if key == node.key {
@@ -460,6 +491,11 @@ impl Node {
         for node in self.child_nodes.iter() {
             let mut break_key = false;
 
+            // The rest of a segment is only found in the nodes which continue it
+            if node.is_continuation != is_break_parent {
+                continue;
+            }
+
             if !is_break_parent {
                 // Check param
                 if node.is_param() {
@@ -554,7 +590,8 @@ impl Node {
                 } else if let Some(final_val) =
                     node.get_next_node(key, params, middlewares, break_key)
                 {
-                    if let Some(curr_val) = &node.value {
+                    // The node is not a path of its own when the segment goes on below it
+                    if let (Some(curr_val), false) = (&node.value, break_key) {
                         middlewares.append(&mut curr_val.middlewares.clone());
                     }
 
-- 
2.43.0


From 9faee4c54f6329b759c47f29b282725444d2f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:13 +0000
Subject: [PATCH 02/14] fix: run middleware from the outermost path to the
 innermost

Middleware of the matched path were collected from the leaf upwards, so
that below the root the innermost middleware ran first.
---
 src/router/route_trie.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index b2843eb..5ef4241 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -25,6 +25,11 @@ impl RouteValue {
     pub fn new(middlewares: Vec<Arc<dyn Middleware>>, route: Resource) -> Self {
         RouteValue { middlewares, route }
     }
+
+    /// Put the middleware of this path in front of the ones of its sub paths
+    fn prepend_middlewares(&self, collected: &mut Vec<Arc<dyn Middleware>>) {
+        collected.splice(0..0, self.middlewares.iter().cloned());
+    }
 }
 
 pub struct RouteValueResult {
@@ -201,13 +206,6 @@ impl RouteTrie {
         let mut params = HashMap::default();
         let mut middlewares = vec![];
 
-        match &curr_node.value {
-            Some(val) => {
-                middlewares.append(&mut val.middlewares.clone());
-            }
-            None => {}
-        }
-
         if !split_key.is_empty() {
             match curr_node.get_next_node(&mut split_key, &mut params, &mut middlewares, false) {
                 Some(handler_node) => {
@@ -220,6 +218,11 @@ impl RouteTrie {
             }
         }
 
+        // Middleware of the root comes before the ones collected along the path
+        if let Some(val) = &self.head.value {
+            val.prepend_middlewares(&mut middlewares);
+        }
+
         match &curr_node.value {
             Some(val) => {
                 let route_val = RouteValue::new(middlewares, val.route.clone());
@@ -503,7 +506,7 @@ impl Node {
                         match &node.value {
                             Some(curr_val) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
-                                middlewares.append(&mut curr_val.middlewares.clone());
+                                curr_val.prepend_middlewares(middlewares);
                                 return Some(node);
                             }
                             None => {
@@ -517,7 +520,7 @@ impl Node {
 
                                 match &node.value {
                                     Some(curr_val) => {
-                                        middlewares.append(&mut curr_val.middlewares.clone());
+                                        curr_val.prepend_middlewares(middlewares);
                                     }
                                     None => {}
                                 }
@@ -535,7 +538,7 @@ impl Node {
                 if node.key == "*" {
                     match &node.value {
                         Some(curr_val) => {
-                            middlewares.append(&mut curr_val.middlewares.clone());
+                            curr_val.prepend_middlewares(middlewares);
                         }
                         None => {}
                     }
@@ -571,14 +574,14 @@ impl Node {
                 if key.is_empty() {
                     match &node.value {
                         Some(curr_val) => {
-                            middlewares.append(&mut curr_val.middlewares.clone());
+                            curr_val.prepend_middlewares(middlewares);
                             return Some(node);
                         }
                         None => {
                             for child in node.child_nodes.iter() {
                                 if child.key == "*" {
                                     if let Some(child_val) = &child.value {
-                                        middlewares.append(&mut child_val.middlewares.clone());
+                                        child_val.prepend_middlewares(middlewares);
                                         return Some(child);
                                     }
                                 }
@@ -592,7 +595,7 @@ impl Node {
                 {
                     // The node is not a path of its own when the segment goes on below it
                     if let (Some(curr_val), false) = (&node.value, break_key) {
-                        middlewares.append(&mut curr_val.middlewares.clone());
+                        curr_val.prepend_middlewares(middlewares);
                     }
 
                     return Some(final_val);
-- 
2.43.0


From 6dc3076d94064d17d717f56ee736e2adc3fd90cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:34 +0000
Subject: [PATCH 03/14] fix: do not drop middleware registered at the root path

use_service_to("/", ..) silently ignored its middleware.
---
 src/router/route_trie.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 5ef4241..4ad2f42 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -167,6 +167,12 @@ impl RouteTrie {
 
         let mut curr_node = &mut self.head;
 
+        // if the path is "/"
+        if split_key.peek().is_none() {
+            self.insert_default_middleware(middleware);
+            return;
+        }
+
         while let Some(k) = split_key.next() {
             match curr_node.process_insertion(k) {
                 Ok(next_node) => {
-- 
2.43.0


From 40a628ef93ca4ccaecd3de883cd40e0a87a28861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:35 +0000
Subject: [PATCH 04/14] fix: reject mounting a router at the root over
 registered routes

use_router("/", ..) silently discarded every route and middleware that
was registered before. Treat it like any other mount conflict.
---
 src/router/route_trie.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 4ad2f42..b9a4ab7 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -262,6 +262,10 @@ impl RouteTrie {
         let mut curr_node = &mut des.head;
 
         if split_key.peek().is_none() {
+            if curr_node.value.is_some() || !curr_node.child_nodes.is_empty() {
+                panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
+            }
+
             des.head = src.head;
             return;
         }
-- 
2.43.0


From 25b9a870fb6025984afd02027e176ad3289fa6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 05/14] fix: serve static files from routers mounted elsewhere

The static handlers derived the file from the whole request path, which
includes the paths the router is mounted at. Keep the part of the path a
wildcard matched as param '*' and derive the file from that.
---
 src/router.rs            | 33 ++++++---------------------------
 src/router/route_trie.rs | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 8eff03d..5a55c6b 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -83,10 +83,7 @@ impl Router {
         let mut path = String::from(virtual_path);
         path.push_str("/*");
 
-        self.get(
-            &path,
-            Self::static_virtual_file_handler(virtual_path, dir_path),
-        );
+        self.get(&path, Self::static_virtual_file_handler(dir_path));
     }
 
     /// Serve static files by the directory path as the route and server file path
@@ -94,7 +91,7 @@ impl Router {
         let mut path = String::from(dir_path);
         path.push_str("/*");
 
-        self.get(&path, Self::static_dir_file_handler);
+        self.get(&path, Self::static_virtual_file_handler(dir_path));
     }
 
     /// Apply route handler in current relative route
@@ -112,26 +109,21 @@ impl Router {
         self.routes.insert_route(path, route);
     }
 
-    fn static_virtual_file_handler(virtual_path: &str, dir_path: &str) -> impl Handler {
+    fn static_virtual_file_handler(dir_path: &str) -> impl Handler {
         let dir_path = dir_path
             .split('/')
             .filter(|key| !key.is_empty())
             .map(|x| x.to_string())
             .collect::<Vec<String>>();
 
-        let virtual_path_len = virtual_path
-            .split('/')
-            .filter(|key| !key.is_empty())
-            .count();
-
         move |ctx: Context| {
             let mut dir_path = dir_path.clone();
+            // The path below the static route, wherever the route is mounted
             let mut relative_path = ctx
-                .uri()
-                .path()
+                .param::<String>("*")
+                .unwrap_or_default()
                 .split('/')
                 .filter(|key| !key.is_empty())
-                .skip(virtual_path_len)
                 .map(|x| x.to_string())
                 .collect::<Vec<String>>();
 
@@ -143,19 +135,6 @@ impl Router {
             })
         }
     }
-
-    async fn static_dir_file_handler(ctx: Context) -> ContextResult {
-        let relative_path = ctx
-            .uri()
-            .path()
-            .split('/')
-            .filter(|key| !key.is_empty())
-            .map(|x| x.to_string())
-            .collect::<Vec<String>>();
-
-        ctx.build(Response::ok().file(&relative_path.join("/")).await)
-            .ok()
-    }
 }
 
 #[cfg(test)]
diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index b9a4ab7..bd507e0 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -553,6 +553,11 @@ impl Node {
                         None => {}
                     }
 
+                    // Keep the part of the path matched by the wildcard
+                    let mut rest = vec![curr_key];
+                    rest.extend(key.iter());
+                    params.insert(node.key.to_string(), rest.join("/"));
+
                     return Some(node);
                 }
             }
@@ -574,14 +579,17 @@ impl Node {
                 }
             }
 
+            // The remaining keys are needed again by the next child if this one does not match
+            let mut next_key = key.clone();
+
             if count == node.key.len() && count != curr_key.len() {
                 // break key
                 break_key = true;
-                key.insert(0, &curr_key[count..]);
+                next_key.insert(0, &curr_key[count..]);
             }
 
             if count != 0 && count == node.key.len() {
-                if key.is_empty() {
+                if next_key.is_empty() {
                     match &node.value {
                         Some(curr_val) => {
                             curr_val.prepend_middlewares(middlewares);
@@ -591,6 +599,7 @@ impl Node {
                             for child in node.child_nodes.iter() {
                                 if child.key == "*" {
                                     if let Some(child_val) = &child.value {
+                                        params.insert(child.key.to_string(), String::default());
                                         child_val.prepend_middlewares(middlewares);
                                         return Some(child);
                                     }
@@ -601,7 +610,7 @@ impl Node {
                         }
                     }
                 } else if let Some(final_val) =
-                    node.get_next_node(key, params, middlewares, break_key)
+                    node.get_next_node(&mut next_key, params, middlewares, break_key)
                 {
                     // The node is not a path of its own when the segment goes on below it
                     if let (Some(curr_val), false) = (&node.value, break_key) {
-- 
2.43.0


From 2da0acda5b16658a3ab575f92a4a1b8505538ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 06/14] fix: do not serve files outside of the static directory

'..' segments in the request path reached any file of the server.
---
 src/router.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 5a55c6b..068a151 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,9 @@ mod route_trie;
 use self::route_trie::RouteTrie;
 use crate::context::Context;
 use crate::middleware::Middleware;
-use crate::Method;
+use crate::{Method, StatusCode};
+use std::path::{Component, Path};
+
 pub use hyper::header;
 
 pub use self::handler::{ContextResult, Handler};
@@ -127,9 +129,18 @@ impl Router {
                 .map(|x| x.to_string())
                 .collect::<Vec<String>>();
 
+            // Never leave the directory
+            let is_outside = Path::new(&relative_path.join("/"))
+                .components()
+                .any(|x| !matches!(x, Component::Normal(_) | Component::CurDir));
+
             dir_path.append(&mut relative_path);
 
             Box::pin(async move {
+                if is_outside {
+                    return ctx.build((StatusCode::NOT_FOUND, "404 Not Found")).ok();
+                }
+
                 ctx.build(Response::ok().file(&dir_path.join("/")).await)
                     .ok()
             })
-- 
2.43.0


From 476975266eb2e398211b0b6a19569b9f2da252d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:11 +0000
Subject: [PATCH 07/14] fix: serve files which are not valid UTF-8

---
 src/router/response.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 4c5ce92..9ed9278 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -130,8 +130,11 @@ impl Response {
     }
 
     pub async fn file(self, file_path: &str) -> Self {
-        match fs::read_to_string(file_path.to_string()).await {
-            Ok(content) => self.set_body(content),
+        match fs::read(file_path.to_string()).await {
+            Ok(content) => Response {
+                body: Body::from(content),
+                ..self
+            },
             Err(err) => {
                 dbg!(&err);
                 self.set_body(err.to_string())
-- 
2.43.0


From 483c63371874a924326a8281c6dab0629c140d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 08/14] fix: read the whole body in form() and json()

Only the first chunk of a body received in several chunks was decoded.
---
 src/context.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1166c71..4ac066a 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use http::Extensions;
-use hyper::{body, body::Buf};
+use hyper::body;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use url::form_urlencoded;
@@ -176,14 +176,15 @@ impl Context {
     pub async fn form<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        // Collect all of the chunks of the body
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Self::parse_queries(buf.chunk())
+        Self::parse_queries(&buf)
     }
 
     /// Form value merge with Params
@@ -241,14 +242,15 @@ impl Context {
     pub async fn json<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        // Collect all of the chunks of the body
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Ok(serde_json::from_slice(buf.chunk())?)
+        Ok(serde_json::from_slice(&buf)?)
     }
 
     /// Json value merged with Params
-- 
2.43.0


From 1d54ecd60282a0f252cb455a603d1ae117093f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:47 +0000
Subject: [PATCH 09/14] fix: do not panic in the logger when no response was
 built

---
 src/middleware/logger.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 5a7537d..662017a 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -5,6 +5,7 @@ use crate::app::EndpointExecutor;
 use crate::context::Context;
 use crate::middleware::Middleware;
 use crate::router::ContextResult;
+use crate::StatusCode;
 
 use colored::*;
 
@@ -33,11 +34,12 @@ impl Middleware for Logger {
         match ep_executor.next(context).await {
             Ok(context_after) => {
                 let duration = start.elapsed();
-                println!(
-                    "[info] Sent {} in {:?}",
-                    context_after.response().as_ref().unwrap().status(),
-                    duration
-                );
+                // Without response the server replies with an empty ok response
+                let status = match context_after.response() {
+                    Some(response) => response.status(),
+                    None => StatusCode::OK,
+                };
+                println!("[info] Sent {} in {:?}", status, duration);
                 Ok(context_after)
             }
             Err(error) => {
-- 
2.43.0


From 2421280bbffb4d3bc0ccd93b2e7edd80d5c2a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:59 +0000
Subject: [PATCH 10/14] fix: do not panic on empty value lists in from_cow_map

Empty lists and empty strings inside of lists of options indexed beyond
the values; the option also skipped the value after an empty one.
---
 src/router/req_deserializer.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index af23374..5c4b6d2 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -188,7 +188,7 @@ macro_rules! from_string_forms_impl {
             fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
                 where V: de::Visitor<'de>
             {
-                match self.input[0].parse::<$t>() {
+                match self.first()?.parse::<$t>() {
                     Ok(result) => result.into_deserializer().$method(visitor),
                     Err(e) => Err(Error::Message(format!("{}", e))),
                 }
@@ -205,6 +205,10 @@ impl<'de> FormValueDeserializer<'de> {
     pub fn new(input: &'de [std::string::String]) -> Self {
         FormValueDeserializer { input }
     }
+
+    fn first(&self) -> Result<&'de std::string::String, Error> {
+        self.input.first().ok_or(Error::NoneError)
+    }
 }
 
 impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
@@ -228,21 +232,21 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_string(self.input[0].clone())
+        visitor.visit_string(self.first()?.clone())
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_str(&self.input[0])
+        visitor.visit_str(self.first()?)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        match self.input[0].chars().next() {
+        match self.first()?.chars().next() {
             Some(val) => visitor.visit_char(val),
             _ => Err(Error::NoneError),
         }
@@ -252,8 +256,8 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
+        // The sequence access moves on to the next value
+        if self.input.is_empty() || self.input.starts_with(&[String::default()]) {
             visitor.visit_none()
         } else {
             visitor.visit_some(self)
@@ -264,10 +268,13 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
-        }
+        visitor.visit_unit()
+    }
 
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Error>
+    where
+        V: Visitor<'de>,
+    {
         visitor.visit_unit()
     }
 
@@ -306,7 +313,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     forward_to_deserialize_any! {
         bytes
         byte_buf
-        ignored_any
         map
         struct
         tuple_struct
@@ -346,7 +352,7 @@ impl<'de, 'a> SeqAccess<'de> for FromSeq<'a, 'de> {
     where
         T: DeserializeSeed<'de>,
     {
-        if self.de.input.len() == 1 && !self.first {
+        if self.de.input.is_empty() || (self.de.input.len() == 1 && !self.first) {
             return Ok(None);
         }
 
-- 
2.43.0


From fa6eb3149ab2f1444102fd2b5100e5389dd22717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:55 +0000
Subject: [PATCH 11/14] fix: decoding keys of self-describing form targets
 overflowed the stack

A target that accepts any kind of key (an untagged enum, serde's content
buffer) asked the map deserializer for a key of any type, which answered with
the whole map again, without end. Keys are now decoded from the key text.
---
 src/router/req_deserializer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index 5c4b6d2..256f2ed 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -391,7 +391,10 @@ impl<'de, 'a> MapAccess<'de> for FromMap<'a, 'de> {
         self.first = false;
 
         match self.de.input.peek() {
-            Some(_x) => seed.deserialize(&mut *self.de).map(Some),
+            // A key is always a plain string, even for types that accept any kind of key
+            Some(entry) => seed
+                .deserialize(entry.0.clone().into_deserializer())
+                .map(Some),
             _ => Ok(None),
         }
     }
-- 
2.43.0


From e3368a85e6286c3a7031051cad06d170cbac0503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 12/14] fix: a log line that cannot be written does not drop
 the request

---
 src/middleware/logger.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 662017a..2e73482 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -1,4 +1,5 @@
 use async_trait::async_trait;
+use std::io::{self, Write};
 use std::time::Instant;
 
 use crate::app::EndpointExecutor;
@@ -26,10 +27,12 @@ impl Middleware for Logger {
         ep_executor: EndpointExecutor<'a>,
     ) -> ContextResult {
         let start = Instant::now();
-        println!("[info] {} {}", context.method(), context.uri(),);
+        // Unlike println, a log that cannot be written never fails the request
+        let mut log = io::stdout();
+        let _ = writeln!(log, "[info] {} {}", context.method(), context.uri(),);
 
         #[cfg(debug_assertions)]
-        println!("{} {:#?}", "[debug]".cyan(), context);
+        let _ = writeln!(log, "{} {:#?}", "[debug]".cyan(), context);
 
         match ep_executor.next(context).await {
             Ok(context_after) => {
@@ -39,11 +42,11 @@ impl Middleware for Logger {
                     Some(response) => response.status(),
                     None => StatusCode::OK,
                 };
-                println!("[info] Sent {} in {:?}", status, duration);
+                let _ = writeln!(log, "[info] Sent {} in {:?}", status, duration);
                 Ok(context_after)
             }
             Err(error) => {
-                println!("{} {}", "[error]".red(), error);
+                let _ = writeln!(log, "{} {}", "[error]".red(), error);
                 Err(error)
             }
         }
-- 
2.43.0


From e79ac17babf4ab3f034e02b23b9758fec542924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 13/14] fix: a missing file is answered 404 also when standard
 error cannot be written

---
 src/router/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 9ed9278..5fa1f3e 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -1,5 +1,7 @@
 use super::ResponseBody;
 
+use std::io::{self, Write};
+
 use async_std::fs;
 use http::StatusCode;
 use hyper::{header, Body};
@@ -136,7 +138,8 @@ impl Response {
                 ..self
             },
             Err(err) => {
-                dbg!(&err);
+                // Unlike dbg, a message that cannot be written never fails the request
+                let _ = writeln!(io::stderr(), "{:#?}", &err);
                 self.set_body(err.to_string())
                     .set_status(StatusCode::NOT_FOUND)
             }
-- 
2.43.0


From d6ab1245fdfe71f4af2041ba48a9cf4cf3db8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 14/14] fix: a panic while cloning the state no longer ends the
 whole server

---
 src/app.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 2a8101a..89cae41 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -144,7 +144,8 @@ where
         let app_server: AppServer = AppServer {
             router: self.router,
         };
-        let app_state = self.app_state;
+        // Only requests clone the state itself, so that a panic while cloning stays within one
+        let app_state = Arc::new(self.app_state);
 
         let service = make_service_fn(move |_| {
             let server_clone = app_server.clone();
@@ -154,7 +155,7 @@ where
                 Ok::<_, hyper::Error>(service_fn(move |req| {
                     let route_value = server_clone.router.search_route(req.uri().path());
 
-                    AppServer::resolve_endpoint(req, route_value, app_state.clone())
+                    AppServer::resolve_endpoint(req, route_value, Option::clone(&app_state))
                 }))
             }
         });
-- 
2.43.0

