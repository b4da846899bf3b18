From 6a7e0e68e645b5fae852fe3d58966ac60db4fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 01/26] fix: don't report a node as a match when its variable
 sequence consumed the path

---
 src/handler/tree_router.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 6855d5d..1040919 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -168,6 +168,12 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
         while let Some((current, branch, snapshot)) = stack.pop() {
             environment.route_state.go_to(snapshot);
             if environment.route_state.is_empty() {
+                if branch != Static {
+                    // Every reached node has exactly one `Static` entry. A `Variable` or
+                    // `Wildcard` entry needs at least one more segment to lead anywhere.
+                    continue;
+                }
+
                 if !self.find_hyperlinks {
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
-- 
2.43.0


From 12b026b0ab0696d9c375a054d44fb33fd3fc864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 02/26] fix: keep searching the route tree after a matching
 node declined the request

---
 src/handler/tree_router.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 1040919..b01a4f9 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -164,6 +164,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
 
         let mut hyperlinks = vec![];
         let mut matches = vec![];
+        let mut declined = false;
 
         while let Some((current, branch, snapshot)) = stack.pop() {
             environment.route_state.go_to(snapshot);
@@ -178,7 +179,8 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
                         environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
-                        return Err(environment);
+                        declined = true;
+                        continue;
                     } else {
                         return Ok(());
                     }
@@ -270,7 +272,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             }
         }
 
-        if matches.is_empty() {
+        if matches.is_empty() && !declined {
             environment.response.set_status(StatusCode::NotFound);
         } else if self.find_hyperlinks {
             hyperlinks.sort();
-- 
2.43.0


From e92363082c5e4513a3d0213c934784ca305cabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:04 +0000
Subject: [PATCH 03/26] fix: don't let a declining handler's status leak into
 the handler that accepts the request

---
 src/handler/tree_router.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index b01a4f9..7c34376 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -160,6 +160,7 @@ impl<T: FromHandler<H> + ApplyContext, D: AsRef<[u8]>, H> FromIterator<(Method,
 impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
         let now = environment.route_state.snapshot();
+        let status = environment.response.status();
         let mut stack = vec![(self, Wildcard, now), (self, Variable, now), (self, Static, now)];
 
         let mut hyperlinks = vec![];
@@ -176,6 +177,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                 }
 
                 if !self.find_hyperlinks {
+                    environment.response.set_status(status);
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
                         environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
@@ -281,6 +283,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
 
             for (handler, snapshot) in matches {
                 new_environment.route_state = snapshot;
+                new_environment.response.set_status(status);
                 if let Err(returned_environment) = handler.handle_request(new_environment) {
                     new_environment = returned_environment;
                 } else {
-- 
2.43.0


From d3f26123245ac577019e4c43dbf154736b92ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 04/26] fix: don't panic on empty segments when building routes

---
 src/handler/tree_router.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 7c34376..b7f6026 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -462,7 +462,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -511,7 +511,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -605,7 +605,7 @@ impl<'a, T> Builder<'a, T> {
             panic!("expected at most a single label, but got a longer path");
         }
 
-        if label[0] == b':' || label[0] == b'*' {
+        if label.starts_with(b":") || label.starts_with(b"*") {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-- 
2.43.0


From 0d22132f38163249e469591fdf1a522721f705a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:23 +0000
Subject: [PATCH 05/26] fix: don't drop the handler when on_route is called for
 an existing node

---
 src/handler/tree_router.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index b7f6026..eefce6a 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -594,11 +594,7 @@ impl<'a, T> Builder<'a, T> {
         let label = if let Some(label) = label_iter.next() {
             label
         } else {
-            return Builder {
-                node: self.node,
-                variables: self.variables.clone(),
-                context: self.context.clone()
-            };
+            return self.handler(handler);
         };
 
         if label_iter.next().is_some() {
@@ -609,11 +605,15 @@ impl<'a, T> Builder<'a, T> {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-        let node = self.node.find_or_insert_router(label, || {
-            let mut new_context = context.clone().into_owned();
-            new_context.insert(VariableNames(variables.clone().into_owned()));
-            T::from_handler(new_context, handler)
-        });
+        let mut new_context = context.clone().into_owned();
+        new_context.insert(VariableNames(variables.clone().into_owned()));
+        let mut item = Some(T::from_handler(new_context, handler));
+
+        let node = self.node.find_or_insert_router(label, || item.take().expect("handler used twice"));
+        if let Some(item) = item {
+            // the node did already exist
+            node.item = item;
+        }
 
         Builder {
             node: node,
-- 
2.43.0


From 3bbdc5318014c09a155a674c4d7be2be97450561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 06/26] fix: don't reverse the order when a plain string is
 compared with a MaybeUtf8

---
 src/context/maybe_utf8.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/context/maybe_utf8.rs b/src/context/maybe_utf8.rs
index 3b387b5..049de8b 100644
--- a/src/context/maybe_utf8.rs
+++ b/src/context/maybe_utf8.rs
@@ -313,7 +313,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -322,7 +322,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -331,7 +331,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for String where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -340,7 +340,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for Cow<'a, str> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self.as_ref())
+        other.partial_cmp(self.as_ref()).map(Ordering::reverse)
     }
 }
 
@@ -349,7 +349,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -358,7 +358,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -367,7 +367,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for Vec<u8> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
-- 
2.43.0


From 78190067605a5103f729e1517786452bc1d9dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 07/26] fix: report an error when a response filter aborts in
 end

---
 src/response.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 4656a17..56e9f0c 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1200,23 +1200,24 @@ fn filter_content<'a, 'd: 'a, Content: Into<Data<'d>>>(filters: &'a [Box<Respons
 }
 
 fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_storage: &mut AnyMap) -> Result<Vec<Action<'a>>, Error> {
-    let otuputs: Vec<_> = filters.into_iter()
-        .rev()
-        .map(|filter| {
-            let filter_context = FilterContext {
-                storage: filter_storage,
-                global: global,
-            };
-
-            filter.end(filter_context)
-        })
-        .take_while(|a| if let Action::Next(_) = *a { true } else { false })
-        .map(Some)
-        .collect();
+    let mut outputs = vec![];
+
+    for filter in filters.into_iter().rev() {
+        let filter_context = FilterContext {
+            storage: filter_storage,
+            global: global,
+        };
+
+        match filter.end(filter_context) {
+            Action::Next(content) => outputs.push(Some(Action::Next(content))),
+            Action::SilentAbort => break,
+            Action::Abort(e) => return Err(Error::Filter(e))
+        }
+    }
 
     let mut write_queue = vec![];
 
-    for (filter, action) in filters.into_iter().zip(otuputs.into_iter().chain(::std::iter::repeat(None))) {
+    for (filter, action) in filters.into_iter().zip(outputs.into_iter().chain(::std::iter::repeat(None))) {
         let mut error = None;
 
         write_queue = write_queue.into_iter().filter_map(|action| match action {
-- 
2.43.0


From 6c1628d3a63d1a68ec9d03080b96cd21625db1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 08/26] fix: pass the end output of a response filter through
 the filters that come after it

---
 src/response.rs | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 56e9f0c..9506bc0 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1209,7 +1209,7 @@ fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_st
         };
 
         match filter.end(filter_context) {
-            Action::Next(content) => outputs.push(Some(Action::Next(content))),
+            Action::Next(content) => outputs.push(Action::Next(content)),
             Action::SilentAbort => break,
             Action::Abort(e) => return Err(Error::Filter(e))
         }
@@ -1217,31 +1217,26 @@ fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_st
 
     let mut write_queue = vec![];
 
-    for (filter, action) in filters.into_iter().zip(outputs.into_iter().chain(::std::iter::repeat(None))) {
-        let mut error = None;
+    for (index, output) in outputs.into_iter().enumerate() {
+        let mut result = Some(output);
 
-        write_queue = write_queue.into_iter().filter_map(|action| match action {
-            Action::Next(content) => {
-                let filter_context = FilterContext {
-                    storage: filter_storage,
-                    global: global,
-                };
-                Some(filter.write(filter_context, content))
-            },
-            Action::SilentAbort => None,
-            Action::Abort(e) => {
-                error = Some(e);
-                None
-            }
-        }).collect();
-
-        if let Some(e) = error {
-            return Err(Error::Filter(e))
+        // The outputs are in reverse filter order, so this is every filter
+        // after the one that produced the output.
+        for filter in &filters[filters.len() - index..] {
+            result = match result {
+                Some(Action::Next(content)) => {
+                    let filter_context = FilterContext {
+                        storage: filter_storage,
+                        global: global,
+                    };
+                    Some(filter.write(filter_context, content))
+                },
+                Some(Action::Abort(e)) => return Err(Error::Filter(e)),
+                Some(Action::SilentAbort) | None => None
+            };
         }
 
-        if let Some(action) = action {
-            write_queue.push(action);
-        }
+        write_queue.extend(result);
     }
 
     Ok(write_queue)
-- 
2.43.0


From 328250221a1e052668ed8bd28ff422fd2b5bc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 09/26] fix: don't panic when a response filter silently aborts
 a chunk

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 9506bc0..b4ac507 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -939,7 +939,7 @@ impl<'a, 'b> Chunked<'a, 'b> {
             Some(Err(e)) => Err(Error::Io(e)),
             None => match filter_result {
                 Action::Abort(e) => Err(Error::Filter(e)),
-                Action::Next(None) => Ok(0),
+                Action::Next(None) | Action::SilentAbort => Ok(0),
                 _ => unreachable!()
             }
         }
-- 
2.43.0


From 61f6cea816b8fd4952b1b111d6d4da66d4cb2ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 10/26] fix: report the number of consumed bytes from
 Chunked::write, not the filtered length

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index b4ac507..baa57a1 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -983,7 +983,7 @@ impl<'a, 'b> Chunked<'a, 'b> {
 
 impl<'a, 'b> Write for Chunked<'a, 'b> {
     fn write(&mut self, content: &[u8]) -> io::Result<usize> {
-        response_to_io_result(self.try_send(content))
+        response_to_io_result(self.try_send(content)).map(|_| content.len())
     }
 
     fn write_all(&mut self, content: &[u8]) -> io::Result<()> {
-- 
2.43.0


From 5eb31aef0e69d5dd679a00c081c079efc17eb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 11/26] fix: don't panic when a chunked response is ended after
 its error was reported

---
 src/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index baa57a1..442ce57 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -954,7 +954,10 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        let mut writer = try!(self.writer.take().expect("can only finish once"));
+        let mut writer = match self.writer.take() {
+            Some(writer) => try!(writer),
+            None => return Err(Error::Io(io::Error::new(io::ErrorKind::BrokenPipe, "finish after close")))
+        };
         let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
 
         for action in write_queue {
-- 
2.43.0


From ea3c5b003797e9c64ad9a115afc70db8067d8db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 12/26] fix: split off the fragment before looking for the
 query in a request path

---
 src/server/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 327f455..faffadb 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -238,9 +238,11 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
 }
 
 fn parse_path(path: &str) -> ParsedUri {
+    let (path, fragment) = parse_fragment(path);
+
     match path.find('?') {
         Some(index) => {
-            let (query, fragment) = parse_fragment(&path[index+1..]);
+            let query = &path[index+1..];
 
             let mut path: Vec<_> = percent_decode(path[..index].as_bytes()).collect();
             if path.is_empty() {
@@ -255,8 +257,6 @@ fn parse_path(path: &str) -> ParsedUri {
             }
         },
         None => {
-            let (path, fragment) = parse_fragment(&path);
-
             let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
             if path.is_empty() {
                 path.push(b'/');
-- 
2.43.0


From 1fd57e05b1009250eff5370f7ad7bc8ccda50c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 13/26] fix: map video file extensions to video MIME types

---
 build/mime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/mime.rs b/build/mime.rs
index 0f9b1fb..e48cdb0 100644
--- a/build/mime.rs
+++ b/build/mime.rs
@@ -37,7 +37,7 @@ pub fn gen() {
             "text" => "MaybeKnown::Known(::mime::TopLevel::Text)".into(),
             "image" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
             "audio" => "MaybeKnown::Known(::mime::TopLevel::Audio)".into(),
-            "video" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
+            "video" => "MaybeKnown::Known(::mime::TopLevel::Video)".into(),
             "application" => "MaybeKnown::Known(::mime::TopLevel::Application)".into(),
             "multipart" => "MaybeKnown::Known(::mime::TopLevel::Multipart)".into(),
             "message" => "MaybeKnown::Known(::mime::TopLevel::Message)".into(),
-- 
2.43.0


From 8a78723631731e527ee035b901acc4d802a17e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 14/26] fix: parse the query of an absolute URI in the same way
 as any other query

---
 src/server/instance.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index faffadb..0b8b721 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -283,9 +283,10 @@ fn parse_url(url: &Url) -> ParsedUri {
     let mut path = vec![];
     path.extend(percent_decode(url.path().as_bytes()));
 
-    let query = url.query_pairs()
-        .map(|(k, v)| (k.into_owned(), v.into_owned()))
-        .collect();
+    let query = match url.query() {
+        Some(query) => utils::parse_parameters(query.as_bytes()),
+        None => Parameters::new()
+    };
 
     let host = url.host_str().map(|host| (host.into(), url.port()));
 
-- 
2.43.0


From dd964a169ca3764be9b111cdbb8d0b9b2c9dfc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 15/26] fix: leave the route position as it was when a
 TreeRouter declines a request

---
 src/handler/tree_router.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index eefce6a..012e3e7 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -294,6 +294,8 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             environment = new_environment.replace_hyperlinks(old_hyperlinks).0;
         }
 
+        // A router that tries something else after this one has to start from the same place.
+        environment.route_state.go_to(now);
 
         Err(environment)
     }
-- 
2.43.0


From 3c949d9b690d9f325dc72ae4373071d53b188612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 16/26] fix: keep the variables of a declined request out of
 the returned environment

---
 src/handler/variables.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/handler/variables.rs b/src/handler/variables.rs
index 690acdc..9ce4383 100644
--- a/src/handler/variables.rs
+++ b/src/handler/variables.rs
@@ -61,8 +61,12 @@ impl<'a, H: Build<'a>> Build<'a> for Variables<H> {
 
 impl<H: HandleRequest> HandleRequest for Variables<H> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
-        environment.context.variables = environment.route_state.variables(&self.variables).into();
-        self.handler.handle_request(environment)
+        let variables = environment.route_state.variables(&self.variables).into();
+        let old_variables = ::std::mem::replace(&mut environment.context.variables, variables);
+        self.handler.handle_request(environment).map_err(|mut environment| {
+            environment.context.variables = old_variables;
+            environment
+        })
     }
 
     fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
-- 
2.43.0


From a704f99a74b98a2d6b7f5feb55fd36d4ee11b68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 17/26] fix: variables of abandoned route positions are not
 reported

---
 src/handler/routing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handler/routing.rs b/src/handler/routing.rs
index f87b800..637488c 100644
--- a/src/handler/routing.rs
+++ b/src/handler/routing.rs
@@ -153,7 +153,7 @@ impl<'a> RouteState<'a> {
 
     ///Assign names to the saved variables and return them.
     pub fn variables(&self, names: &[MaybeUtf8Owned]) -> HashMap<MaybeUtf8Owned, MaybeUtf8Owned> {
-        let values = self.route.iter().zip(self.variables.iter()).filter_map(|(v, keep)| {
+        let values = self.route.iter().zip(self.variables.iter()).take(self.index).filter_map(|(v, keep)| {
             if let Some(index) = *keep {
                 Some((index, *v))
             } else {
-- 
2.43.0


From 06b72ef905e807dc6b42c03ea3fe681a7b603017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:40 +0000
Subject: [PATCH 18/26] fix: a large free_threads overflowed the keep-alive
 check

---
 src/server/instance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 0b8b721..1d8424c 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -146,7 +146,7 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
         ) = request.deconstruct();
 
         let force_close = if let Some(ref keep_alive) = self.keep_alive {
-            self.threads_in_use.load(Ordering::SeqCst) + keep_alive.free_threads > self.threads
+            self.threads_in_use.load(Ordering::SeqCst).saturating_add(keep_alive.free_threads) > self.threads
         } else {
             false
         };
-- 
2.43.0


From 3100723d2559f0589941f55b04f7f4193eba5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 19/26] fix: a silent abort by the last filter dropped what the
 other filters emit

---
 src/response.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 442ce57..185afd5 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -669,9 +669,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
@@ -686,9 +685,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
@@ -793,9 +791,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => try!(writer.write_all(content.as_bytes())),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
-- 
2.43.0


From 8880d3aa640eda31c51189b0af78c6e064d7d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 20/26] fix: responses aborted by a response filter didn't
 close the connection

---
 src/response.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 185afd5..f971725 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -655,16 +655,17 @@ impl<'a, 'b> Response<'a, 'b> {
         } else {
             let mut buffer = vec![];
 
-            let (status, write_queue) = try!(filter_headers(
+            let filter_result = filter_headers(
                 self.filters,
                 writer.status(),
                 writer.headers_mut(),
                 self.global,
                 &mut filter_storage
-            ));
+            );
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
+            let (status, write_queue) = try!(filter_result);
             *writer.status_mut() = status;
             for action in write_queue {
                 match action {
@@ -775,16 +776,17 @@ impl<'a, 'b> Response<'a, 'b> {
         writer.headers_mut().remove::<::header::ContentLength>();
         writer.headers_mut().remove_raw("content-length");
 
-        let writer = filter_headers(
+        let filter_result = filter_headers(
             self.filters,
             writer.status(),
             writer.headers_mut(),
             self.global,
             self.filter_storage_mut()
-        ).and_then(|(status, write_queue)|{
-            if self.force_close {
-                writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
-            }
+        );
+        if self.force_close {
+            writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+        }
+        let writer = filter_result.and_then(|(status, write_queue)|{
             *writer.status_mut() = status;
             let mut writer = try!(writer.start());
 
-- 
2.43.0


From 35802a1e2cef45b25bc2db690a6f6a5dff6558eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 21/26] fix: responses aborted by a response filter could
 promise a body

---
 src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index f971725..47e9b4d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -665,6 +665,8 @@ impl<'a, 'b> Response<'a, 'b> {
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
+            //Sending the body sets the length, and there is no body if a filter aborts
+            writer.headers_mut().remove_raw("content-length");
             let (status, write_queue) = try!(filter_result);
             *writer.status_mut() = status;
             for action in write_queue {
-- 
2.43.0


From 28e4f8440c13ea7f0072a1934a254c647d776bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 22/26] fix: a directory was sent as a file, with a length but
 without a body

---
 src/response.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 47e9b4d..b28ce3e 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -38,7 +38,7 @@ use std::borrow::Cow;
 use std::convert::From;
 use std::str::{from_utf8, Utf8Error};
 use std::string::{FromUtf8Error};
-use std::fs::File;
+use std::fs::{File, Metadata};
 use std::path::{Path, PathBuf};
 use std::fmt;
 
@@ -344,7 +344,7 @@ impl<'d, 'a, 'b> SendResponse<'a, 'b> for &'d Path {
             .and_then(|ext| ::file::ext_to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(self) {
+        let file = match open_file(self) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, response))
         };
@@ -366,7 +366,7 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
     type Error = FileError<'a, 'b>;
 
     fn send_response(mut self, response: Response<'a, 'b>) -> Result<(), FileError<'a, 'b>> {
-        let metadata = match self.metadata() {
+        let metadata = match file_metadata(&self) {
             Ok(metadata) => metadata,
             Err(e) => return Err(FileError::Open(e, response)),
         };
@@ -376,6 +376,22 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
     }
 }
 
+//Directories can be opened, but there is nothing in them to send.
+fn open_file(path: &Path) -> io::Result<File> {
+    let file = try!(File::open(path));
+    try!(file_metadata(&file));
+    Ok(file)
+}
+
+fn file_metadata(file: &File) -> io::Result<Metadata> {
+    let metadata = try!(file.metadata());
+    if metadata.is_dir() {
+        Err(io::Error::new(io::ErrorKind::Other, "is a directory"))
+    } else {
+        Ok(metadata)
+    }
+}
+
 ///Helper trait for dealing with errors that may occur while sending a
 ///response. It provides a default method of handling the error.
 pub trait ResponseError {
@@ -760,7 +776,7 @@ impl<'a, 'b> Response<'a, 'b> {
             .and_then(|ext| to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(path) {
+        let file = match open_file(path) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, self))
         };
-- 
2.43.0


From b933105a7b8d9fdbdeb6f28c4ade21cb8d2178b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 23/26] fix: writing to a mock response failed

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index b28ce3e..d91c40b 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -481,7 +481,7 @@ impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::S
         if let MaybeMock::Actual(ref mut response) = *self {
             response.write(buffer)
         } else {
-            Ok(0)
+            Ok(buffer.len())
         }
     }
 
-- 
2.43.0


From fa47a4092180b3a7effafaadb91008e4871cf5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 24/26] fix: Forward the description of handlers in Arc and Box

---
 src/handler/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handler/mod.rs b/src/handler/mod.rs
index f8bf982..96217c6 100644
--- a/src/handler/mod.rs
+++ b/src/handler/mod.rs
@@ -180,12 +180,20 @@ impl<T: Handler> Handler for Arc<T> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 impl Handler for Box<Handler> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 ///A request environment, containing the context, response and route state.
-- 
2.43.0


From 176ad1d7f90058246e332721e23f92318633c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 25/26] fix: Let contexts without variable names reach the
 items of a TreeRouter

---
 src/handler/tree_router.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 012e3e7..3584cba 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -368,6 +368,8 @@ impl<T: ApplyContext> ApplyContext for TreeRouter<T> {
             self.item.apply_context(context.clone());
 
             context.insert(VariableNames(variables));
+        } else {
+            self.item.apply_context(context.clone());
         }
 
 
-- 
2.43.0


From 89574793c0470b8a3013c1099f5435e6229e228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:44 +0000
Subject: [PATCH 26/26] fix: offer a multipart reader for every boundary, also
 'utf-8'

---
 src/context/body.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 0fc8b7c..cd97188 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -26,17 +26,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     ///Internal and may change without warning.
     pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers) -> BodyReader<'a, 'b> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref val)| val.as_str().to_owned())
             },
             _ => None
         };
@@ -60,17 +56,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[cfg(feature = "multipart")]
     pub fn mock(headers: &'b Headers) -> BodyReader<'static, 'static> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref val)| val.as_str().to_owned())
             },
             _ => None
         };
-- 
2.43.0

