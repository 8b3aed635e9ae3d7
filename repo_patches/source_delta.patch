From 8ddfc3d5f7d53485cb728d1d3bbeaea31edb4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 01/32] fix: a close on any Connection line ends HTTP/1
 keep-alive

The keep-alive decision was re-evaluated per line with a branch on its
current value, so 'Connection: close' followed by a second line with
'keep-alive' turned persistence back on.
---
 src/proto/h1/role.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 29bcd44..a4d8966 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -240,6 +240,7 @@ impl Http1Transaction for Server {
         let mut is_cl = false;
         let mut is_te = false;
         let mut is_te_chunked = false;
+        let mut is_close = false;
         let mut wants_upgrade = subject.0 == Method::CONNECT;
 
         let mut header_case_map = if ctx.preserve_header_case {
@@ -309,10 +310,10 @@ impl Http1Transaction for Server {
                 }
                 header::CONNECTION => {
                     // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
+                    if headers::connection_close(&value) {
+                        // `close` wins, no matter what any other line says
+                        is_close = true;
+                    } else if !keep_alive {
                         // HTTP/1.0
                         keep_alive = headers::connection_keep_alive(&value);
                     }
@@ -348,7 +349,7 @@ impl Http1Transaction for Server {
             return Err(Parse::transfer_encoding_invalid());
         }
 
-        if is_te && is_cl {
+        if is_close || (is_te && is_cl) {
             keep_alive = false;
         }
 
@@ -1101,6 +1102,7 @@ impl Http1Transaction for Client {
             let mut headers = ctx.cached_headers.take().unwrap_or_default();
 
             let mut keep_alive = version == Version::HTTP_11;
+            let mut is_close = false;
 
             let mut header_case_map = if ctx.preserve_header_case {
                 Some(HeaderCaseMap::default())
@@ -1124,10 +1126,10 @@ impl Http1Transaction for Client {
 
                 if let header::CONNECTION = name {
                     // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
+                    if headers::connection_close(&value) {
+                        // `close` wins, no matter what any other line says
+                        is_close = true;
+                    } else if !keep_alive {
                         // HTTP/1.0
                         keep_alive = headers::connection_keep_alive(&value);
                     }
@@ -1145,6 +1147,10 @@ impl Http1Transaction for Client {
                 headers.append(name, value);
             }
 
+            if is_close {
+                keep_alive = false;
+            }
+
             let mut extensions = http::Extensions::default();
 
             if let Some(header_case_map) = header_case_map {
-- 
2.43.0


From 81cad78c77c00e15ecca15bef4322335f8594fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:08 +0000
Subject: [PATCH 02/32] fix: refuse chunked trailer sections broken by a bare
 LF

A bare LF made the trailer parser stop early, silently discarding the
rest of the section (up to and including what a peer considers the next
message).
---
 src/proto/h1/decode.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/decode.rs b/src/proto/h1/decode.rs
index bdfdf79..406da3e 100644
--- a/src/proto/h1/decode.rs
+++ b/src/proto/h1/decode.rs
@@ -641,7 +641,15 @@ fn decode_trailers(buf: &mut BytesMut, count: usize) -> Result<HeaderMap, io::Er
     let mut headers = vec![httparse::EMPTY_HEADER; count];
     let res = httparse::parse_headers(buf, &mut headers);
     match res {
-        Ok(httparse::Status::Complete((_, headers))) => {
+        Ok(httparse::Status::Complete((len, headers))) => {
+            if len != buf.len() {
+                // a bare LF ended the section before its real end
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "invalid line ending in trailers",
+                ));
+            }
+
             for header in headers {
                 use std::convert::TryFrom;
                 let name = match HeaderName::try_from(header.name) {
-- 
2.43.0


From d67fa083ee2cd99b33588d90b0040034a2b355b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 03/32] fix: ignore empty list elements after a final chunked
 coding

'Transfer-Encoding: chunked,' is chunked (RFC 9110 5.6.1). The client took
such a response for one delimited by the end of the connection and handed
the chunked framing to the user as body bytes.
---
 src/headers.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index caace71..e6e1b1b 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -146,21 +146,22 @@ pub(super) fn transfer_encoding_is_chunked(headers: &HeaderMap) -> bool {
 }
 
 #[cfg(all(feature = "client", feature = "http1"))]
-pub(super) fn is_chunked(mut encodings: ValueIter<'_, HeaderValue>) -> bool {
+pub(super) fn is_chunked(encodings: ValueIter<'_, HeaderValue>) -> bool {
     // chunked must always be the last encoding, according to spec
-    if let Some(line) = encodings.next_back() {
-        return is_chunked_(line);
-    }
-
-    false
+    // (lines with only empty list elements are to be ignored)
+    encodings
+        .rev()
+        .find(|line| line.as_bytes().iter().any(|b| !b", \t".contains(b)))
+        .map_or(false, is_chunked_)
 }
 
 #[cfg(feature = "http1")]
 pub(super) fn is_chunked_(value: &HeaderValue) -> bool {
     // chunked must always be the last encoding, according to spec
+    // (empty list elements are to be ignored)
     if let Ok(s) = value.to_str() {
-        if let Some(encoding) = s.rsplit(',').next() {
-            return encoding.trim().eq_ignore_ascii_case("chunked");
+        if let Some(encoding) = s.rsplit(',').map(str::trim).find(|e| !e.is_empty()) {
+            return encoding.eq_ignore_ascii_case("chunked");
         }
     }
 
-- 
2.43.0


From 880010ed1f82b6b4c0de9c2bb2192e47f3313fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 04/32] fix: append chunked to the Transfer-Encoding line only

---
 src/proto/h1/role.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index a4d8966..252ad69 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -701,6 +701,7 @@ impl Server {
                 cur_name = Some(n);
                 handle_is_name_written!();
                 is_name_written = false;
+                must_write_chunked = false;
             }
             let name = cur_name.as_ref().expect("current header name");
             match *name {
-- 
2.43.0


From 3d05579079873fb14ae1d11df093e9084e373f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 05/32] fix: encode a client request of version HTTP/2 like the
 HTTP/1.1 it is sent as

---
 src/proto/h1/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 252ad69..933ea16 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1338,7 +1338,7 @@ impl Client {
         };
 
         // HTTP/1.0 doesn't know about chunked
-        let can_chunked = head.version == Version::HTTP_11;
+        let can_chunked = head.version != Version::HTTP_10;
         let headers = &mut head.headers;
 
         // If the user already set specific headers, we should respect them, regardless
-- 
2.43.0


From e0f386cb8dd20a08c39606a6edba466c129dba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 06/32] fix: never send a Content-Length next to a request's
 Transfer-Encoding

---
 src/proto/h1/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 933ea16..9776b18 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1444,7 +1444,7 @@ impl Client {
         // This is because we need a second mutable borrow to remove
         // content-length header.
         if let Some(encoder) = encoder {
-            if should_remove_con_len && existing_con_len.is_some() {
+            if should_remove_con_len {
                 headers.remove(header::CONTENT_LENGTH);
             }
             return encoder;
-- 
2.43.0


From 4245bef177b5bc0caeb3fd714ac95992e3f4c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 07/32] fix: resolve the upgrade future when a server response
 declines the upgrade

---
 src/proto/h1/conn.rs | 5 +++++
 src/proto/h1/mod.rs  | 5 +++++
 src/proto/h1/role.rs | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 19c1283..d61d127 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -627,6 +627,11 @@ where
 
         self.enforce_version(&mut head);
 
+        if T::declines_upgrade(self.state.method.as_ref(), &head.subject) {
+            // Dropping the other half resolves the user's upgrade future.
+            self.state.upgrade = None;
+        }
+
         let buf = self.io.headers_buf();
         match super::role::encode_headers::<T>(
             Encode {
diff --git a/src/proto/h1/mod.rs b/src/proto/h1/mod.rs
index 0a442c4..73623ee 100644
--- a/src/proto/h1/mod.rs
+++ b/src/proto/h1/mod.rs
@@ -54,6 +54,11 @@ pub(crate) trait Http1Transaction {
     }
 
     fn update_date() {}
+
+    /// Whether writing this head means that no upgrade the other side asked for will happen.
+    fn declines_upgrade(_req_method: Option<&Method>, _subject: &Self::Outgoing) -> bool {
+        false
+    }
 }
 
 /// Result newtype for `Http1Transaction::parse`.
diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 9776b18..2d537f9 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -509,6 +509,11 @@ impl Http1Transaction for Server {
     fn update_date() {
         date::update();
     }
+
+    fn declines_upgrade(req_method: Option<&Method>, status: &StatusCode) -> bool {
+        *status != StatusCode::SWITCHING_PROTOCOLS
+            && !(req_method == Some(&Method::CONNECT) && status.is_success())
+    }
 }
 
 #[cfg(feature = "server")]
-- 
2.43.0


From c71b6c3845d8c8ff207ef980107597af68aa535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 08/32] fix: close a finished body as soon as its last frame is
 read

---
 src/proto/h1/dispatch.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index f250f55..e973d63 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -250,7 +250,12 @@ where
                                 let chunk = frame.into_data().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_data(chunk) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        // At the end of the body, drop the sender
+                                        // right away: the next turn of this loop
+                                        // may already be reading the next head.
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
@@ -264,7 +269,9 @@ where
                                     frame.into_trailers().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_trailers(trailers) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
-- 
2.43.0


From 6bf9a6f9f4c01ea07ea133cbd8fdd7e391cae536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 09/32] fix: abort a client request whose empty body is short
 of its Content-Length

---
 src/proto/h1/role.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 2d537f9..5a71c07 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1339,7 +1339,9 @@ impl Client {
             body
         } else {
             head.headers.remove(header::TRANSFER_ENCODING);
-            return Encoder::length(0);
+            // An empty body does not keep the promise of a user's Content-Length:
+            // the encoder has to notice, as for any other body that is too short.
+            return Encoder::length(headers::content_length_parse_all(&head.headers).unwrap_or(0));
         };
 
         // HTTP/1.0 doesn't know about chunked
-- 
2.43.0


From 53d00de55572f6059fb3b26b6b2d54d035c1564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 10/32] fix: respect every Connection line when answering an
 HTTP/1.0 peer

---
 src/proto/h1/conn.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index d61d127..01377df 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -669,10 +669,17 @@ where
 
     // Fix keep-alive when Connection: keep-alive header is not present
     fn fix_keep_alive(&mut self, head: &mut MessageHead<T::Outgoing>) {
+        if headers::connection_any_close(&head.headers) {
+            // The user wants to close: do not promise otherwise.
+            self.state.disable_keep_alive();
+            return;
+        }
+
         let outgoing_is_keep_alive = head
             .headers
-            .get(CONNECTION)
-            .map_or(false, headers::connection_keep_alive);
+            .get_all(CONNECTION)
+            .iter()
+            .any(headers::connection_keep_alive);
 
         if !outgoing_is_keep_alive {
             match head.version {
@@ -684,11 +691,15 @@ where
                 Version::HTTP_11 => {
                     if self.state.wants_keep_alive() {
                         head.headers
-                            .insert(CONNECTION, HeaderValue::from_static("keep-alive"));
+                            .append(CONNECTION, HeaderValue::from_static("keep-alive"));
                     }
                 }
                 _ => (),
             }
+        } else if !self.state.wants_keep_alive() {
+            // The user's keep-alive cannot be kept.
+            head.headers
+                .insert(CONNECTION, HeaderValue::from_static("close"));
         }
     }
 
-- 
2.43.0


From 5c11833938bc57053b299dea2c7f0be23b2a3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:52 +0000
Subject: [PATCH 11/32] fix: an HTTP/1.0 message without keep-alive ends the
 connection

---
 src/proto/h1/conn.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 01377df..5acac0c 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -718,6 +718,10 @@ where
                 if let KA::Disabled = self.state.keep_alive.status() {
                     head.headers
                         .insert(CONNECTION, HeaderValue::from_static("close"));
+                } else if head.version == Version::HTTP_10 {
+                    // An HTTP/1.0 message of ours ends the connection unless
+                    // it says otherwise.
+                    self.fix_keep_alive(head);
                 }
             }
             _ => (),
-- 
2.43.0


From 5d892887ccac46856e9af1df22b4195f84c37b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:03 +0000
Subject: [PATCH 12/32] fix: pipeline_flush never withholds or loses a response
 once no more can be answered

---
 src/proto/h1/conn.rs     |  9 +++++++++
 src/proto/h1/dispatch.rs | 16 ++++++++++++++--
 src/proto/h1/io.rs       | 21 +++++++++++++++++----
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 5acac0c..a8021b1 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -593,6 +593,15 @@ where
         self.io.has_buffered_write()
     }
 
+    /// Flushes what `poll_flush` left to be flushed together with later responses.
+    pub(crate) fn poll_flush_deferred(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        if self.io.is_flush_deferred() {
+            self.io.poll_flush_now(cx)
+        } else {
+            Poll::Ready(Ok(()))
+        }
+    }
+
     pub(crate) fn write_head(&mut self, head: MessageHead<T::Outgoing>, body: Option<BodyLength>) {
         if let Some(encoder) = self.encode_head(head, body) {
             self.state.writing = if !encoder.is_eof() {
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index e973d63..b84db78 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -193,7 +193,7 @@ where
             // If we cannot write or read again, we yield and rely on the
             // wake-up from the connection futures.
             if !(wants_write_again || wants_read_again) {
-                return Poll::Ready(Ok(()));
+                return Poll::Ready(self.flush_deferred(cx));
             }
 
             // If we are continuing only because "wants_write_again", re-check whether a second
@@ -214,7 +214,7 @@ where
                     if self.conn.has_buffered_write() {
                         let _ = self.poll_flush(cx)?;
                     }
-                    return Poll::Ready(Ok(()));
+                    return Poll::Ready(self.flush_deferred(cx));
                 }
             }
         }
@@ -461,6 +461,18 @@ where
         })
     }
 
+    /// Nothing more can be answered for now: stop waiting for responses to be
+    /// flushed together.
+    fn flush_deferred(&mut self, cx: &mut Context<'_>) -> crate::Result<()> {
+        match self.conn.poll_flush_deferred(cx) {
+            Poll::Ready(Err(err)) => {
+                debug!("error writing: {}", err);
+                Err(crate::Error::new_body_write(err))
+            }
+            Poll::Ready(Ok(())) | Poll::Pending => Ok(()),
+        }
+    }
+
     fn close(&mut self) {
         self.is_closing = true;
         self.conn.close_read();
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 6b3f10f..d7742e9 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -155,7 +155,7 @@ where
     }
 
     pub(crate) fn can_buffer(&self) -> bool {
-        self.flush_pipeline || self.write_buf.can_buffer()
+        self.write_buf.can_buffer()
     }
 
     pub(crate) fn consume_leading_lines(&mut self) {
@@ -269,9 +269,22 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        if self.flush_pipeline && !self.read_buf.is_empty() {
+        if self.flush_pipeline && !self.read_buf.is_empty() && self.write_buf.can_buffer() {
+            // Answer the requests that are already buffered first, and flush
+            // the responses together.
             Poll::Ready(Ok(()))
-        } else if self.write_buf.remaining() == 0 {
+        } else {
+            self.poll_flush_now(cx)
+        }
+    }
+
+    /// Whether `poll_flush` leaves the bytes written for a later flush.
+    pub(crate) fn is_flush_deferred(&self) -> bool {
+        self.flush_pipeline && !self.read_buf.is_empty()
+    }
+
+    pub(crate) fn poll_flush_now(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        if self.write_buf.remaining() == 0 {
             Pin::new(&mut self.io).poll_flush(cx)
         } else {
             if let WriteStrategy::Flatten = self.write_buf.strategy {
@@ -328,7 +341,7 @@ where
     }
 
     pub(crate) fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        ready!(self.poll_flush(cx))?;
+        ready!(self.poll_flush_now(cx))?;
         Pin::new(&mut self.io).poll_shutdown(cx)
     }
 
-- 
2.43.0


From 90c8ae6f9de78cdbf719def0dc2f78cfd4f8673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:53 +0000
Subject: [PATCH 13/32] fix: a 204 response to CONNECT opens the tunnel, too

---
 src/proto/h1/role.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 5a71c07..bb02c74 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1292,6 +1292,10 @@ impl Client {
                 trace!("ignoring informational response: {}", inc.subject.as_u16());
                 return Ok(None);
             }
+            204 if *method == Some(Method::CONNECT) => {
+                // any 2xx to a CONNECT is a tunnel
+                return Ok(Some((DecodedLength::ZERO, true)));
+            }
             204 | 304 => return Ok(Some((DecodedLength::ZERO, false))),
             _ => (),
         }
-- 
2.43.0


From 9ec0981518319c46c740b2ba6b7abb11ec5c2a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:08 +0000
Subject: [PATCH 14/32] fix: leave the Connection header of a 101 alone when
 keep-alive is off

---
 src/proto/h1/conn.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index a8021b1..062e2e1 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -634,13 +634,13 @@ where
             }
         }
 
-        self.enforce_version(&mut head);
-
         if T::declines_upgrade(self.state.method.as_ref(), &head.subject) {
             // Dropping the other half resolves the user's upgrade future.
             self.state.upgrade = None;
         }
 
+        self.enforce_version(&mut head);
+
         let buf = self.io.headers_buf();
         match super::role::encode_headers::<T>(
             Encode {
@@ -724,7 +724,10 @@ where
                 head.version = Version::HTTP_10;
             }
             Version::HTTP_11 => {
-                if let KA::Disabled = self.state.keep_alive.status() {
+                if self.state.upgrade.is_some() {
+                    // The head that grants an upgrade is the last one anyways,
+                    // and it needs the user's `Connection: upgrade`.
+                } else if let KA::Disabled = self.state.keep_alive.status() {
                     head.headers
                         .insert(CONNECTION, HeaderValue::from_static("close"));
                 } else if head.version == Version::HTTP_10 {
-- 
2.43.0


From da5f30903524f09af9c207ed3fa2ad299676a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:08 +0000
Subject: [PATCH 15/32] fix: flush the message that ends in an upgrade before
 handing over the IO

---
 src/proto/h1/conn.rs     | 9 +++++++++
 src/proto/h1/dispatch.rs | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 062e2e1..576d45b 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -160,6 +160,10 @@ where
         self.io.into_inner()
     }
 
+    pub(crate) fn has_pending_upgrade(&self) -> bool {
+        self.state.upgrade.is_some()
+    }
+
     pub(crate) fn pending_upgrade(&mut self) -> Option<crate::upgrade::Pending> {
         self.state.upgrade.take()
     }
@@ -874,6 +878,11 @@ where
         Poll::Ready(Ok(()))
     }
 
+    /// Flushes everything, no matter what `poll_flush` would leave for later.
+    pub(crate) fn poll_flush_all(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        self.io.poll_flush_now(cx)
+    }
+
     pub(crate) fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
         match ready!(self.io.poll_shutdown(cx)) {
             Ok(()) => {
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index b84db78..b664362 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -150,6 +150,10 @@ where
         ready!(self.poll_loop(cx))?;
 
         if self.is_done() {
+            if self.conn.has_pending_upgrade() {
+                // The upgraded IO must not overtake the end of our message.
+                ready!(self.conn.poll_flush_all(cx)).map_err(crate::Error::new_body_write)?;
+            }
             if let Some(pending) = self.conn.pending_upgrade() {
                 self.conn.take_error()?;
                 return Poll::Ready(Ok(Dispatched::Upgrade(pending)));
-- 
2.43.0


From 40b2dacf349a6a91fcad0dcf0ec99a7f43582c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 16/32] fix: graceful shutdown does not cut off a request body
 whose response is already written

---
 src/proto/h1/conn.rs     | 5 +++++
 src/proto/h1/dispatch.rs | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 576d45b..dd6ad0f 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -172,6 +172,11 @@ where
         self.state.is_read_closed()
     }
 
+    #[cfg(feature = "server")]
+    pub(crate) fn is_closed(&self) -> bool {
+        self.is_read_closed() && self.is_write_closed()
+    }
+
     pub(crate) fn is_write_closed(&self) -> bool {
         self.state.is_write_closed()
     }
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index b664362..55bb437 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -94,7 +94,11 @@ where
         // If keep alive has been disabled and no read or write has been seen on
         // the connection yet, we must be in a state where the server is being asked to
         // shut down before any data has been seen on the connection
-        if self.conn.is_write_closed() || self.conn.has_initial_read_write_state() {
+        // (or the connection was idle and has just been closed).
+        //
+        // A request body that is still being read after its response was
+        // written is not to be cut off, though.
+        if self.conn.is_closed() || self.conn.has_initial_read_write_state() {
             self.close();
         }
     }
-- 
2.43.0


From 20dfe9acb2316140053dedaed4ea48e9b9b6a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 17/32] fix: poll_without_shutdown flushes the last message
 before it is done

---
 src/proto/h1/dispatch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index 55bb437..721edcf 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -154,8 +154,8 @@ where
         ready!(self.poll_loop(cx))?;
 
         if self.is_done() {
-            if self.conn.has_pending_upgrade() {
-                // The upgraded IO must not overtake the end of our message.
+            if !should_shutdown || self.conn.has_pending_upgrade() {
+                // Whoever gets the IO must not overtake the end of our message.
                 ready!(self.conn.poll_flush_all(cx)).map_err(crate::Error::new_body_write)?;
             }
             if let Some(pending) = self.conn.pending_upgrade() {
-- 
2.43.0


From cd00811a51fc38de62d2a825260ce20a40dac797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:08 +0000
Subject: [PATCH 18/32] fix: keep the next head back until the previous message
 is flushed

---
 src/proto/h1/conn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index dd6ad0f..a82c70a 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -571,6 +571,11 @@ where
     }
 
     fn try_keep_alive(&mut self, cx: &mut Context<'_>) {
+        if !self.io.can_headers_buf() {
+            // The next head has to wait for the rest of this message to be
+            // flushed, and `poll_flush` tries again after that.
+            return;
+        }
         self.state.try_keep_alive::<T>();
         self.maybe_notify(cx);
     }
-- 
2.43.0


From 0ae123429edcd66aa2ffd18a9933ca63dc80c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:59 +0000
Subject: [PATCH 19/32] fix: report an empty HTTP/2 body with a content-length
 as having no length left

---
 src/body/incoming.rs |  7 ++++---
 src/body/length.rs   | 10 ----------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index 93c99a0..51a735a 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -156,9 +156,10 @@ impl Incoming {
         mut content_length: DecodedLength,
         ping: ping::Recorder,
     ) -> Self {
-        // If the stream is already EOS, then the "unknown length" is clearly
-        // actually ZERO.
-        if !content_length.is_exact() && recv.is_end_stream() {
+        // If the stream is already EOS, then the length is clearly actually
+        // ZERO, even if a content-length was sent (such as in response to a
+        // HEAD request).
+        if recv.is_end_stream() {
             content_length = DecodedLength::ZERO;
         }
 
diff --git a/src/body/length.rs b/src/body/length.rs
index 1ed5e0d..39141eb 100644
--- a/src/body/length.rs
+++ b/src/body/length.rs
@@ -74,16 +74,6 @@ impl DecodedLength {
             }
         }
     }
-
-    /// Returns whether this represents an exact length.
-    ///
-    /// This includes 0, which of course is an exact known length.
-    ///
-    /// It would return false if "chunked" or otherwise size-unknown.
-    #[cfg(all(any(feature = "client", feature = "server"), feature = "http2"))]
-    pub(crate) fn is_exact(&self) -> bool {
-        self.0 <= MAX_LEN
-    }
 }
 
 impl fmt::Debug for DecodedLength {
-- 
2.43.0


From 06ccf91b32f8d0751f166e34f90d905931fec7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:37 +0000
Subject: [PATCH 20/32] fix: a NO_ERROR reset does not end an HTTP/2 body that
 is short of its content-length

---
 src/body/incoming.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index 51a735a..58e3516 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -246,10 +246,12 @@ impl Body for Incoming {
                             return Poll::Ready(Some(Ok(Frame::data(bytes))));
                         }
                         Some(Err(e)) => {
-                            if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                            let missing_data = len.into_opt().map_or(false, |rem| rem != 0);
+                            if e.reason() == Some(h2::Reason::NO_ERROR) && !missing_data {
                                 // As mentioned in RFC 7540 Section 8.1, a RST_STREAM with NO_ERROR
                                 // indicates an early response, and should cause the body reading
-                                // to stop, but not fail it:
+                                // to stop, but not fail it (unless the content-length tells that
+                                // the body is incomplete):
                                 return Poll::Ready(None);
                             } else {
                                 return Poll::Ready(Some(Err(crate::Error::new_body(e))));
-- 
2.43.0


From d0c5a8acd7fa84dacf39504207b7826b5565c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:48 +0000
Subject: [PATCH 21/32] fix: do not take the content-length of an HTTP/2 HEAD
 response for the length of its body

---
 src/proto/h2/client.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index eb768ba..8670bd9 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -19,7 +19,7 @@ use pin_project_lite::pin_project;
 
 use super::ping::{Ponger, Recorder};
 use super::{ping, PipeToSendStream, SendBuf};
-use crate::body::{Body, Incoming as IncomingBody};
+use crate::body::{Body, DecodedLength, Incoming as IncomingBody};
 use crate::client::dispatch::{Callback, SendWhen, TrySendError};
 use crate::common::either::Either;
 use crate::common::io::Compat;
@@ -413,6 +413,7 @@ where
     B: Body,
 {
     is_connect: bool,
+    is_head: bool,
     eos: bool,
     fut: ResponseFuture,
     body_tx: SendStream<SendBuf<B::Data>>,
@@ -569,6 +570,7 @@ where
                     fut: f.fut,
                     ping: Some(ping),
                     send_stream: Some(send_stream),
+                    is_head: f.is_head,
                     exec: self.executor.clone(),
                     cancel_tx: Some(cancel_tx),
                 },
@@ -589,6 +591,7 @@ pin_project! {
         ping: Option<Recorder>,
         #[pin]
         send_stream: Option<Option<SendStream<SendBuf<<B as Body>::Data>>>>,
+        is_head: bool,
         exec: E,
         cancel_tx: Option<oneshot::Sender<()>>,
     }
@@ -648,9 +651,15 @@ where
 
                     Poll::Ready(Ok(res))
                 } else {
+                    // The content-length of a HEAD response is not the length of its body.
+                    let body_length = if *this.is_head {
+                        DecodedLength::ZERO
+                    } else {
+                        content_length.into()
+                    };
                     let res = res.map(|stream| {
                         let ping = ping.for_stream(&stream);
-                        IncomingBody::h2(stream, content_length.into(), ping)
+                        IncomingBody::h2(stream, body_length, ping)
                     });
                     Poll::Ready(Ok(res))
                 }
@@ -714,6 +723,7 @@ where
                     }
 
                     let is_connect = req.method() == Method::CONNECT;
+                    let is_head = req.method() == Method::HEAD;
                     let eos = body.is_end_stream();
 
                     if is_connect
@@ -746,6 +756,7 @@ where
 
                     let f = FutCtx {
                         is_connect,
+                        is_head,
                         eos,
                         fut,
                         body_tx,
-- 
2.43.0


From 9ed413a0abb549a71440955890e4bb5c9af7e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:53 +0000
Subject: [PATCH 22/32] fix: strip what any Connection line names, and every
 forbidden TE line, from HTTP/2 messages

---
 src/proto/h2/mod.rs | 48 ++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index f0db9b6..447f632 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -54,36 +54,36 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
         }
     }
 
-    #[cfg(not(feature = "client"))]
-    let _ = kind;
-    #[cfg(feature = "client")]
-    if matches!(kind, MessageKind::Request) {
-        if headers
-            .get(http::header::TE)
-            .map_or(false, |te_header| te_header != "trailers")
-        {
-            warn!("TE headers not set to \"trailers\" are illegal in HTTP/2 requests");
-            headers.remove(http::header::TE);
-        }
-    } else if headers.remove(http::header::TE).is_some() {
-        warn!("TE headers illegal in HTTP/2 responses");
+    let te_allowed = match kind {
+        #[cfg(feature = "client")]
+        MessageKind::Request => headers
+            .get_all(http::header::TE)
+            .iter()
+            .all(|te_header| te_header == "trailers"),
+        #[cfg(feature = "server")]
+        MessageKind::Response => false,
+    };
+    if !te_allowed && headers.remove(http::header::TE).is_some() {
+        warn!("TE headers are illegal in HTTP/2, unless set to \"trailers\" in a request");
     }
 
-    if let Some(header) = headers.remove(CONNECTION) {
+    let connection_headers: Vec<_> = headers.get_all(CONNECTION).iter().cloned().collect();
+    if headers.remove(CONNECTION).is_some() {
         warn!(
             "Connection header illegal in HTTP/2: {}",
             CONNECTION.as_str()
         );
-        // A `Connection` header may have a comma-separated list of names of other headers that
-        // are meant for only this specific connection.
-        //
-        // Iterate these names and remove them as headers. Connection-specific headers are
-        // forbidden in HTTP2, as that information has been moved into frame types of the h2
-        // protocol.
-        if let Ok(header_contents) = header.to_str() {
-            for name in header_contents.split(',') {
-                let name = name.trim();
-                headers.remove(name);
+    }
+    // Each `Connection` header may have a comma-separated list of names of other headers that
+    // are meant for only this specific connection.
+    //
+    // Iterate these names and remove them as headers. Connection-specific headers are
+    // forbidden in HTTP2, as that information has been moved into frame types of the h2
+    // protocol.
+    for header in connection_headers {
+        for name in header.as_bytes().split(|b| *b == b',') {
+            if let Ok(name) = std::str::from_utf8(name) {
+                headers.remove(name.trim());
             }
         }
     }
-- 
2.43.0


From 82721d0f5683b3d93c0ccfe47ad22a1fd5b715f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:13 +0000
Subject: [PATCH 23/32] fix: an HTTP/2 answer to HEAD, a 204 or a 304 carries
 no body, and a 204 no content-length

---
 src/proto/h2/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 9202627..ee91c5a 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -8,7 +8,7 @@ use bytes::Bytes;
 use futures_core::ready;
 use h2::server::{Connection, Handshake, SendResponse};
 use h2::{Reason, RecvStream};
-use http::{Method, Request};
+use http::{Method, Request, StatusCode};
 use pin_project_lite::pin_project;
 
 use super::{ping, PipeToSendStream, SendBuf};
@@ -274,6 +274,7 @@ where
                         ping.record_non_data();
 
                         let is_connect = req.method() == Method::CONNECT;
+                        let is_head = req.method() == Method::HEAD;
                         let (mut parts, stream) = req.into_parts();
                         let (mut req, connect_parts) = if !is_connect {
                             (
@@ -310,6 +311,7 @@ where
                             service.call(req),
                             connect_parts,
                             respond,
+                            is_head,
                             self.date_header,
                             exec.clone(),
                         );
@@ -368,6 +370,7 @@ pin_project! {
         reply: SendResponse<SendBuf<B::Data>>,
         #[pin]
         state: H2StreamState<F, B>,
+        is_head: bool,
         date_header: bool,
         exec: E,
     }
@@ -405,12 +408,14 @@ where
         fut: F,
         connect_parts: Option<ConnectParts>,
         respond: SendResponse<SendBuf<B::Data>>,
+        is_head: bool,
         date_header: bool,
         exec: E,
     ) -> H2Stream<F, B, E> {
         H2Stream {
             reply: respond,
             state: H2StreamState::Service { fut, connect_parts },
+            is_head,
             date_header,
             exec,
         }
@@ -512,12 +517,18 @@ where
                         }
                     }
 
-                    if !body.is_end_stream() {
+                    let is_no_content = res.status() == StatusCode::NO_CONTENT;
+                    if !body.is_end_stream() && !is_no_content {
                         // automatically set Content-Length from body...
                         if let Some(len) = body.size_hint().exact() {
                             headers::set_content_length_if_missing(res.headers_mut(), len);
                         }
+                    }
 
+                    // a response that must not have a body is complete with its head
+                    let is_bodyless =
+                        *me.is_head || is_no_content || res.status() == StatusCode::NOT_MODIFIED;
+                    if !body.is_end_stream() && !is_bodyless {
                         let body_tx = reply!(me, res, false);
                         H2StreamState::Body {
                             pipe: PipeToSendStream::new(body, body_tx),
-- 
2.43.0


From 44b15354668e44e17b2a31eadfc978a89c13f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:10 +0000
Subject: [PATCH 24/32] fix: http2 client keeps a request whose stream is
 pending open when the connection winds down

When the peer's GOAWAY arrived between handing a request to h2 and its
stream being opened, the dispatch task dropped the request's context and
reset its stream, although the peer had announced that it would be
served: the caller got a 'dispatch task is gone' user error.
---
 src/proto/h2/client.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 8670bd9..28cca8d 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -689,6 +689,11 @@ where
             match ready!(self.h2_tx.poll_ready(cx)) {
                 Ok(()) => (),
                 Err(err) => {
+                    // A request that was still pending open may be served
+                    // anyway, its own stream knows.
+                    if let Some(f) = self.fut_ctx.take() {
+                        self.poll_pipe(f, cx);
+                    }
                     self.ping.ensure_not_timed_out()?;
                     return if err.reason() == Some(::h2::Reason::NO_ERROR) {
                         trace!("connection gracefully shutdown");
@@ -773,14 +778,9 @@ where
                             self.fut_ctx = Some(f);
                             return Poll::Pending;
                         }
-                        Poll::Ready(Ok(())) => (),
-                        Poll::Ready(Err(err)) => {
-                            f.cb.send(Err(TrySendError {
-                                error: crate::Error::new_h2(err),
-                                message: None,
-                            }));
-                            continue;
-                        }
+                        // If no other request can be sent, the next turn of
+                        // this loop finds out. This one is already underway.
+                        Poll::Ready(_) => (),
                     }
                     self.poll_pipe(f, cx);
                 }
-- 
2.43.0


From e9185da24c501fe253d7d488d9abceda64be9cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:15 +0000
Subject: [PATCH 25/32] fix: only a NO_ERROR reset of its stream ends an HTTP/2
 body early, not the end of the connection

---
 src/body/incoming.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index 58e3516..c5b41c5 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -247,7 +247,10 @@ impl Body for Incoming {
                         }
                         Some(Err(e)) => {
                             let missing_data = len.into_opt().map_or(false, |rem| rem != 0);
-                            if e.reason() == Some(h2::Reason::NO_ERROR) && !missing_data {
+                            if e.is_reset()
+                                && e.reason() == Some(h2::Reason::NO_ERROR)
+                                && !missing_data
+                            {
                                 // As mentioned in RFC 7540 Section 8.1, a RST_STREAM with NO_ERROR
                                 // indicates an early response, and should cause the body reading
                                 // to stop, but not fail it (unless the content-length tells that
@@ -271,7 +274,7 @@ impl Body for Incoming {
                         Poll::Ready(Ok(t.map(Frame::trailers)).transpose())
                     }
                     Err(e) => {
-                        if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                        if e.is_reset() && e.reason() == Some(h2::Reason::NO_ERROR) {
                             // Same as above, a RST_STREAM with NO_ERROR indicates an early
                             // response, and should cause reading the trailers to stop, but
                             // not fail it:
-- 
2.43.0


From fbd2fc9d0aa1b03db9ff67bd3c0c4fee44ebea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:43 +0000
Subject: [PATCH 26/32] fix: keep-alive does not take an HTTP/2 connection with
 one open stream for idle once all senders are gone

---
 src/proto/h2/client.rs |  4 ++--
 src/proto/h2/ping.rs   | 38 +++++++++++++++++++++++++++++++++++---
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 28cca8d..a75e4dd 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -194,7 +194,7 @@ where
     });
 
     Ok(ClientTask {
-        ping,
+        ping: ping::ConnRecorder(ping),
         conn_drop_ref,
         conn_eof,
         executor: exec,
@@ -428,7 +428,7 @@ where
     B: Body,
     E: Unpin,
 {
-    ping: ping::Recorder,
+    ping: ping::ConnRecorder,
     conn_drop_ref: ConnDropRef,
     conn_eof: ConnEof,
     executor: E,
diff --git a/src/proto/h2/ping.rs b/src/proto/h2/ping.rs
index 198bff4..743761d 100644
--- a/src/proto/h2/ping.rs
+++ b/src/proto/h2/ping.rs
@@ -79,6 +79,7 @@ pub(super) fn channel(ping_pong: PingPong, config: Config, timer: Time) -> (Reco
         ping_sent_at: None,
         next_bdp_at,
         timer,
+        conn_recorder_dropped: false,
     }));
 
     (
@@ -110,6 +111,12 @@ pub(crate) struct Recorder {
     shared: Option<Arc<Mutex<Shared>>>,
 }
 
+/// The recorder of the connection itself, the clones of which are its streams'.
+///
+/// Only needed where it can be dropped before the `Ponger` is.
+#[cfg(feature = "client")]
+pub(super) struct ConnRecorder(pub(super) Recorder);
+
 pub(super) struct Ponger {
     bdp: Option<Bdp>,
     keep_alive: Option<KeepAlive>,
@@ -135,6 +142,7 @@ struct Shared {
 
     is_keep_alive_timed_out: bool,
     timer: Time,
+    conn_recorder_dropped: bool,
 }
 
 struct Bdp {
@@ -260,13 +268,35 @@ impl Recorder {
     }
 }
 
+// ===== impl ConnRecorder =====
+
+#[cfg(feature = "client")]
+impl std::ops::Deref for ConnRecorder {
+    type Target = Recorder;
+
+    fn deref(&self) -> &Recorder {
+        &self.0
+    }
+}
+
+#[cfg(feature = "client")]
+impl Drop for ConnRecorder {
+    fn drop(&mut self) {
+        if let Some(shared) = &self.0.shared {
+            if let Ok(mut shared) = shared.lock() {
+                shared.conn_recorder_dropped = true;
+            }
+        }
+    }
+}
+
 // ===== impl Ponger =====
 
 impl Ponger {
     pub(super) fn poll(&mut self, cx: &mut task::Context<'_>) -> Poll<Ponged> {
         let mut locked = self.shared.lock().panic_if_poisoned();
         let now = locked.timer.now(); // hoping this is fine to move within the lock
-        let is_idle = self.is_idle();
+        let is_idle = self.is_idle(&locked);
 
         if let Some(ka) = &mut self.keep_alive {
             ka.maybe_schedule(is_idle, &locked);
@@ -323,8 +353,10 @@ impl Ponger {
         Poll::Pending
     }
 
-    fn is_idle(&self) -> bool {
-        Arc::strong_count(&self.shared) <= 2
+    fn is_idle(&self, shared: &Shared) -> bool {
+        // this one, and the connection's own recorder
+        let own = if shared.conn_recorder_dropped { 1 } else { 2 };
+        Arc::strong_count(&self.shared) <= own
     }
 }
 
-- 
2.43.0


From 23b3fe7521bb4a98353056304f1c442bfab794b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:43 +0000
Subject: [PATCH 27/32] fix: an HTTP/2 server connection that timed out does
 not wait for its transport to take the GOAWAY

---
 src/proto/h2/server.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index ee91c5a..b398616 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -260,7 +260,18 @@ where
             loop {
                 self.poll_ping(cx);
 
-                match ready!(self.conn.poll_accept(cx)) {
+                let accepted = match self.conn.poll_accept(cx) {
+                    Poll::Ready(accepted) => accepted,
+                    Poll::Pending => {
+                        // Don't wait for a dead peer to take the GOAWAY.
+                        if let Some((ping, _)) = &self.ping {
+                            ping.ensure_not_timed_out()?;
+                        }
+                        return Poll::Pending;
+                    }
+                };
+
+                match accepted {
                     Some(Ok((req, mut respond))) => {
                         trace!("incoming request");
                         let content_length = headers::content_length_parse_all(req.headers());
-- 
2.43.0


From 9311f9e237f37dd59a8a1a623a4a2698a48749b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:43 +0000
Subject: [PATCH 28/32] fix: a refused HTTP/2 CONNECT with a content-length
 does not end the connection

---
 src/proto/h2/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index b398616..c120aa0 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -299,7 +299,7 @@ where
                             if content_length.map_or(false, |len| len != 0) {
                                 warn!("h2 connect request with non-zero body not supported");
                                 respond.send_reset(h2::Reason::INTERNAL_ERROR);
-                                return Poll::Ready(Ok(()));
+                                continue;
                             }
                             let (pending, upgrade) = crate::upgrade::pending();
                             debug_assert!(parts.extensions.get::<OnUpgrade>().is_none());
-- 
2.43.0


From 5772b9e834f50c08ad29d5c29ef8f527b925dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:43 +0000
Subject: [PATCH 29/32] fix: any 2xx answer to an HTTP/2 CONNECT opens the
 tunnel

---
 src/proto/h2/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index a75e4dd..d3aa180 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -14,7 +14,7 @@ use futures_channel::{mpsc, oneshot};
 use futures_core::{ready, FusedFuture, FusedStream, Stream};
 use h2::client::{Builder, Connection, SendRequest};
 use h2::SendStream;
-use http::{Method, StatusCode};
+use http::Method;
 use pin_project_lite::pin_project;
 
 use super::ping::{Ponger, Recorder};
@@ -627,7 +627,7 @@ where
                 ping.record_non_data();
 
                 let content_length = headers::content_length_parse_all(res.headers());
-                if let (Some(mut send_stream), StatusCode::OK) = (send_stream, res.status()) {
+                if let (Some(mut send_stream), true) = (send_stream, res.status().is_success()) {
                     if content_length.map_or(false, |len| len != 0) {
                         warn!("h2 connect response with non-zero body not supported");
 
-- 
2.43.0


From c9725b1a537893358174fc467925a19b8f0d0a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:43 +0000
Subject: [PATCH 30/32] fix: an HTTP/2 tunnel dropped after its last write is
 still written out

Once the upgraded IO is gone, the task that sends its bytes holds the
last handle of the stream. It let go of it as soon as END_STREAM was
queued, whereupon h2 resets the stream with CANCEL and throws away what
it could not yet write, and the other end reads that as a clean end.
---
 src/proto/h2/mod.rs     | 12 ++++++++----
 src/proto/h2/upgrade.rs | 43 +++++++++++++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index 447f632..536a505 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -1,3 +1,4 @@
+use std::convert::Infallible;
 use std::error::Error as StdError;
 use std::future::Future;
 use std::io::{Cursor, IoSlice};
@@ -5,6 +6,7 @@ use std::pin::Pin;
 use std::task::{Context, Poll};
 
 use bytes::Buf;
+use futures_channel::oneshot;
 use futures_core::ready;
 use h2::SendStream;
 use http::header::{HeaderName, CONNECTION, TRANSFER_ENCODING, UPGRADE};
@@ -288,6 +290,8 @@ impl<B: Buf> SendStreamExt for SendStream<SendBuf<B>> {
 enum SendBuf<B> {
     Buf(B),
     Cursor(Cursor<Box<[u8]>>),
+    // Nothing, and dropped once h2 is done with it.
+    Eos(#[allow(dead_code)] oneshot::Sender<Infallible>),
     None,
 }
 
@@ -297,7 +301,7 @@ impl<B: Buf> Buf for SendBuf<B> {
         match self {
             Self::Buf(b) => b.remaining(),
             Self::Cursor(c) => Buf::remaining(c),
-            Self::None => 0,
+            Self::Eos(_) | Self::None => 0,
         }
     }
 
@@ -306,7 +310,7 @@ impl<B: Buf> Buf for SendBuf<B> {
         match self {
             Self::Buf(b) => b.chunk(),
             Self::Cursor(c) => c.chunk(),
-            Self::None => &[],
+            Self::Eos(_) | Self::None => &[],
         }
     }
 
@@ -315,7 +319,7 @@ impl<B: Buf> Buf for SendBuf<B> {
         match self {
             Self::Buf(b) => b.advance(cnt),
             Self::Cursor(c) => c.advance(cnt),
-            Self::None => {}
+            Self::Eos(_) | Self::None => {}
         }
     }
 
@@ -323,7 +327,7 @@ impl<B: Buf> Buf for SendBuf<B> {
         match self {
             Self::Buf(b) => b.chunks_vectored(dst),
             Self::Cursor(c) => c.chunks_vectored(dst),
-            Self::None => 0,
+            Self::Eos(_) | Self::None => 0,
         }
     }
 }
diff --git a/src/proto/h2/upgrade.rs b/src/proto/h2/upgrade.rs
index 217aa27..8757392 100644
--- a/src/proto/h2/upgrade.rs
+++ b/src/proto/h2/upgrade.rs
@@ -1,3 +1,4 @@
+use std::convert::Infallible;
 use std::future::Future;
 use std::io::Cursor;
 use std::pin::Pin;
@@ -41,6 +42,7 @@ pub(super) fn pair<B>(
             rx,
             close_notify,
             error_tx: Some(error_tx),
+            eos_sent: None,
         },
     )
 }
@@ -106,6 +108,8 @@ pin_project! {
         rx: mpsc::Receiver<Cursor<Box<[u8]>>>,
         close_notify: Arc<UpgradedCloseNotify>,
         error_tx: Option<oneshot::Sender<crate::Error>>,
+        // Once END_STREAM is queued: resolves when h2 is done with the frame.
+        eos_sent: Option<oneshot::Receiver<Infallible>>,
     }
 }
 
@@ -115,8 +119,18 @@ impl<B> UpgradedSendStreamTask<B>
 where
     B: Buf,
 {
-    fn tick(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), crate::Error>> {
-        let mut me = self.project();
+    fn tick(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), crate::Error>> {
+        let mut me = self.as_mut().project();
+
+        // Everything is queued. The stream is held on to until it is also
+        // written: if the upgraded IO is gone, these are the last handles,
+        // and h2 would reset the stream and throw away what is queued.
+        if let Some(eos_sent) = me.eos_sent {
+            if me.h2_tx.poll_reset(cx).is_ready() {
+                return Poll::Ready(Ok(()));
+            }
+            return Pin::new(eos_sent).poll(cx).map(|_| Ok(()));
+        }
 
         // this is a manual `select()` over 3 "futures", so we always need
         // to be sure they are ready and/or we are waiting notification of
@@ -175,10 +189,7 @@ where
                 // `size_hint` reads the queued message count without popping,
                 // so an accepted write stays queued until h2 capacity returns.
                 if me.rx.size_hint().0 == 0 && me.close_notify.poll_closed(cx).is_ready() {
-                    me.h2_tx
-                        .send_data(SendBuf::None, true)
-                        .map_err(crate::Error::new_body_write)?;
-                    return Poll::Ready(Ok(()));
+                    return self.send_eos(cx);
                 }
 
                 return Poll::Pending;
@@ -191,10 +202,7 @@ where
                         .map_err(crate::Error::new_body_write)?;
                 }
                 Poll::Ready(None) => {
-                    me.h2_tx
-                        .send_data(SendBuf::None, true)
-                        .map_err(crate::Error::new_body_write)?;
-                    return Poll::Ready(Ok(()));
+                    return self.send_eos(cx);
                 }
                 Poll::Pending => {
                     return Poll::Pending;
@@ -202,6 +210,21 @@ where
             }
         }
     }
+
+    fn send_eos(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+    ) -> Poll<Result<(), crate::Error>> {
+        let (tx, rx) = oneshot::channel();
+        let mut me = self.as_mut().project();
+        me.h2_tx
+            .send_data(SendBuf::Eos(tx), true)
+            .map_err(crate::Error::new_body_write)?;
+        *me.eos_sent = Some(rx);
+        // The write side is done as far as the user is concerned.
+        me.error_tx.take();
+        self.tick(cx)
+    }
 }
 
 impl<B> Future for UpgradedSendStreamTask<B>
-- 
2.43.0


From 812abae6b813043d41c44ca86d5ada458d22c862 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:40:11 +0000
Subject: [PATCH 31/32] fix: do not lose a tunnel write queued right before
 closing

While the stream has no capacity, the HTTP/2 upgrade task looked whether
its queue was empty before it looked whether the write half had closed. A
write and the close that follows it could both happen in between, on
another thread: the task then ended the stream without the queued bytes.
---
 src/proto/h2/upgrade.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/upgrade.rs b/src/proto/h2/upgrade.rs
index 8757392..6786001 100644
--- a/src/proto/h2/upgrade.rs
+++ b/src/proto/h2/upgrade.rs
@@ -188,7 +188,9 @@ where
             if !h2_has_capacity {
                 // `size_hint` reads the queued message count without popping,
                 // so an accepted write stays queued until h2 capacity returns.
-                if me.rx.size_hint().0 == 0 && me.close_notify.poll_closed(cx).is_ready() {
+                // It has to be read after the close is seen: a write could be
+                // queued right before the close, on another thread.
+                if me.close_notify.poll_closed(cx).is_ready() && me.rx.size_hint().0 == 0 {
                     return self.send_eos(cx);
                 }
 
-- 
2.43.0


From 1b64f65da9cf3af8ff59441a1fdaa06524b072f7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:12:06 +0000
Subject: [PATCH 32/32] fix: keep later headers visible after hyper_headers_set
 replaces several values

---
 src/ext/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ext/mod.rs b/src/ext/mod.rs
index 0fccb5f..203a84e 100644
--- a/src/ext/mod.rs
+++ b/src/ext/mod.rs
@@ -223,14 +223,14 @@ impl OriginalHeaderOrder {
     }
 
     pub(crate) fn insert(&mut self, name: HeaderName) {
-        if !self.num_entries.contains_key(&name) {
-            let idx = 0;
-            self.num_entries.insert(name.clone(), 1);
-            self.entry_order.push((name, idx));
+        match self.num_entries.insert(name.clone(), 1) {
+            None => self.entry_order.push((name, 0)),
+            // Replacing an already existing element does not
+            // change ordering, but any further values are gone.
+            Some(_) => self
+                .entry_order
+                .retain(|(other, idx)| *other != name || *idx == 0),
         }
-        // Replacing an already existing element does not
-        // change ordering, so we only care if its the first
-        // header name encountered
     }
 
     pub(crate) fn append<N>(&mut self, name: N)
-- 
2.43.0

