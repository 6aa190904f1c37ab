From 1dec425c6887f60298b69d326a137a103e2ce3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 01/23] fix: let Connection: close win over keep-alive on
 another Connection line

---
 src/proto/h1/role.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 29bcd44..56b26e2 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -147,6 +147,7 @@ impl Http1Transaction for Server {
         debug_assert!(!buf.is_empty(), "parse called with empty buf");
 
         let mut keep_alive;
+        let mut saw_close = false;
         let is_http_11;
         let subject;
         let version;
@@ -309,12 +310,12 @@ impl Http1Transaction for Server {
                 }
                 header::CONNECTION => {
                     // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
-                        // HTTP/1.0
-                        keep_alive = headers::connection_keep_alive(&value);
+                    if headers::connection_close(&value) {
+                        // `close` wins over any other option, no matter which
+                        // `Connection` line it is found on.
+                        saw_close = true;
+                    } else if headers::connection_keep_alive(&value) {
+                        keep_alive = true;
                     }
                 }
                 header::EXPECT => {
@@ -348,7 +349,7 @@ impl Http1Transaction for Server {
             return Err(Parse::transfer_encoding_invalid());
         }
 
-        if is_te && is_cl {
+        if saw_close || (is_te && is_cl) {
             keep_alive = false;
         }
 
@@ -1101,6 +1102,7 @@ impl Http1Transaction for Client {
             let mut headers = ctx.cached_headers.take().unwrap_or_default();
 
             let mut keep_alive = version == Version::HTTP_11;
+            let mut saw_close = false;
 
             let mut header_case_map = if ctx.preserve_header_case {
                 Some(HeaderCaseMap::default())
@@ -1124,12 +1126,12 @@ impl Http1Transaction for Client {
 
                 if let header::CONNECTION = name {
                     // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
-                        // HTTP/1.0
-                        keep_alive = headers::connection_keep_alive(&value);
+                    if headers::connection_close(&value) {
+                        // `close` wins over any other option, no matter which
+                        // `Connection` line it is found on.
+                        saw_close = true;
+                    } else if headers::connection_keep_alive(&value) {
+                        keep_alive = true;
                     }
                 }
 
@@ -1176,7 +1178,7 @@ impl Http1Transaction for Client {
                     expect_continue: false,
                     // a client upgrade means the connection can't be used
                     // again, as it is definitely upgrading.
-                    keep_alive: keep_alive && !is_upgrade,
+                    keep_alive: keep_alive && !saw_close && !is_upgrade,
                     wants_upgrade: is_upgrade,
                 }));
             }
-- 
2.43.0


From 61b763b8ae3bd90833de672479fe66b74da2d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 02/23] fix: drop a pending upgrade once the server response
 declines it

---
 src/proto/h1/conn.rs | 6 ++++++
 src/proto/h1/mod.rs  | 5 +++++
 src/proto/h1/role.rs | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 19c1283..6e5e440 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -625,6 +625,12 @@ where
             }
         }
 
+        if T::declines_upgrade(&head.subject, &self.state.method) {
+            // Without this, the pending upgrade would be fulfilled with the
+            // transport as soon as the connection is done.
+            self.state.upgrade = None;
+        }
+
         self.enforce_version(&mut head);
 
         let buf = self.io.headers_buf();
diff --git a/src/proto/h1/mod.rs b/src/proto/h1/mod.rs
index 0a442c4..5608186 100644
--- a/src/proto/h1/mod.rs
+++ b/src/proto/h1/mod.rs
@@ -53,6 +53,11 @@ pub(crate) trait Http1Transaction {
         Self::is_server()
     }
 
+    /// Whether sending this head settles that the exchange does not upgrade.
+    fn declines_upgrade(_head: &Self::Outgoing, _req_method: &Option<Method>) -> bool {
+        false
+    }
+
     fn update_date() {}
 }
 
diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 56b26e2..bc3a639 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -502,6 +502,12 @@ impl Http1Transaction for Server {
         Some(msg)
     }
 
+    fn declines_upgrade(status: &StatusCode, req_method: &Option<Method>) -> bool {
+        let accepted = *status == StatusCode::SWITCHING_PROTOCOLS
+            || (*req_method == Some(Method::CONNECT) && status.is_success());
+        !accepted
+    }
+
     fn is_server() -> bool {
         true
     }
-- 
2.43.0


From d967a1ce5737eb2c7962d05cfabfbbc13807e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:35 +0000
Subject: [PATCH 03/23] fix: flush aggregated responses before shutting down
 the transport

---
 src/proto/h1/io.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 6b3f10f..5d24496 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -328,6 +328,9 @@ where
     }
 
     pub(crate) fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        // Whatever is left in the read buffer will not be answered, so there
+        // is no later response to aggregate the buffered bytes with.
+        self.flush_pipeline = false;
         ready!(self.poll_flush(cx))?;
         Pin::new(&mut self.io).poll_shutdown(cx)
     }
-- 
2.43.0


From fffd442aff13e1c44b4891adea7f95aa2366ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:45 +0000
Subject: [PATCH 04/23] fix: keep a response's Connection: close to an HTTP/1.0
 keep-alive request

---
 src/proto/h1/conn.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 6e5e440..cb3290a 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -681,9 +681,12 @@ where
                 // disable keep-alive so the server closes the connection
                 Version::HTTP_10 => self.state.disable_keep_alive(),
                 // If response is version 1.1 and keep-alive is wanted, add
-                // Connection: keep-alive header when not present
+                // Connection: keep-alive header when not present, unless
+                // the response asks to close
                 Version::HTTP_11 => {
-                    if self.state.wants_keep_alive() {
+                    if self.state.wants_keep_alive()
+                        && !headers::connection_any_close(&head.headers)
+                    {
                         head.headers
                             .insert(CONNECTION, HeaderValue::from_static("keep-alive"));
                     }
-- 
2.43.0


From 5d5f74e3ad2915b7ce27cbfa0e5e3a113ae43a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 05/23] fix: close a received body as soon as its message is
 complete

---
 src/proto/h1/dispatch.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index f250f55..b904684 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -249,6 +249,11 @@ where
                             if frame.is_data() {
                                 let chunk = frame.into_data().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_data(chunk) {
+                                    // Once the message is complete, the body is
+                                    // dropped to close it: when the other side of
+                                    // the exchange was done first, reading moves on
+                                    // to the next head without coming back here.
+                                    Ok(()) if !self.conn.can_read_body() => (),
                                     Ok(()) => {
                                         self.body_tx.set(body);
                                     }
@@ -263,6 +268,7 @@ where
                                 let trailers =
                                     frame.into_trailers().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_trailers(trailers) {
+                                    Ok(()) if !self.conn.can_read_body() => (),
                                     Ok(()) => {
                                         self.body_tx.set(body);
                                     }
-- 
2.43.0


From 860244e51d26a00c3146626be7900bbd53f33208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:27 +0000
Subject: [PATCH 06/23] fix: flush before handing on the transport of a
 finished HTTP/1 connection

---
 src/proto/h1/conn.rs     | 8 ++++++++
 src/proto/h1/dispatch.rs | 5 +++++
 src/proto/h1/io.rs       | 9 +++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index cb3290a..a2afb64 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -164,6 +164,10 @@ where
         self.state.upgrade.take()
     }
 
+    pub(crate) fn has_pending_upgrade(&self) -> bool {
+        self.state.upgrade.is_some()
+    }
+
     pub(crate) fn is_read_closed(&self) -> bool {
         self.state.is_read_closed()
     }
@@ -851,6 +855,10 @@ where
         Poll::Ready(Ok(()))
     }
 
+    pub(crate) fn poll_flush_all(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        self.io.poll_flush_all(cx)
+    }
+
     pub(crate) fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
         match ready!(self.io.poll_shutdown(cx)) {
             Ok(()) => {
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index b904684..76e9bcb 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -150,6 +150,11 @@ where
         ready!(self.poll_loop(cx))?;
 
         if self.is_done() {
+            if !should_shutdown || self.conn.has_pending_upgrade() {
+                // The transport is about to be handed on: what was written
+                // (such as the head of a 101) must not be left behind.
+                ready!(self.conn.poll_flush_all(cx)).map_err(crate::Error::new_body_write)?;
+            }
             if let Some(pending) = self.conn.pending_upgrade() {
                 self.conn.take_error()?;
                 return Poll::Ready(Ok(Dispatched::Upgrade(pending)));
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 5d24496..933b234 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -327,11 +327,16 @@ where
         Pin::new(&mut self.io).poll_flush(cx)
     }
 
-    pub(crate) fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+    /// Flush everything, because nothing more is going to be written.
+    pub(crate) fn poll_flush_all(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
         // Whatever is left in the read buffer will not be answered, so there
         // is no later response to aggregate the buffered bytes with.
         self.flush_pipeline = false;
-        ready!(self.poll_flush(cx))?;
+        self.poll_flush(cx)
+    }
+
+    pub(crate) fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        ready!(self.poll_flush_all(cx))?;
         Pin::new(&mut self.io).poll_shutdown(cx)
     }
 
-- 
2.43.0


From a26d101ca2a81d90f45acf641400db574237bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:58 +0000
Subject: [PATCH 07/23] fix: let a request body finish after graceful shutdown
 when its response is done

---
 src/proto/h1/dispatch.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index 76e9bcb..d6dc0a1 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -94,7 +94,12 @@ where
         // If keep alive has been disabled and no read or write has been seen on
         // the connection yet, we must be in a state where the server is being asked to
         // shut down before any data has been seen on the connection
-        if self.conn.is_write_closed() || self.conn.has_initial_read_write_state() {
+        //
+        // A response that closed the write side can still have its request body
+        // being read, which is left to finish.
+        if (self.conn.is_write_closed() && !self.conn.can_read_body())
+            || self.conn.has_initial_read_write_state()
+        {
             self.close();
         }
     }
-- 
2.43.0


From f96ebcb6526677ca17bb0287b1e22f38a55b6a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 08/23] fix: keep an HTTP/1 exchange open until its message is
 written

---
 src/proto/h1/conn.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index a2afb64..00d2b20 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -310,7 +310,7 @@ where
             }
             self.state.reading = Reading::KeepAlive;
             if !T::should_read_first() {
-                self.try_keep_alive(cx);
+                self.try_keep_alive_after_read(cx);
             }
         } else if msg.expect_continue && msg.head.version.gt(&Version::HTTP_10) {
             let h1_max_header_size = None; // TODO: remove this when we land h1_max_header_size support
@@ -422,7 +422,7 @@ where
         };
 
         self.state.reading = reading;
-        self.try_keep_alive(cx);
+        self.try_keep_alive_after_read(cx);
         ret
     }
 
@@ -570,6 +570,16 @@ where
         self.maybe_notify(cx);
     }
 
+    /// Like `try_keep_alive`, for when reading is what finished last.
+    fn try_keep_alive_after_read(&mut self, cx: &mut Context<'_>) {
+        if self.io.has_buffered_write() {
+            // The exchange isn't over while its own message still has to be
+            // written. `poll_flush` tries again once it is.
+            return;
+        }
+        self.try_keep_alive(cx);
+    }
+
     pub(crate) fn can_write_head(&self) -> bool {
         if !T::should_read_first() && matches!(self.state.reading, Reading::Closed) {
             return false;
-- 
2.43.0


From a03c501fa133a58f07495aea0c7839526765d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 09/23] fix: bound the write buffer also while aggregating
 pipelined responses

---
 src/proto/h1/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 933b234..a452a73 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -155,7 +155,7 @@ where
     }
 
     pub(crate) fn can_buffer(&self) -> bool {
-        self.flush_pipeline || self.write_buf.can_buffer()
+        self.write_buf.can_buffer()
     }
 
     pub(crate) fn consume_leading_lines(&mut self) {
@@ -269,7 +269,8 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        if self.flush_pipeline && !self.read_buf.is_empty() {
+        if self.flush_pipeline && !self.read_buf.is_empty() && self.write_buf.can_buffer() {
+            // Aggregate responses, up to the limit of the buffer.
             Poll::Ready(Ok(()))
         } else if self.write_buf.remaining() == 0 {
             Pin::new(&mut self.io).poll_flush(cx)
-- 
2.43.0


From fedd6246cd17f1fa4bdf9f8b7bdf365da4b26b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:15 +0000
Subject: [PATCH 10/23] fix: refuse chunked trailers that end before the final
 CRLF

---
 src/proto/h1/decode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proto/h1/decode.rs b/src/proto/h1/decode.rs
index bdfdf79..d8b7c6d 100644
--- a/src/proto/h1/decode.rs
+++ b/src/proto/h1/decode.rs
@@ -641,6 +641,11 @@ fn decode_trailers(buf: &mut BytesMut, count: usize) -> Result<HeaderMap, io::Er
     let mut headers = vec![httparse::EMPTY_HEADER; count];
     let res = httparse::parse_headers(buf, &mut headers);
     match res {
+        // a bare LF makes httparse stop at an empty line before the end
+        Ok(httparse::Status::Complete((n, _))) if n != buf.len() => Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid trailers end",
+        )),
         Ok(httparse::Status::Complete((_, headers))) => {
             for header in headers {
                 use std::convert::TryFrom;
-- 
2.43.0


From 3eb8558647003cf7885dcb11bc7269dd3e53a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 11/23] fix: never write a service's malformed content-length

---
 src/proto/h1/role.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index bc3a639..c01cba8 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -717,6 +717,14 @@ impl Server {
                         return Err(crate::Error::new_user_header());
                     }
                     match msg.body {
+                        // Never put a value on the wire that isn't a length.
+                        Some(BodyLength::Known(_))
+                            if headers::content_length_parse(&value).is_none() =>
+                        {
+                            warn!("illegal Content-Length value: {:?}", value);
+                            rewind(dst);
+                            return Err(crate::Error::new_user_header());
+                        }
                         Some(BodyLength::Known(known_len)) => {
                             // The Body claims to know a length, and
                             // the headers are already set. For performance
@@ -797,6 +805,11 @@ impl Server {
                             // - This is a response to a `HEAD` request.
                             if msg.req_method == &Some(Method::HEAD) {
                                 debug_assert_eq!(encoder, Encoder::length(0));
+                                if headers::content_length_parse(&value).is_none() {
+                                    warn!("illegal Content-Length value: {:?}", value);
+                                    rewind(dst);
+                                    return Err(crate::Error::new_user_header());
+                                }
                             } else {
                                 if value.as_bytes() != b"0" {
                                     warn!(
-- 
2.43.0


From 7635f80cdd651333491edaaee044fc70f951dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:09 +0000
Subject: [PATCH 12/23] fix: fail a message whose last body frame leaves it
 short of its length

---
 src/proto/h1/conn.rs     |  8 +++++++-
 src/proto/h1/dispatch.rs |  2 +-
 src/proto/h1/encode.rs   | 10 ++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 00d2b20..1baa50b 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -784,13 +784,18 @@ where
         }
     }
 
-    pub(crate) fn write_body_and_end(&mut self, chunk: B) {
+    pub(crate) fn write_body_and_end(&mut self, chunk: B) -> crate::Result<()> {
         debug_assert!(self.can_write_body() && self.can_buffer_body());
         // empty chunks should be discarded at Dispatcher level
         debug_assert!(chunk.remaining() != 0);
 
         let state = match &mut self.state.writing {
             Writing::Body(encoder) => {
+                if let Some(not_eof) = encoder.not_eof_after(chunk.remaining()) {
+                    self.io.buffer(encoder.encode(chunk));
+                    self.state.writing = Writing::Closed;
+                    return Err(crate::Error::new_body_write_aborted().with(not_eof));
+                }
                 let can_keep_alive = encoder.encode_and_end(chunk, self.io.write_buf());
                 if can_keep_alive {
                     Writing::KeepAlive
@@ -802,6 +807,7 @@ where
         };
 
         self.state.writing = state;
+        Ok(())
     }
 
     pub(crate) fn end_body(&mut self) -> crate::Result<()> {
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index d6dc0a1..57865fa 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -430,7 +430,7 @@ where
                                     trace!("discarding empty chunk");
                                     self.conn.end_body()?;
                                 } else {
-                                    self.conn.write_body_and_end(chunk);
+                                    self.conn.write_body_and_end(chunk)?;
                                 }
                             } else {
                                 if chunk.remaining() == 0 {
diff --git a/src/proto/h1/encode.rs b/src/proto/h1/encode.rs
index a1eebaf..aa827ea 100644
--- a/src/proto/h1/encode.rs
+++ b/src/proto/h1/encode.rs
@@ -216,6 +216,16 @@ impl Encoder {
         }
     }
 
+    /// The error if a body ended after `len` more bytes, short of its length.
+    pub(super) fn not_eof_after(&self, len: usize) -> Option<NotEof> {
+        match self.kind {
+            Kind::Length(remaining) if (len as u64) < remaining => {
+                Some(NotEof(remaining - len as u64))
+            }
+            _ => None,
+        }
+    }
+
     pub(super) fn encode_and_end<B>(&self, msg: B, dst: &mut WriteBuf<EncodedBuf<B>>) -> bool
     where
         B: Buf,
-- 
2.43.0


From 12df29ece4efff013d33f4b74ce7f4bdebb50968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:58 +0000
Subject: [PATCH 13/23] fix: never announce a request length that is invalid or
 not enforced

---
 src/proto/h1/role.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index c01cba8..03b8d7d 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1348,7 +1348,13 @@ impl Client {
             body
         } else {
             head.headers.remove(header::TRANSFER_ENCODING);
-            return Encoder::length(0);
+            // A length the user set is announced, so it has to be enforced.
+            return if let Some(len) = headers::content_length_parse_all(&head.headers) {
+                Encoder::length(len)
+            } else {
+                head.headers.remove(header::CONTENT_LENGTH);
+                Encoder::length(0)
+            };
         };
 
         // HTTP/1.0 doesn't know about chunked
@@ -1363,6 +1369,9 @@ impl Client {
         // header, so unfortunately, we must do the check here, first.
 
         let existing_con_len = headers::content_length_parse_all(headers);
+        if existing_con_len.is_none() && headers.remove(header::CONTENT_LENGTH).is_some() {
+            warn!("removing illegal content-length header");
+        }
         let mut should_remove_con_len = false;
 
         if !can_chunked {
-- 
2.43.0


From 090bb55f47d22c116d0b23d44d1861fdcc888383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:58 +0000
Subject: [PATCH 14/23] fix: send the body of a request whose version is
 coerced to HTTP/1.1

---
 src/proto/h1/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 03b8d7d..359d804 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1358,7 +1358,7 @@ impl Client {
         };
 
         // HTTP/1.0 doesn't know about chunked
-        let can_chunked = head.version == Version::HTTP_11;
+        let can_chunked = head.version != Version::HTTP_10;
         let headers = &mut head.headers;
 
         // If the user already set specific headers, we should respect them, regardless
-- 
2.43.0


From 5e476da9bd69cb8ab9ca3ef2712d21e8478cea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:40 +0000
Subject: [PATCH 15/23] fix: don't hand over an upgraded stream from the middle
 of a request body

A service that answers 101 while the request's body is not read to its
end (dropped, or cut short) got an upgraded stream starting somewhere in
that body. The upgrade is now refused: the handle resolves to an error.
---
 src/proto/h1/conn.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 1baa50b..b7101e1 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -421,6 +421,9 @@ where
             _ => unreachable!("poll_read_body invalid state: {:?}", self.state.reading),
         };
 
+        if let Reading::Closed = reading {
+            self.state.cancel_upgrade_mid_body();
+        }
         self.state.reading = reading;
         self.try_keep_alive_after_read(cx);
         ret
@@ -1098,10 +1101,19 @@ impl State {
 
     fn close_read(&mut self) {
         trace!("State::close_read()");
+        self.cancel_upgrade_mid_body();
         self.reading = Reading::Closed;
         self.keep_alive.disable();
     }
 
+    /// The upgraded protocol starts where the message ends. If the body won't
+    /// be read to its end, there is no telling its bytes from the protocol's.
+    fn cancel_upgrade_mid_body(&mut self) {
+        if let Reading::Continue(..) | Reading::Body(..) = self.reading {
+            self.upgrade = None;
+        }
+    }
+
     fn close_write(&mut self) {
         trace!("State::close_write()");
         self.writing = Writing::Closed;
-- 
2.43.0


From 3767d0b3500cb62a55859edd7e7a45014ce3c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 16/23] fix: only a stream reset with NO_ERROR ends an HTTP/2
 body without an error

A connection that goes away with NO_ERROR (a GOAWAY that excludes the stream,
or our own keep-alive timeout) cuts the body short; that has to be an error.
---
 src/body/incoming.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index 93c99a0..b399698 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -245,7 +245,7 @@ impl Body for Incoming {
                             return Poll::Ready(Some(Ok(Frame::data(bytes))));
                         }
                         Some(Err(e)) => {
-                            if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                            if e.is_reset() && e.reason() == Some(h2::Reason::NO_ERROR) {
                                 // As mentioned in RFC 7540 Section 8.1, a RST_STREAM with NO_ERROR
                                 // indicates an early response, and should cause the body reading
                                 // to stop, but not fail it:
@@ -268,7 +268,7 @@ impl Body for Incoming {
                         Poll::Ready(Ok(t.map(Frame::trailers)).transpose())
                     }
                     Err(e) => {
-                        if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                        if e.is_reset() && e.reason() == Some(h2::Reason::NO_ERROR) {
                             // Same as above, a RST_STREAM with NO_ERROR indicates an early
                             // response, and should cause reading the trailers to stop, but
                             // not fail it:
-- 
2.43.0


From 5e9a4590a68c1a6ec189a3c9ef03951083527972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 17/23] fix: don't report the end of the connection as the end
 of an HTTP/2 tunnel

---
 src/proto/h2/upgrade.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h2/upgrade.rs b/src/proto/h2/upgrade.rs
index 217aa27..c23d994 100644
--- a/src/proto/h2/upgrade.rs
+++ b/src/proto/h2/upgrade.rs
@@ -243,7 +243,7 @@ impl Read for H2Upgraded {
                     }
                     Some(Err(e)) => {
                         return Poll::Ready(match e.reason() {
-                            Some(Reason::NO_ERROR) | Some(Reason::CANCEL) => Ok(()),
+                            Some(Reason::NO_ERROR) | Some(Reason::CANCEL) if e.is_reset() => Ok(()),
                             Some(Reason::STREAM_CLOSED) => {
                                 Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, e))
                             }
-- 
2.43.0


From 074a1580fb9f3b498cc98309e1fb052c86dc897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:29 +0000
Subject: [PATCH 18/23] fix: stop sending an HTTP/2 request body when its
 canceled response arrives

---
 src/client/dispatch.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/dispatch.rs b/src/client/dispatch.rs
index 69c9b8c..647766a 100644
--- a/src/client/dispatch.rs
+++ b/src/client/dispatch.rs
@@ -358,6 +358,11 @@ where
 
         match Pin::new(&mut this.when).poll(cx) {
             Poll::Ready(Ok(res)) => {
+                if call_back.is_canceled() {
+                    // Nobody is waiting for this response any more, so
+                    // don't keep sending the request body either.
+                    this.when.as_mut().cancel();
+                }
                 call_back.send(Ok(res));
                 Poll::Ready(())
             }
-- 
2.43.0


From 2fecae2f3fe7d44a1a35c6cc7f1ddb5f71b1e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:22 +0000
Subject: [PATCH 19/23] fix: end an HTTP/2 server connection on keep-alive
 timeout even if it can't write

The GOAWAY that precedes the end can't be written when the dead peer's
transport takes no more data; the connection then lingered on.
---
 src/proto/h2/server.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 9202627..73b7b46 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -260,7 +260,19 @@ where
             loop {
                 self.poll_ping(cx);
 
-                match ready!(self.conn.poll_accept(cx)) {
+                let accepted = match self.conn.poll_accept(cx) {
+                    Poll::Ready(accepted) => accepted,
+                    Poll::Pending => {
+                        // A dead peer might not even take our GOAWAY, so
+                        // don't wait for it once keep-alive has timed out.
+                        if let Some((ping, _)) = &self.ping {
+                            ping.ensure_not_timed_out()?;
+                        }
+                        return Poll::Pending;
+                    }
+                };
+
+                match accepted {
                     Some(Ok((req, mut respond))) => {
                         trace!("incoming request");
                         let content_length = headers::content_length_parse_all(req.headers());
-- 
2.43.0


From b7c1d9566886dafedeb3b92eabb96345bf9aba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:56 +0000
Subject: [PATCH 20/23] fix: keep HTTP/2 keep-alive running while a request
 waits for its stream to open

---
 src/proto/h2/client.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index eb768ba..2ce671d 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -417,6 +417,9 @@ where
     fut: ResponseFuture,
     body_tx: SendStream<SendBuf<B::Data>>,
     body: B,
+    // keeps the ping recorder's knowledge of an "open stream" alive while
+    // the stream is waiting to be opened
+    ping: ping::Recorder,
     cb: Callback<Request<B>, Response<IncomingBody>>,
 }
 
@@ -524,7 +527,7 @@ where
     T: Read + Write + Unpin,
 {
     fn poll_pipe(&mut self, f: FutCtx<B>, cx: &mut Context<'_>) {
-        let ping = self.ping.clone();
+        let ping = f.ping;
 
         // A one-shot channel so that send_task can tell pipe_task to
         // reset the stream when the client cancels the request.
@@ -750,6 +753,7 @@ where
                         fut,
                         body_tx,
                         body,
+                        ping: self.ping.clone(),
                         cb,
                     };
 
-- 
2.43.0


From 2675d3d67c839a24097ffc870780c00382b257b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:22 +0000
Subject: [PATCH 21/23] fix: don't fail an HTTP/2 client connection whose
 window update isn't acknowledged yet

---
 src/proto/h2/client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 2ce671d..ec6ba00 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -239,7 +239,9 @@ where
         match this.ponger.poll(cx) {
             Poll::Ready(ping::Ponged::SizeUpdate(wnd)) => {
                 this.conn.set_target_window_size(wnd);
-                this.conn.set_initial_window_size(wnd)?;
+                // Fails while the peer hasn't acknowledged the previous value
+                // yet; the stream window is then adapted by a later sample.
+                let _ = this.conn.set_initial_window_size(wnd);
             }
             Poll::Ready(ping::Ponged::KeepAliveTimedOut) => {
                 debug!("connection keep-alive timed out");
-- 
2.43.0


From de5b50b9df8b81cbe1a55a1d0d51ef2f76563836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:18 +0000
Subject: [PATCH 22/23] fix: strip the fields named by every Connection line
 from HTTP/2 messages

---
 src/proto/h2/mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index f0db9b6..609ccd5 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -59,8 +59,9 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
     #[cfg(feature = "client")]
     if matches!(kind, MessageKind::Request) {
         if headers
-            .get(http::header::TE)
-            .map_or(false, |te_header| te_header != "trailers")
+            .get_all(http::header::TE)
+            .iter()
+            .any(|te_header| te_header != "trailers")
         {
             warn!("TE headers not set to \"trailers\" are illegal in HTTP/2 requests");
             headers.remove(http::header::TE);
@@ -69,21 +70,25 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
         warn!("TE headers illegal in HTTP/2 responses");
     }
 
-    if let Some(header) = headers.remove(CONNECTION) {
+    if let http::header::Entry::Occupied(entry) = headers.entry(CONNECTION) {
         warn!(
             "Connection header illegal in HTTP/2: {}",
             CONNECTION.as_str()
         );
-        // A `Connection` header may have a comma-separated list of names of other headers that
+        let (_, values) = entry.remove_entry_mult();
+        let values: Vec<_> = values.collect();
+        // `Connection` headers may have comma-separated lists of names of other headers that
         // are meant for only this specific connection.
         //
         // Iterate these names and remove them as headers. Connection-specific headers are
         // forbidden in HTTP2, as that information has been moved into frame types of the h2
         // protocol.
-        if let Ok(header_contents) = header.to_str() {
-            for name in header_contents.split(',') {
-                let name = name.trim();
-                headers.remove(name);
+        for header in values {
+            if let Ok(header_contents) = header.to_str() {
+                for name in header_contents.split(',') {
+                    let name = name.trim();
+                    headers.remove(name);
+                }
             }
         }
     }
-- 
2.43.0


From 81e52e416454922a11ecd46c6c84b0658f76c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:47 +0000
Subject: [PATCH 23/23] fix: strip connection-specific fields from HTTP/2
 trailers

---
 src/proto/h2/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index 609ccd5..2e018cf 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -45,6 +45,7 @@ enum MessageKind {
     Request,
     #[cfg(feature = "server")]
     Response,
+    Trailers,
 }
 
 fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
@@ -67,7 +68,7 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
             headers.remove(http::header::TE);
         }
     } else if headers.remove(http::header::TE).is_some() {
-        warn!("TE headers illegal in HTTP/2 responses");
+        warn!("TE headers illegal in HTTP/2 responses and trailers");
     }
 
     if let http::header::Entry::Occupied(entry) = headers.entry(CONNECTION) {
@@ -243,8 +244,12 @@ where
                     } else if frame.is_trailers() {
                         // no more DATA, so give any capacity back
                         me.body_tx.reserve_capacity(0);
+                        let mut trailers =
+                            frame.into_trailers().unwrap_or_else(|_| unreachable!());
+                        // h2 would refuse to send them, leaving the stream without an end
+                        strip_connection_headers(&mut trailers, MessageKind::Trailers);
                         me.body_tx
-                            .send_trailers(frame.into_trailers().unwrap_or_else(|_| unreachable!()))
+                            .send_trailers(trailers)
                             .map_err(crate::Error::new_body_write)?;
                         return Poll::Ready(Ok(()));
                     } else {
-- 
2.43.0

