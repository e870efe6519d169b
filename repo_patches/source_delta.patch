From 27b9319b8faacf1a91c3be4c09639cd07fe86f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 01/32] fix: end every Set-Cookie field with CRLF

The last cookie lacked its line end, so the blank line after the header
fields was missing and the body was taken for a header.
---
 src/responder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index 851bf8c..ec968fd 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -505,9 +505,8 @@ impl<'a> Response<'a> {
             &self
                 .cookies
                 .iter()
-                .map(|cookie| cookie.serialise())
-                .collect::<Vec<String>>()
-                .join(CRLF),
+                .map(|cookie| cookie.serialise() + CRLF)
+                .collect::<String>(),
         );
         headers_str
     }
-- 
2.43.0


From 1457f9bcb82db587fca03eb608d28fd0ebf0f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 02/32] fix: AsyncReader reports how much it read

The buffer was never advanced, so every file was sent as empty.
---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 9fadf91..3cf3608 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -64,7 +64,8 @@ impl<T: Read + Unpin> Deref for AsyncReader<T> {
 
 impl<T: Read + Unpin> AsyncRead for AsyncReader<T> {
     fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, buf: &mut ReadBuf) -> Poll<Result<()>> {
-        self.reader.read(buf.initialized_mut())?;
+        let read = self.reader.read(buf.initialize_unfilled())?;
+        buf.advance(read);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From 4cc70f92f0026ff9733f8f599f8e4b09e42b783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 03/32] fix: send_file sets Content-Length and Date like send
 does

---
 src/responder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/responder.rs b/src/responder.rs
index ec968fd..76ccb70 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -227,6 +227,7 @@ impl<'a> Response<'a> {
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
         self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
+        self.default_headers();
         Ok(Some(()))
     }
 
-- 
2.43.0


From d2d42e09038dcb8ceef6d5a3c68988d99ad489b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 04/32] fix: do not open paths that are not regular files

Opening a FIFO blocked the worker for ever instead of reporting an error.
---
 src/file_handler.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/file_handler.rs b/src/file_handler.rs
index e57a2e7..da876e7 100644
--- a/src/file_handler.rs
+++ b/src/file_handler.rs
@@ -3,7 +3,7 @@ use std::error::Error;
 use std::ffi::OsStr;
 use std::fmt;
 use std::fmt::{Display, Formatter};
-use std::fs::{File, Metadata};
+use std::fs::{metadata, File, Metadata};
 use std::path::PathBuf;
 
 /// The FileHandler structure is a helper struct
@@ -31,9 +31,10 @@ impl FileHandlerError {
 impl FileHandler {
     /// Takes a Pathbuf and returns a FileHandler struct
     pub fn handle_file(path: &PathBuf) -> Result<Self, Box<dyn Error>> {
-        if let Ok(file) = File::open(path) {
-            let meta = file.metadata()?;
+        if let Ok(meta) = metadata(path) {
             if meta.is_file() {
+                let file = File::open(path)?;
+                let meta = file.metadata()?;
                 let extension = path
                     .as_path()
                     .extension()
-- 
2.43.0


From 6565bbdcb4b896553d0da3f0752fc4c5f865143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 05/32] fix: spelling of application/octet-stream

---
 src/file_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_handler.rs b/src/file_handler.rs
index da876e7..0090755 100644
--- a/src/file_handler.rs
+++ b/src/file_handler.rs
@@ -79,7 +79,7 @@ impl FileHandler {
             "abw" => "application/x-abiword",
             "arc" => "application/x-freearc",
             "azw" => "application/vnd.amazon.ebook",
-            "bin" => "applcation/octet-stream",
+            "bin" => "application/octet-stream",
             "bz" => "application/x-bzip",
             "bz2" => "application/x-bzip2",
             "csh" => "application/x-csh",
-- 
2.43.0


From 6f1cfd61c31424537044cbd09a52f0248b7461b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 06/32] fix: answer malformed request lines and headers with
 400 instead of panicking

---
 src/server.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 7fb9528..dfd7940 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -172,8 +172,15 @@ impl Octane {
         let mut data = Vec::new();
         let parsed = Http1xReader::new(RawRequest1x::new(reader), &mut data).await;
         if let Ok((raw_headers, raw_request_line, body_remainder, reader_left)) = parsed {
-            let headers = Headers::parse(raw_headers).unwrap();
-            let request_line = RequestLine::parse(raw_request_line).unwrap();
+            let (headers, request_line) = match (
+                Headers::parse(raw_headers),
+                RequestLine::parse(raw_request_line),
+            ) {
+                (Some(headers), Some(request_line)) => (headers, request_line),
+                _ => {
+                    declare_error!(writer, StatusCode::BadRequest);
+                }
+            };
             if let Some(request) = Request::from_raw(
                 &headers,
                 request_line,
-- 
2.43.0


From 6e6459cf61947a5abb8b4789da3750b88f58fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 07/32] fix: RequestLine::parse returns None instead of
 panicking

Paths above the root and versions shorter than five bytes (or with a
multi-byte character there) panicked.
---
 src/request.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index dbbc713..37d840e 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -87,11 +87,11 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = match PathBuf::parse(toks.next()?) {
-            Ok(val) => val,
-            Err(e) => panic!("{:?}", e),
-        };
+        let path = PathBuf::parse(toks.next()?).ok()?;
         let version = toks.next()?;
+        if !version.is_char_boundary(5) {
+            return None;
+        }
         let (first, ver) = version.split_at(5);
         let enum_ver = match ver {
             "1.1" => HttpVersion::Http11,
-- 
2.43.0


From 7cec8efd1acba60cd1e481e5b78c82e80514c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 08/32] fix: refuse truncated bodies and read bodies as they
 come

A client that closed before the end of its body panicked the task, and
the whole declared length was allocated before a byte of it arrived.
---
 src/request.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 37d840e..d2a8a32 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -299,7 +299,7 @@ impl<'a> Request<'a> {
         mut body: &'a [u8],
         body_vec: &'a mut Vec<u8>,
         body_remainder: &'a [u8],
-        mut reader: ReadHalf<T>,
+        reader: ReadHalf<T>,
     ) -> Option<Request<'a>> {
         let body_len = headers
             .get("content-length")
@@ -307,11 +307,15 @@ impl<'a> Request<'a> {
             .unwrap_or(0);
         if body_len > 0 {
             if body_remainder.len() < body_len {
-                let mut temp: Vec<u8> = vec![0; body_len - body_remainder.len()];
-                reader.read_exact(&mut temp[..]).await.ok().unwrap();
-                *body_vec = Vec::with_capacity(body_len);
-                body_vec.extend_from_slice(body_remainder);
-                body_vec.extend_from_slice(&temp[..]);
+                *body_vec = body_remainder.to_vec();
+                reader
+                    .take((body_len - body_remainder.len()) as u64)
+                    .read_to_end(body_vec)
+                    .await
+                    .ok()?;
+                if body_vec.len() < body_len {
+                    return None;
+                }
                 body = &body_vec[..];
             } else {
                 body = body_remainder;
-- 
2.43.0


From b4a02f2e3210a5930462a539d3a5cdc2b81b1847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 09/32] fix: the body ends after Content-Length bytes

Whatever followed it in the same read was taken as part of the body.
---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index d2a8a32..fa20de5 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -318,7 +318,7 @@ impl<'a> Request<'a> {
                 }
                 body = &body_vec[..];
             } else {
-                body = body_remainder;
+                body = &body_remainder[..body_len];
             }
         } else {
             body = &[];
-- 
2.43.0


From 731ce79e2ab433fcaac2c2e5a81ac014b0fa7203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 10/32] fix: refuse an invalid Content-Length instead of taking
 it as 0

---
 src/request.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index fa20de5..0242a3a 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -301,10 +301,11 @@ impl<'a> Request<'a> {
         body_remainder: &'a [u8],
         reader: ReadHalf<T>,
     ) -> Option<Request<'a>> {
-        let body_len = headers
-            .get("content-length")
-            .and_then(|s| s.parse().ok())
-            .unwrap_or(0);
+        let body_len = match headers.get("content-length") {
+            Some(s) if s.bytes().all(|c| c.is_ascii_digit()) => s.parse().ok()?,
+            Some(_) => return None,
+            None => 0,
+        };
         if body_len > 0 {
             if body_remainder.len() < body_len {
                 *body_vec = body_remainder.to_vec();
-- 
2.43.0


From 9d3f3eb03fb43ff5726020fa6e891cb3a6acb16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 11/32] fix: a read error of a connection does not panic its
 task

---
 octane_http/src/http1x/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 59703d7..beb41d2 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -24,7 +24,12 @@ where
         let mut buf: [u8; 512] = [0; 512];
 
         loop {
-            let read = instance.raw_request.reader.read(&mut buf).await.unwrap();
+            let read = instance
+                .raw_request
+                .reader
+                .read(&mut buf)
+                .await
+                .map_err(|_| StatusCode::BadRequest)?;
             if read == 0 {
                 return Err(StatusCode::BadRequest);
             }
-- 
2.43.0


From 75a29cf4e157d5218ae4a6919c96b71a420c2ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 12/32] fix: accept requests without header fields

They are complete HTTP/1.0 requests, but were answered with 400.
---
 octane_http/src/http1x/mod.rs | 6 ++++--
 src/request.rs                | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index beb41d2..d663426 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -78,8 +78,10 @@ pub fn find_in_slice<T: Eq>(haystack: &[T], needle: &[T]) -> Option<usize> {
 
 // Helper function for extracting some headers
 pub(crate) fn parse_without_body(data: &str) -> Option<(&str, String)> {
-    let n = data.find("\r\n")?;
-    let (line, rest) = data.split_at(n);
+    let (line, rest) = match data.find("\r\n") {
+        Some(n) => data.split_at(n),
+        None => return Some((data, String::new())),
+    };
     let request_line = line;
     let headers = (&rest[2..]).to_owned();
     Some((request_line, headers))
diff --git a/src/request.rs b/src/request.rs
index 0242a3a..2afe0ce 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -204,7 +204,8 @@ pub struct Headers {
 impl Headers {
     /// Parse all the headers on a request
     pub(crate) fn parse(request: String) -> Option<Self> {
-        let toks = Spliterator::new(request.as_bytes(), B_CRLF);
+        let mut toks = Spliterator::new(request.as_bytes(), B_CRLF);
+        toks.finished = request.is_empty();
         let mut headers: HashMap<String, String> = HashMap::new();
         #[cfg(feature = "raw_headers")]
         let mut raw_headers: Vec<Header> = Vec::new();
-- 
2.43.0


From 8cf18575d992eaec92344976a58f1d6bbfb33edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 13/32] fix: skip malformed cookies instead of panicking

---
 src/cookie.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cookie.rs b/src/cookie.rs
index 201316e..922b52a 100644
--- a/src/cookie.rs
+++ b/src/cookie.rs
@@ -71,9 +71,9 @@ impl<'a> Cookie<'a> {
         let mut cookies_vec = Vec::new();
         let header_cookies = header.split("; ");
         for tok in header_cookies {
-            cookies_vec.push(Cookie {
-                cookie: CookieRs::parse(tok).unwrap(),
-            });
+            if let Ok(cookie) = CookieRs::parse(tok) {
+                cookies_vec.push(Cookie { cookie });
+            }
         }
         cookies_vec
     }
-- 
2.43.0


From 5ee89178ee9941ac1672b62607080b5d52cf205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 14/32] fix: the HTTP date abbreviation of September is Sep

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index e066d0f..6239c2a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -10,7 +10,7 @@ pub const CRLF: &str = "\r\n";
 pub const B_CRLF: &[u8] = b"\r\n";
 pub const WEEKS: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
 pub const MONTHS: [&str; 12] = [
-    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec",
+    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
 ];
 
 // constants for time.rs
-- 
2.43.0


From 8a5966a1f2c746abc5651ddab82ebf39136efacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 15/32] fix: 0x1f is a control character

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index b308960..a054686 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -438,7 +438,7 @@ deref!(MatchedPath<'a, T>, T, data);
 deref!(PathBuf, Vec<String>, chunks);
 
 pub fn is_ctl(c: char) -> bool {
-    c < '\x1f' || c == '\x7f'
+    c <= '\x1f' || c == '\x7f'
 }
 
 fn get_second<T>(tup: (PathChunk, PathNode<T>)) -> PathNode<T> {
-- 
2.43.0


From b43c1c10269127bd1297c749ff94d9bc5dcf0c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 16/32] fix: white space around and tabs inside header values

Trailing white space was kept as part of the value, and a tab inside it
made the request malformed.
---
 src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 2afe0ce..ced0770 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -152,8 +152,8 @@ impl Header {
                 TOKEN_CHARS.get(&c)?;
             }
         }
-        let value = toks.next()?.trim_start_matches(|c| c == SP || c == HT);
-        if cfg!(feature = "faithful") && value.chars().any(is_ctl) {
+        let value = toks.next()?.trim_matches(|c| c == SP || c == HT);
+        if cfg!(feature = "faithful") && value.chars().any(|c| c != HT && is_ctl(c)) {
             return None;
         }
         Some(Self {
-- 
2.43.0


From 5a5756ba922b0e7965cdd5b90fe2c6c52abdd8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 17/32] fix: split the query string off the path

It was kept as part of the last path segment, so routes did not match
requests with a query and get_query parsed the path instead of the query.
---
 src/request.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index ced0770..3fe547f 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -77,6 +77,8 @@ pub struct RequestLine {
     pub method: RequestMethod,
     /// The path of the request
     pub path: PathBuf,
+    /// The query string of the request, without the leading `?`
+    pub query: String,
     /// Http version of the request
     pub version: HttpVersion,
 }
@@ -87,7 +89,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = PathBuf::parse(toks.next()?).ok()?;
+        let mut target = toks.next()?.splitn(2, '?');
+        let path = PathBuf::parse(target.next()?).ok()?;
+        let query = target.next().unwrap_or("").to_owned();
         let version = toks.next()?;
         if !version.is_char_boundary(5) {
             return None;
@@ -119,6 +123,7 @@ impl RequestLine {
         Some(Self {
             method: request_method,
             path,
+            query,
             version: enum_ver,
         })
     }
@@ -342,14 +347,14 @@ impl<'a> Request<'a> {
     /// }));
     /// ```
     pub fn get_query(&self) -> HashMap<String, String> {
-        parse_query(&self.request_line.path.to_string())
+        parse_query(&self.request_line.query)
     }
 
     /// Parse the extended query and return the key value pairs in the form
     /// of an HashMap. See [`QueryValue`](../enum.QueryValue.html)
     #[cfg(feature = "extended_queries")]
     pub fn get_extended_query(&self) -> HashMap<String, QueryValue> {
-        parse_extended_query(&self.request_line.path.to_string())
+        parse_extended_query(&self.request_line.query)
     }
 }
 
-- 
2.43.0


From c837eb57e30a64da114219f0f468cc8b6dbc5d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 18/32] fix: a failed accept does not end the server

errors like ECONNABORTED or EMFILE concern one connection or pass, but
made listen() return.
---
 src/server_builder.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index 7a0a5fb..740140c 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -36,12 +36,17 @@ impl ServerBuilder {
         C: FnOnce(TcpStream, Arc<Octane>) -> T + Send + 'static + Copy,
     {
         while let Some(stream) = self.socket.next().await {
-            stream.map(|stream| {
-                let server = Arc::clone(&server);
-                task!({
-                    exec(stream, server).await;
-                })
-            })?;
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(_) => {
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
+            let server = Arc::clone(&server);
+            task!({
+                exec(stream, server).await;
+            });
         }
         Ok(())
     }
@@ -56,7 +61,13 @@ impl ServerBuilder {
         let acceptor = crate::tls::openssl::acceptor(&server.settings)?;
         while let Some(stream) = ssl_listener.next().await {
             let acceptor = acceptor.clone();
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(stream) => stream,
+                Err(_) => {
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
             let server = Arc::clone(&server);
 
             task!({
@@ -88,7 +99,13 @@ impl ServerBuilder {
 
             let server = Arc::clone(&server);
 
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(stream) => stream,
+                Err(_) => {
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
             task!({
                 let stream = acceptor.accept(tcp_stream).await;
                 if let Ok(stream_ssl) = stream {
-- 
2.43.0


From c8eeafac68342cf04cef53fca677684d3f903cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 19/32] fix: answers to HEAD have no body

---
 src/error.rs  | 16 ++++++++++------
 src/server.rs | 22 +++++++++++++---------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 52a58f3..ab99dc1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -32,20 +32,24 @@ pub struct InvalidCertError;
 #[macro_export]
 #[doc(hidden)]
 macro_rules! declare_error {
-    ($stream : expr, $error_type : expr) => {
-        Error::err($error_type, $stream).await?;
+    ($stream : expr, $error_type : expr, $head : expr) => {
+        Error::err($error_type, $stream, $head).await?;
         return Ok(());
     };
 }
 
 impl Error {
-    pub async fn err<S>(status_code: StatusCode, stream: S) -> Result<(), Box<dyn error::Error>>
+    pub async fn err<S>(
+        status_code: StatusCode,
+        stream: S,
+        head: bool,
+    ) -> Result<(), Box<dyn error::Error>>
     where
         S: AsyncWrite + Unpin,
     {
-        Error { kind: status_code }.send(stream).await
+        Error { kind: status_code }.send(stream, head).await
     }
-    async fn send<S>(self, stream: S) -> Result<(), Box<dyn error::Error>>
+    async fn send<S>(self, stream: S, head: bool) -> Result<(), Box<dyn error::Error>>
     where
         S: AsyncWrite + Unpin,
     {
@@ -55,7 +59,7 @@ impl Error {
             .set("Content-Type", "text/html");
 
         let response = res.get_data();
-        Octane::send(response, stream).await?;
+        Octane::send(response, stream, head).await?;
         Ok(())
     }
 }
diff --git a/src/server.rs b/src/server.rs
index dfd7940..d1b2871 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,7 +2,7 @@ use crate::config::{Config, OctaneConfig, Ssl};
 use crate::error::Error;
 use crate::http::Http;
 use crate::middlewares::Closures;
-use crate::request::{Headers, Request, RequestLine};
+use crate::request::{Headers, Request, RequestLine, RequestMethod};
 use crate::responder::{BoxReader, Response};
 use crate::router::{Closure, Route, Router, RouterResult};
 use crate::server_builder::ServerBuilder;
@@ -178,9 +178,10 @@ impl Octane {
             ) {
                 (Some(headers), Some(request_line)) => (headers, request_line),
                 _ => {
-                    declare_error!(writer, StatusCode::BadRequest);
+                    declare_error!(writer, StatusCode::BadRequest, false);
                 }
             };
+            let head = request_line.method == RequestMethod::Head;
             if let Some(request) = Request::from_raw(
                 &headers,
                 request_line,
@@ -196,36 +197,39 @@ impl Octane {
                 // Detect http version and validate
                 let checker = Http::validate(&request);
                 if checker.is_malformed() {
-                    declare_error!(writer, checker.err_code.unwrap());
+                    declare_error!(writer, checker.err_code.unwrap(), head);
                 }
                 if request_line.method.is_some() {
                     // run closures
                     server.router.run(request.clone(), &mut res);
                     if !res.has_body() {
-                        declare_error!(writer, StatusCode::NotFound);
+                        declare_error!(writer, StatusCode::NotFound, head);
                     }
 
-                    Octane::send(res.get_data(), writer).await?;
+                    Octane::send(res.get_data(), writer, head).await?;
                 } else {
-                    declare_error!(writer, StatusCode::NotImplemented);
+                    declare_error!(writer, StatusCode::NotImplemented, head);
                 }
             } else {
-                declare_error!(writer, StatusCode::BadRequest);
+                declare_error!(writer, StatusCode::BadRequest, head);
             }
         } else {
-            declare_error!(writer, parsed.err().unwrap());
+            declare_error!(writer, parsed.err().unwrap(), false);
         }
         Ok(())
     }
     pub(crate) async fn send<S>(
         mut response: (String, BoxReader),
         mut stream_async: S,
+        head: bool,
     ) -> Result<(), Box<dyn StdError>>
     where
         S: AsyncWrite + Unpin,
     {
         stream_async.write_all(response.0.as_bytes()).await?;
-        copy(&mut response.1, &mut stream_async).await?;
+        if !head {
+            copy(&mut response.1, &mut stream_async).await?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From fce5d5ec75316b763cdec3b783d86af7897f201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 20/32] fix: percent escapes are bytes of UTF-8 text

%C3%A9 was decoded to two characters instead of one.
---
 src/query.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index af56205..8d2d947 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -1,39 +1,39 @@
 use std::collections::HashMap;
 
 pub fn unescape_hex(string: &str) -> String {
-    let mut ret = "".to_owned();
+    let mut ret: Vec<u8> = Vec::new();
     let mut chars = string.chars();
     let mut peekable = DoublePeek::new(&mut chars);
     while let Some(val) = peekable.next() {
         if val != '%' {
-            ret.push(val);
+            ret.extend_from_slice(val.encode_utf8(&mut [0; 4]).as_bytes());
         } else {
             peekable.unpeek = true;
             let c1 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let c2 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let (h1, h2) = (from_hex(c1), from_hex(c2));
             if h1.is_none() || h2.is_none() {
-                ret.push('%');
+                ret.push(b'%');
                 continue;
             }
-            ret.push((h1.unwrap() * 16 + h2.unwrap()) as char);
+            ret.push(h1.unwrap() * 16 + h2.unwrap());
             peekable.next();
             peekable.next();
         }
     }
-    ret
+    String::from_utf8_lossy(&ret).into_owned()
 }
 
 pub struct DoublePeek<'a, T>
-- 
2.43.0


From a077354edeb04113287f86c08ddc994b238e0469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 21/32] fix: response header names are case-insensitive

res.set("content-type", ..) was sent along with the default Content-Type,
and other fields set in two spellings appeared twice.
---
 src/responder.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index 76ccb70..ebe624f 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -93,6 +93,7 @@ impl<'a> Response<'a> {
     /// );
     /// ```
     pub fn set(&mut self, key: &str, value: &str) -> &mut Self {
+        self.headers.retain(|name, _| !name.eq_ignore_ascii_case(key));
         self.headers.insert(key.to_owned(), value.to_owned());
         self
     }
@@ -114,7 +115,7 @@ impl<'a> Response<'a> {
     /// );
     /// ```
     pub fn get(&mut self, field: &'static str) -> Option<&String> {
-        self.headers.get(field)
+        self.header(field)
     }
     /// Puts the given text to the body and send it
     /// as html by default
@@ -147,13 +148,12 @@ impl<'a> Response<'a> {
     /// if no content header is sent
     pub fn default_headers(&mut self) -> &mut Self {
         if let Some(x) = self.content_len {
-            self.headers
-                .insert("Content-Length".to_string(), x.to_string());
+            self.set("Content-Length", &x.to_string());
         }
         if let Some(date) = Time::now() {
-            self.headers.insert("Date".to_string(), date.format());
+            self.set("Date", &date.format());
         }
-        if self.headers.get("Content-Type").is_none() {
+        if self.header("Content-Type").is_none() {
             let mut format = String::from("text/html");
             if let Some(charset) = &self.charset {
                 format.push_str(&format!(" ;charset={:?}", charset));
@@ -220,10 +220,7 @@ impl<'a> Response<'a> {
     /// ```
     pub fn send_file(&mut self, file: &str) -> Result<Option<()>, Box<dyn Error>> {
         let file = FileHandler::handle_file(&PathBuf::from(file))?;
-        self.headers.insert(
-            "Content-Type".to_string(),
-            FileHandler::mime_type(file.extension),
-        );
+        self.set("Content-Type", &FileHandler::mime_type(file.extension));
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
         self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
@@ -431,6 +428,13 @@ impl<'a> Response<'a> {
         self.charset = Some(charset.to_owned());
         self
     }
+    // Header names are case-insensitive
+    fn header(&self, field: &str) -> Option<&String> {
+        self.headers
+            .iter()
+            .find(|(name, _)| name.eq_ignore_ascii_case(field))
+            .map(|(_, value)| value)
+    }
     pub(crate) fn has_body(&self) -> bool {
         self.body.is_some()
     }
-- 
2.43.0


From f470220139c5d70d8b00d84739295021cb60e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 22/32] fix: no string can break out of its response header

Line ends in header names, values, cookies or the reason phrase added
fields of their own or ended the head.
---
 src/responder.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index ebe624f..cdc69cd 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -2,6 +2,7 @@ use crate::constants::*;
 #[cfg(feature = "cookies")]
 use crate::cookie::Cookie;
 use crate::file_handler::FileHandler;
+use crate::path::is_ctl;
 use crate::time::Time;
 use octane_http::{HttpVersion, StatusCode};
 use std::collections::HashMap;
@@ -494,7 +495,7 @@ impl<'a> Response<'a> {
             SP,
             self.status_code(),
             SP,
-            self.reason_phrase(),
+            one_line(&self.reason_phrase()),
             CRLF
         )
     }
@@ -503,20 +504,35 @@ impl<'a> Response<'a> {
         // push normal headers
         self.headers
             .iter()
-            .for_each(|data| headers_str.push_str(&format!("{}:{}{}{}", data.0, SP, data.1, CRLF)));
+            .filter(|data| is_token(data.0))
+            .for_each(|data| headers_str.push_str(&format!("{}:{}{}{}", data.0, SP, one_line(data.1), CRLF)));
         // push cookies
         #[cfg(feature = "cookies")]
         headers_str.push_str(
             &self
                 .cookies
                 .iter()
-                .map(|cookie| cookie.serialise() + CRLF)
+                .map(|cookie| one_line(&cookie.serialise()) + CRLF)
                 .collect::<String>(),
         );
         headers_str
     }
 }
 
+// Tells if the string can be sent as the name of a header
+fn is_token(name: &str) -> bool {
+    !name.is_empty() && name.chars().all(|c| TOKEN_CHARS.contains(&c))
+}
+
+// Replaces line ends and other control characters, with which a value
+// could add more headers or end them
+fn one_line(value: &str) -> String {
+    value
+        .chars()
+        .map(|c| if c != HT && is_ctl(c) { SP } else { c })
+        .collect()
+}
+
 #[cfg(feature = "cookies")]
 impl Default for Response<'_> {
     fn default() -> Self {
-- 
2.43.0


From 2cc9f4941d4d53cfc55d3840a95e7a2beb262b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 23/32] fix: allow address reuse before binding

Afterwards it has no effect, so a restarted server could not bind while
connections of the previous run lingered.
---
 src/server_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index 740140c..fc3914e 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -21,10 +21,10 @@ impl ServerBuilder {
         let stream = Type::stream();
         let socket = Socket::new(Domain::ipv4(), stream, None)?;
         socket.set_nonblocking(true)?;
+        socket.set_reuse_address(true)?;
         let bind_add = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(0, 0, 0, 0)), port);
         socket.bind(&SockAddr::from(bind_add))?;
         socket.listen(2048)?;
-        socket.set_reuse_address(true)?;
         Ok(ServerBuilder {
             socket: TcpListener::from_std(socket.into_tcp_listener())?,
         })
-- 
2.43.0


From 1ab397108fb19cd6c8d62e739f518b3c93becda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 24/32] fix: Http02 is version 2.0

---
 octane_http/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octane_http/src/lib.rs b/octane_http/src/lib.rs
index 0187819..a9fa5f6 100644
--- a/octane_http/src/lib.rs
+++ b/octane_http/src/lib.rs
@@ -43,7 +43,7 @@ impl ToString for HttpVersion {
             Self::Http11 => "1.1",
             Self::Http10 => "1.0",
             Self::Http09 => "0.9",
-            Self::Http02 => "0.2",
+            Self::Http02 => "2.0",
             _ => "",
         }
         .to_owned()
-- 
2.43.0


From 60542b7f97b378c16448adf4771b2ede799a684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:20 +0000
Subject: [PATCH 25/32] fix: answers to refused HEAD requests have no body

---
 src/server.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index d1b2871..f1c5cbd 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,7 +2,7 @@ use crate::config::{Config, OctaneConfig, Ssl};
 use crate::error::Error;
 use crate::http::Http;
 use crate::middlewares::Closures;
-use crate::request::{Headers, Request, RequestLine, RequestMethod};
+use crate::request::{Headers, Request, RequestLine};
 use crate::responder::{BoxReader, Response};
 use crate::router::{Closure, Route, Router, RouterResult};
 use crate::server_builder::ServerBuilder;
@@ -172,16 +172,16 @@ impl Octane {
         let mut data = Vec::new();
         let parsed = Http1xReader::new(RawRequest1x::new(reader), &mut data).await;
         if let Ok((raw_headers, raw_request_line, body_remainder, reader_left)) = parsed {
+            let head = raw_request_line.starts_with("HEAD ");
             let (headers, request_line) = match (
                 Headers::parse(raw_headers),
                 RequestLine::parse(raw_request_line),
             ) {
                 (Some(headers), Some(request_line)) => (headers, request_line),
                 _ => {
-                    declare_error!(writer, StatusCode::BadRequest, false);
+                    declare_error!(writer, StatusCode::BadRequest, head);
                 }
             };
-            let head = request_line.method == RequestMethod::Head;
             if let Some(request) = Request::from_raw(
                 &headers,
                 request_line,
@@ -214,7 +214,8 @@ impl Octane {
                 declare_error!(writer, StatusCode::BadRequest, head);
             }
         } else {
-            declare_error!(writer, parsed.err().unwrap(), false);
+            let err_code = parsed.err().unwrap();
+            declare_error!(writer, err_code, data.starts_with(b"HEAD "));
         }
         Ok(())
     }
-- 
2.43.0


From 7272c6da30638b2d31cf44612f3451978fff9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:11 +0000
Subject: [PATCH 26/32] fix: the JSON derives handle visibility, attributes,
 commas in types and where clauses

---
 octane_macros/src/json.rs | 129 +++++++++++++++++++-------------------
 1 file changed, 66 insertions(+), 63 deletions(-)

diff --git a/octane_macros/src/json.rs b/octane_macros/src/json.rs
index be8de88..706846e 100644
--- a/octane_macros/src/json.rs
+++ b/octane_macros/src/json.rs
@@ -1,5 +1,5 @@
 use crate::util::extend;
-use proc_macro::{Delimiter, Ident, TokenStream, TokenTree};
+use proc_macro::{Delimiter, TokenStream, TokenTree};
 
 pub struct StructInfo {
     name: String,
@@ -34,11 +34,12 @@ pub fn handle_derive<
     let mut generic_level = 0;
     let mut generics = Vec::new();
     let mut is_gen_name = true;
-    for tok in tok_iter {
+    let mut in_where = false;
+    while let Some(tok) = tok_iter.next() {
         if tok.to_string() == "<" {
             generic_level += 1;
         }
-        if generic_level == 1 {
+        if generic_level == 1 && !in_where {
             if is_gen_name {
                 if let TokenTree::Ident(i) = &tok {
                     generics.push(i.to_string());
@@ -69,6 +70,13 @@ pub fn handle_derive<
                     )
                 }
                 Delimiter::Parenthesis => {
+                    // the where clause of a tuple struct follows its fields
+                    for tok in tok_iter {
+                        match tok.to_string().as_str() {
+                            "where" | ";" => {}
+                            _ => extend(&mut where_between, tok),
+                        }
+                    }
                     return process_parens(
                         grp.stream(),
                         StructInfo {
@@ -84,6 +92,7 @@ pub fn handle_derive<
         }
         if tok.to_string() == "where" {
             cur = &mut where_between;
+            in_where = true;
             continue;
         }
         extend(cur, tok);
@@ -93,30 +102,62 @@ pub fn handle_derive<
         .unwrap()
 }
 
+/// Splits the body of a struct at its top level commas, those inside of
+/// generic arguments (`HashMap<K, V>`) belong to the field's type
+fn split_fields(toks: TokenStream) -> Vec<Vec<TokenTree>> {
+    let mut fields = vec![Vec::new()];
+    let mut level = 0;
+    let mut arrow = false;
+    for tok in toks {
+        let punct = match &tok {
+            TokenTree::Punct(p) => p.as_char(),
+            _ => ' ',
+        };
+        match punct {
+            '<' => level += 1,
+            '>' if !arrow => level -= 1,
+            _ => {}
+        }
+        arrow = punct == '-';
+        if punct == ',' && level == 0 {
+            fields.push(Vec::new());
+        } else if let Some(field) = fields.last_mut() {
+            field.push(tok);
+        }
+    }
+    fields.retain(|f| !f.is_empty());
+    fields
+}
+
+/// The name of a field, which is the identifier in front of the first colon,
+/// behind attributes and visibility
+fn field_name(field: &[TokenTree]) -> Option<String> {
+    let colon = field
+        .iter()
+        .position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':'))?;
+    match field.get(colon.checked_sub(1)?)? {
+        TokenTree::Ident(i) => Some(i.to_string()),
+        _ => None,
+    }
+}
+
+/// The name of a field in the json object
+fn json_name(field: &str) -> &str {
+    field.strip_prefix("r#").unwrap_or(field)
+}
+
 pub fn derive_from_json(toks: TokenStream) -> TokenStream {
     handle_derive(toks, fromjson_braces, fromjson_parens)
 }
 
 fn fromjson_braces(toks: TokenStream, mut info: StructInfo) -> TokenStream {
-    let mut fields: Vec<Ident> = Vec::new();
-    let mut is_field = true;
-    for tok in toks {
-        match tok {
-            TokenTree::Ident(ident) if is_field => {
-                is_field = false;
-                fields.push(ident);
-            }
-            TokenTree::Punct(p) if p.as_char() == ',' => {
-                is_field = true;
-            }
-            _ => {}
-        };
-    }
+    let fields: Vec<String> = split_fields(toks).iter().filter_map(|f| field_name(f)).collect();
     let mut vals = String::new();
     for field in fields {
         vals.push_str(&format!(
-            "{0}: crate::FromJSON::from_json(obj.remove({0:?})?)?,",
-            field.to_string()
+            "{}: crate::FromJSON::from_json(obj.remove({:?})?)?,",
+            field,
+            json_name(&field)
         ));
     }
     let mut gen_list: String = String::new();
@@ -175,20 +216,7 @@ fn fromjson_braces(toks: TokenStream, mut info: StructInfo) -> TokenStream {
 }
 
 fn fromjson_parens(toks: TokenStream, mut info: StructInfo) -> TokenStream {
-    let mut fields = 0;
-    let mut is_field = true;
-    for tok in toks {
-        match tok {
-            TokenTree::Ident(_) if is_field => {
-                is_field = false;
-                fields += 1;
-            }
-            TokenTree::Punct(p) if p.as_char() == ',' => {
-                is_field = true;
-            }
-            _ => {}
-        };
-    }
+    let fields = split_fields(toks).len();
     let mut vals = String::new();
     for _ in 0..fields {
         vals.push_str("crate::FromJSON::from_json(it.next()?)?,");
@@ -254,25 +282,13 @@ pub fn derive_to_json(toks: TokenStream) -> TokenStream {
 }
 
 fn tojson_braces(toks: TokenStream, mut info: StructInfo) -> TokenStream {
-    let mut fields: Vec<Ident> = Vec::new();
-    let mut is_field = true;
-    for tok in toks {
-        match tok {
-            TokenTree::Ident(ident) if is_field => {
-                is_field = false;
-                fields.push(ident);
-            }
-            TokenTree::Punct(p) if p.as_char() == ',' => {
-                is_field = true;
-            }
-            _ => {}
-        };
-    }
+    let fields: Vec<String> = split_fields(toks).iter().filter_map(|f| field_name(f)).collect();
     let mut vals = String::new();
     for field in fields {
         vals.push_str(&format!(
-            "obj.insert({0:?}.to_owned(), crate::ToJSON::to_json(self.{0})?);",
-            field.to_string()
+            "obj.insert({:?}.to_owned(), crate::ToJSON::to_json(self.{})?);",
+            json_name(&field),
+            field
         ));
     }
     let mut gen_list: String = String::new();
@@ -320,20 +336,7 @@ fn tojson_braces(toks: TokenStream, mut info: StructInfo) -> TokenStream {
 }
 
 fn tojson_parens(toks: TokenStream, mut info: StructInfo) -> TokenStream {
-    let mut fields = 0;
-    let mut is_field = true;
-    for tok in toks {
-        match tok {
-            TokenTree::Ident(_) if is_field => {
-                is_field = false;
-                fields += 1;
-            }
-            TokenTree::Punct(p) if p.as_char() == ',' => {
-                is_field = true;
-            }
-            _ => {}
-        };
-    }
+    let fields = split_fields(toks).len();
     let mut vals = String::new();
     for i in 0..fields {
         vals.push_str(&format!("arr.push(crate::ToJSON::to_json(self.{})?);", i));
-- 
2.43.0


From 0160f0ad5f31f6a5f4db3ac30a7714f23eb8edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:11 +0000
Subject: [PATCH 27/32] fix: octane::main takes the last braces of a function
 as its body

---
 octane_macros/src/stream_parser.rs | 33 +++++++++++-------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/octane_macros/src/stream_parser.rs b/octane_macros/src/stream_parser.rs
index cc8997d..54fa515 100644
--- a/octane_macros/src/stream_parser.rs
+++ b/octane_macros/src/stream_parser.rs
@@ -17,28 +17,19 @@ impl StreamParser {
         }
     }
     pub fn parse(mut self) -> Self {
-        let mut peekable = self.items.clone().into_iter().peekable();
+        let mut tokens: Vec<TokenTree> = self.items.clone().into_iter().collect();
+        // the body comes last, the signature may have braces as well
+        if let Some(TokenTree::Group(x)) = tokens.last() {
+            if let Delimiter::Brace = x.delimiter() {
+                self.rest = x.stream();
+                tokens.pop();
+            }
+        }
         let mut signature: Vec<TokenTree> = Vec::new();
-        while peekable.peek().is_some() {
-            let tt = peekable.peek().unwrap();
-            match tt {
-                TokenTree::Group(x) => {
-                    if let Delimiter::Brace = x.delimiter() {
-                        self.rest = x.stream();
-                        break;
-                    } else {
-                        signature.push(peekable.next().unwrap())
-                    }
-                }
-                TokenTree::Ident(x) => {
-                    if *x == "async" {
-                        self.is_async = true;
-                        peekable.next();
-                    } else {
-                        signature.push(peekable.next().unwrap());
-                    }
-                }
-                _ => signature.push(peekable.next().unwrap()),
+        for tt in tokens {
+            match &tt {
+                TokenTree::Ident(x) if *x == "async" => self.is_async = true,
+                _ => signature.push(tt),
             }
         }
         let final_sig: TokenStream = signature.into_iter().map(TokenStream::from).collect();
-- 
2.43.0


From 02c1f14cbd39f85e791899d006f1dd87fb976a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:11 +0000
Subject: [PATCH 28/32] fix: path! looks in the directory of the crate, not of
 the workspace

---
 octane_macros/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/octane_macros/src/lib.rs b/octane_macros/src/lib.rs
index 9746a14..fd0ed89 100644
--- a/octane_macros/src/lib.rs
+++ b/octane_macros/src/lib.rs
@@ -206,11 +206,14 @@ pub fn path(input: TokenStream) -> TokenStream {
         _ => panic!(),
     };
     let str_value: String = value.parse().unwrap();
-    let mut path = std::env::current_dir()
-        .unwrap()
-        .into_os_string()
-        .into_string()
-        .unwrap();
+    // cargo runs the compiler in the root of the workspace
+    let mut path = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_else(|_| {
+        std::env::current_dir()
+            .unwrap()
+            .into_os_string()
+            .into_string()
+            .unwrap()
+    });
     path.push_str(&str_value.replace("\"", ""));
     if !Path::new(&path).exists() {
         panic!("{} -> {}", "This directory or file doesn't exists", path);
-- 
2.43.0


From 1d6e6aae6b82b92d5eb0c5d2c6e2201ceddd5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:47 +0000
Subject: [PATCH 29/32] fix: the variables of octane::main are not visible in
 the body

---
 octane_macros/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/octane_macros/src/lib.rs b/octane_macros/src/lib.rs
index fd0ed89..28a5782 100644
--- a/octane_macros/src/lib.rs
+++ b/octane_macros/src/lib.rs
@@ -8,7 +8,8 @@ mod util;
 use crate::stream_parser::StreamParser;
 use proc_macro::TokenStream;
 use proc_macro::TokenTree;
-use quote::quote;
+use proc_macro2::Span;
+use quote::{quote, quote_spanned};
 use std::path::Path;
 
 /// Used to generate status codes with their number
@@ -127,7 +128,8 @@ pub fn main(_attr: TokenStream, item: TokenStream) -> TokenStream {
     }
     let signature = properties.signature;
     let rest = properties.rest;
-    let tokens = quote! {
+    // the body must not see the variables declared here
+    let tokens = quote_spanned! { Span::mixed_site() =>
         #signature {
             #compile_error
             let mut builder = tokio::runtime::Builder::new_multi_thread();
@@ -166,7 +168,8 @@ pub fn test(_attr: TokenStream, item: TokenStream) -> TokenStream {
     }
     let signature = properties.signature;
     let rest = properties.rest;
-    let tokens = quote! {
+    // the body must not see the variables declared here
+    let tokens = quote_spanned! { Span::mixed_site() =>
         #[test]
         #signature {
             #compile_error
-- 
2.43.0


From 4deb217ed17c79284b47d2472d1118c085c614a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:21 +0000
Subject: [PATCH 30/32] fix: the json feature compiles, json() has a length

---
 src/responder.rs | 9 +++++----
 src/time.rs      | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index cdc69cd..9f7783f 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -5,6 +5,8 @@ use crate::file_handler::FileHandler;
 use crate::path::is_ctl;
 use crate::time::Time;
 use octane_http::{HttpVersion, StatusCode};
+#[cfg(feature = "json")]
+use serde::Serialize;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt;
@@ -258,10 +260,9 @@ impl<'a> Response<'a> {
     /// ```
     #[cfg(feature = "json")]
     pub fn json<T: Serialize>(&mut self, structure: T) -> serde_json::Result<()> {
-        self.body =
-            ResBody::Unsized(Box::new(Cursor::new(serde_json::to_vec(structure))) as BoxReader);
-        self.with_type("application/json");
-        self.default_headers();
+        let body = serde_json::to_vec(&structure)?;
+        self.with_type("application/json").send(body);
+        Ok(())
     }
     /// Set the status code from the status code enum
     ///
diff --git a/src/time.rs b/src/time.rs
index 0a5534a..edb5250 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -71,7 +71,7 @@ impl Time {
     */
     fn week_day(&self) -> Option<String> {
         if let Some(week) = WEEKS.iter().enumerate().find(|(i, _)| {
-            if let Ok(week_day) = self.week.try_into() {
+            if let Ok::<usize, _>(week_day) = self.week.try_into() {
                 *i == week_day
             } else {
                 false
@@ -84,7 +84,7 @@ impl Time {
     }
     fn month_day(&self) -> Option<String> {
         if let Some(month) = MONTHS.iter().enumerate().find(|(i, _)| {
-            if let Ok(month_day) = self.month.try_into() {
+            if let Ok::<usize, _>(month_day) = self.month.try_into() {
                 *i == month_day
             } else {
                 false
-- 
2.43.0


From efff4347becad94ade8c8e48bf22d3a7b6e4d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:11 +0000
Subject: [PATCH 31/32] fix: answers without a body are flushed

Over rustls the head of an answer to HEAD can still be buffered when the
socket is full; without the copy of a body nothing flushed it.
---
 src/server.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.rs b/src/server.rs
index f1c5cbd..7ee84a7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -231,6 +231,7 @@ impl Octane {
         if !head {
             copy(&mut response.1, &mut stream_async).await?;
         }
+        stream_async.flush().await?;
         Ok(())
     }
 }
-- 
2.43.0


From 05ecfac5f1ad85b908af083a546d5c471fb8525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:30 +0000
Subject: [PATCH 32/32] fix: a file that grows while it is sent does not exceed
 its Content-Length

---
 src/responder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index 9f7783f..247469a 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -13,7 +13,7 @@ use std::fmt;
 use std::io::Cursor;
 use std::marker::PhantomData;
 use std::path::PathBuf;
-use tokio::io::AsyncRead;
+use tokio::io::{AsyncRead, AsyncReadExt};
 
 pub(crate) type BoxReader = Box<dyn AsyncRead + Unpin + Send>;
 
@@ -226,7 +226,7 @@ impl<'a> Response<'a> {
         self.set("Content-Type", &FileHandler::mime_type(file.extension));
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
-        self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
+        self.body = ResBody::Sized(len, Box::new(file.file.take(len as u64)) as BoxReader);
         self.default_headers();
         Ok(Some(()))
     }
-- 
2.43.0

