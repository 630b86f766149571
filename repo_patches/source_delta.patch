From cb4461bf5697f9091a76621bf05399ae11d566cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 01/12] fix: return the params of a custom request from
 Request::params

It returned the method name.
---
 bsp-server/src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index afe6733..cb45ab1 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -112,7 +112,7 @@ impl Request {
             BuildTargetCompile(_, ref params) => serde_json::to_value(params),
             BuildTargetTest(_, ref params) => serde_json::to_value(params),
             BuildTargetCleanCache(_, ref params) => serde_json::to_value(params),
-            Custom(_, ref params, _) => serde_json::to_value(params),
+            Custom(_, _, ref params) => serde_json::to_value(params),
         };
 
         Ok(value?)
-- 
2.43.0


From 946e32c7c8be3e5a097c3d5a1d05cc53aa781c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 02/12] fix: accept requests without params

The test for the methods that need none could never succeed, so that even
build/shutdown as serialized by this crate was rejected as a request and
taken for a response.
---
 bsp-server/src/request.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index cb45ab1..36cd991 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -425,18 +425,8 @@ impl<'de> Deserialize<'de> for Request {
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
                 let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/shutdown"
-                            || &method != "workspace/buildTargets"
-                            || &method != "workspace/reload"
-                        {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                // absent params and null params are the same
+                let params = params.unwrap_or(Value::Null);
 
                 Ok(match method.as_str() {
                     "build/initialize" => Request::InitializeBuild(id, de(params)?),
-- 
2.43.0


From cb155ca8b3ebccf140287673aa06da9e8f041e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 03/12] fix: accept custom notifications without params

They made the reader fail and so ended the connection.
---
 bsp-server/src/notification.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index ac4ee9c..092833c 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -232,15 +232,8 @@ impl<'de> Deserialize<'de> for Notification {
                 }
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/exit" && &method != "build/initialized" {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                // absent params and null params are the same
+                let params = params.unwrap_or(serde_json::Value::Null);
 
                 fn de<'a, T: Deserialize<'a>, E: DeError>(p: serde_json::Value) -> Result<T, E> {
                     T::deserialize(p).map_err(DeError::custom)
-- 
2.43.0


From e46501b18b65e4f71524436780e7bdbc69984f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 04/12] fix: report socket read and write failures instead of
 panicking

The reader and writer threads of a TCP connection panicked where those of
a stdio connection return the error.
---
 bsp-server/src/transporter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 890f89f..4ffdd93 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -50,7 +50,7 @@ impl Transporter {
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
-                while let Some(msg) = Message::read(&mut buf_read).unwrap() {
+                while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                     reader_sender.send(msg).unwrap();
                     if is_exit {
@@ -68,8 +68,7 @@ impl Transporter {
             let writer = thread::spawn(move || {
                 writer_receiver
                     .into_iter()
-                    .try_for_each(|it| it.write(&mut stream))
-                    .unwrap();
+                    .try_for_each(|it| it.write(&mut stream))?;
                 Ok(())
             });
             (writer_sender, writer)
-- 
2.43.0


From 3e159f583a01839f901a9c0a3312094f0ee62a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 05/12] fix: do not panic in the reader thread when the
 connection was dropped

A message that arrives after the application has dropped its connection
made the reader thread panic; it now ends with an error.
---
 bsp-server/src/transporter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 4ffdd93..bdaa7c9 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -7,6 +7,13 @@ use crate::Notification;
 use super::{IoThreads, Message};
 use crossbeam_channel::{bounded, Receiver, Sender};
 
+/// Hand a message that was read over to the application.
+fn forward(sender: &Sender<Message>, msg: Message) -> io::Result<()> {
+    sender
+        .send(msg)
+        .map_err(|err| io::Error::new(io::ErrorKind::BrokenPipe, err.to_string()))
+}
+
 pub struct Transporter(pub Sender<Message>, pub Receiver<Message>, pub IoThreads);
 
 impl Transporter {
@@ -31,7 +38,7 @@ impl Transporter {
                     _ => false,
                 };
 
-                reader_sender.send(msg).unwrap();
+                forward(&reader_sender, msg)?;
 
                 if is_exit {
                     break;
@@ -52,7 +59,7 @@ impl Transporter {
                 let mut buf_read = io::BufReader::new(stream);
                 while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
-                    reader_sender.send(msg).unwrap();
+                    forward(&reader_sender, msg)?;
                     if is_exit {
                         break;
                     }
-- 
2.43.0


From 24234fac55276030c483b8419136341e9fe786b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 06/12] fix: join the writer thread even when reading failed

IoThreads::join returned the reader's error at once, so that a process
that exits then lost messages whose sends had succeeded.
---
 bsp-server/src/io_thread.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/io_thread.rs b/bsp-server/src/io_thread.rs
index 914ed1e..9092cd5 100644
--- a/bsp-server/src/io_thread.rs
+++ b/bsp-server/src/io_thread.rs
@@ -15,14 +15,18 @@ impl IoThreads {
     }
 
     pub fn join(self) -> io::Result<()> {
-        match self.reader.join() {
+        // Both threads have to end, whatever the result of the first: the
+        // writer may still have messages to write.
+        let reader = self.reader.join();
+        let writer = self.writer.join();
+        match reader {
             Ok(r) => r?,
             Err(err) => {
                 println!("reader panicked!");
                 std::panic::panic_any(err)
             }
         }
-        match self.writer.join() {
+        match writer {
             Ok(r) => r,
             Err(err) => {
                 println!("writer panicked!");
-- 
2.43.0


From 76f3850de49dc0c83d9bb75c7a9506e85012decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 07/12] fix: report input that ends inside a message header

Only an end between messages is a clean one; an end after some header
lines was taken for one, too.
---
 bsp-server/src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 13bf3a8..4e860e8 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -58,12 +58,17 @@ macro_rules! invalid_data { ($($tt:tt)*) => (invalid_data(format!($($tt)*))) }
 fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     let mut size = None;
     let mut buf = String::new();
+    let mut in_header = false;
 
     loop {
         buf.clear();
         if inp.read_line(&mut buf)? == 0 {
+            if in_header {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             return Ok(None);
         }
+        in_header = true;
         if !buf.ends_with("\r\n") {
             return Err(invalid_data!("malformed header: {:?}", buf));
         }
-- 
2.43.0


From 4fbf1e3aaab7c7f1957204a3e34e0245fe366968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 08/12] fix: report a closed connection during initialize
 instead of panicking

---
 bsp-server/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 77eb46a..bd29652 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -133,7 +133,7 @@ impl Connection {
                     tracing::error!("{}", msg);
                     self.sender
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
-                        .unwrap();
+                        .map_err(|e| ProtocolError(e.to_string()))?;
                 }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
@@ -157,7 +157,9 @@ impl Connection {
         initialize_result: V,
     ) -> Result<(), ProtocolError> {
         let resp = Response::ok(initialize_id, initialize_result);
-        self.sender.send(resp.into()).unwrap();
+        self.sender
+            .send(resp.into())
+            .map_err(|e| ProtocolError(e.to_string()))?;
         match &self.receiver.recv() {
             Ok(Message::Notification(Notification::Initialized)) => (),
             Ok(msg) => {
-- 
2.43.0


From bf8f7b9f580393768b1eec8006e65fffc787ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 09/12] fix: drop notifications that arrive before the
 initialize request

---
 bsp-server/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index bd29652..d3a6561 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -135,6 +135,10 @@ impl Connection {
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
                         .map_err(|e| ProtocolError(e.to_string()))?;
                 }
+                // Notifications before initialize are dropped, except for exit
+                Ok(Message::Notification(msg)) if !matches!(msg, Notification::Exit) => {
+                    tracing::error!("expected initialize request, got {:?}", msg);
+                }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
                     tracing::error!("{}", msg);
-- 
2.43.0


From 43344903345e7fa9b911601d282dd163f675500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 10/12] fix: report a failing descriptor duplication instead of
 panicking

---
 bsp-server/src/lib.rs         | 4 ++--
 bsp-server/src/transporter.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index d3a6561..616a2d3 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -52,7 +52,7 @@ impl Connection {
     /// This call blocks until a connection is established.
     pub fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let stream = TcpStream::connect(addr)?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
@@ -61,7 +61,7 @@ impl Connection {
     pub fn listen<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let listener = TcpListener::bind(addr)?;
         let (stream, _) = listener.accept()?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index bdaa7c9..986daa0 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -51,9 +51,9 @@ impl Transporter {
     }
 
     /// Creates an BSP connection via socket.
-    pub fn socket(stream: TcpStream) -> Self {
+    pub fn socket(stream: TcpStream) -> io::Result<Self> {
         let (reader_receiver, reader) = {
-            let stream = stream.try_clone().unwrap();
+            let stream = stream.try_clone()?;
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
@@ -70,7 +70,7 @@ impl Transporter {
         };
 
         let (writer_sender, writer) = {
-            let mut stream = stream.try_clone().unwrap();
+            let mut stream = stream;
             let (writer_sender, writer_receiver) = bounded::<Message>(0);
             let writer = thread::spawn(move || {
                 writer_receiver
@@ -82,6 +82,6 @@ impl Transporter {
         };
 
         let io_threads = IoThreads::new(reader, writer);
-        Self(writer_sender, reader_receiver, io_threads)
+        Ok(Self(writer_sender, reader_receiver, io_threads))
     }
 }
-- 
2.43.0


From e094c5c390d730b1cd5c79c07d8ed9a76c6513f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:23 +0000
Subject: [PATCH 11/12] fix: do not allocate the announced message length
 before it arrives

A peer could abort or panic the process with a huge Content-Length.
---
 bsp-server/src/message.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 4e860e8..e6f68b7 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -2,7 +2,7 @@ use crate::Notification;
 use crate::Request;
 use crate::Response;
 use serde::{Deserialize, Serialize};
-use std::io;
+use std::io::{self, Read};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 #[serde(untagged)]
@@ -87,10 +87,11 @@ fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     }
 
     let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
-    let mut buf = buf.into_bytes();
-
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    // Let the buffer grow with what arrives: the announced size is not to be trusted.
+    let mut buf = Vec::new();
+    if inp.take(size as u64).read_to_end(&mut buf)? < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
 
     Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))
 }
-- 
2.43.0


From 97c4e0a38a9da478e5a07c8a7e388638d698dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:57 +0000
Subject: [PATCH 12/12] fix: tell the kind of a message by its members

A request whose params or id do not fit was taken for a response or a
notification, and an array for a response.
---
 bsp-server/src/message.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index e6f68b7..feb0f51 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -1,10 +1,11 @@
 use crate::Notification;
 use crate::Request;
 use crate::Response;
-use serde::{Deserialize, Serialize};
+use serde::{de::Error as DeError, Deserialize, Deserializer, Serialize};
+use serde_json::{Map, Value};
 use std::io::{self, Read};
 
-#[derive(Serialize, Deserialize, Debug, Clone)]
+#[derive(Serialize, Debug, Clone)]
 #[serde(untagged)]
 pub enum Message {
     Request(Request),
@@ -12,6 +13,26 @@ pub enum Message {
     Notification(Notification),
 }
 
+// The members of a message tell its kind: one that does not fit its own kind
+// must not pass for another.
+impl<'de> Deserialize<'de> for Message {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let msg = Map::deserialize(deserializer)?;
+        let has = |name| msg.get(name).map_or(false, |value| !Value::is_null(value));
+        let (id, method) = (has("id"), has("method"));
+        let msg = Value::Object(msg);
+        match (id, method) {
+            (true, true) => Request::deserialize(msg).map(Message::Request),
+            (false, true) => Notification::deserialize(msg).map(Message::Notification),
+            (_, false) => Response::deserialize(msg).map(Message::Response),
+        }
+        .map_err(DeError::custom)
+    }
+}
+
 #[derive(Serialize)]
 struct JsonRpc {
     jsonrpc: &'static str,
-- 
2.43.0

