From 0303df2e3018fea5697c9afd07703cb7d6476772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 01/26] fix: refuse truncated and over-long variable-length
 integers

A varint that ended early was accepted with the bits read so far, and one
with too many bytes overflowed (a panic in debug builds, a wrong value
otherwise).
---
 spop/src/data/varint.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spop/src/data/varint.rs b/spop/src/data/varint.rs
index 612703d..d5d2de2 100644
--- a/spop/src/data/varint.rs
+++ b/spop/src/data/varint.rs
@@ -27,15 +27,19 @@ pub fn get<T: Buf>(mut buf: T) -> Option<u64> {
 
             while buf.has_remaining() {
                 let b = buf.get_u8();
-                n += (b as u64) << r;
+                let v = b as u64;
+                if r >= u64::BITS || v > u64::MAX >> r {
+                    return None;
+                }
+                n = n.checked_add(v << r)?;
                 r += 7;
 
                 if b < 0x80 {
-                    break;
+                    return Some(n);
                 }
             }
 
-            Some(n)
+            None
         }
     }
 }
-- 
2.43.0


From 2f2853fbf6b5ff312b560fbeca127d55fb95d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 02/26] fix: refuse frames with a malformed message, argument,
 action or item

The lists of a frame ended silently at the first element that could not be
decoded, so the rest of the frame was dropped and the frame accepted.
---
 spop/src/data/buf.rs     | 18 +++++++++++-------
 spop/src/frame/decode.rs | 29 ++++++++++++++++++-----------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/spop/src/data/buf.rs b/spop/src/data/buf.rs
index 2a12472..d7d461f 100644
--- a/spop/src/data/buf.rs
+++ b/spop/src/data/buf.rs
@@ -18,8 +18,8 @@ pub trait BufExt {
     /// Get a string.
     fn string(&mut self) -> Option<String>;
 
-    /// Get key-value list.
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)>;
+    /// Get key-value list, which yields `None` for a malformed pair.
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>>;
 }
 
 impl<T> BufExt for T
@@ -40,13 +40,10 @@ where
         String::from_utf8(b.to_vec()).ok()
     }
 
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)> {
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>> {
         iter::from_fn(move || {
             if self.has_remaining() {
-                let name = self.string()?;
-                let value = self.typed()?;
-
-                Some((name, value))
+                Some(key_value(&mut *self))
             } else {
                 None
             }
@@ -54,6 +51,13 @@ where
     }
 }
 
+fn key_value<T: Buf>(mut buf: T) -> Option<(String, Typed)> {
+    let name = buf.string()?;
+    let value = buf.typed()?;
+
+    Some((name, value))
+}
+
 fn get_bytes<T: Buf>(mut buf: T, n: usize) -> Option<Bytes> {
     (buf.remaining() >= n).then(|| buf.copy_to_bytes(n))
 }
diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index f5044f4..299bf47 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -73,7 +73,7 @@ fn metadata<B: Buf>(mut buf: B) -> Option<frame::Metadata> {
 }
 
 fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Hello {
         supported_versions: kv.supported_versions()?,
@@ -85,7 +85,7 @@ fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
 }
 
 fn agent_hello<B: Buf>(mut buf: B) -> Result<agent::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(agent::Hello {
         version: kv.version()?,
@@ -99,7 +99,9 @@ fn haproxy_notify<B: Buf>(buf: B, md: Metadata) -> Result<haproxy::Notify> {
         fragmented: md.fragmented(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        messages: list_of_messages(buf).collect::<Vec<_>>(),
+        messages: list_of_messages(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
@@ -109,12 +111,14 @@ fn agent_ack<B: Buf>(buf: B, md: Metadata) -> Result<agent::Ack> {
         aborted: md.aborted(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        actions: list_of_actions(buf).collect::<Vec<_>>(),
+        actions: list_of_actions(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
 fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Disconnect {
         status_code: kv.status_code(),
@@ -122,10 +126,10 @@ fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
     })
 }
 
-fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
+fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            message(&mut buf)
+            Some(message(&mut buf))
         } else {
             None
         }
@@ -135,15 +139,18 @@ fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
 fn message<B: Buf>(mut buf: B) -> Option<Message> {
     let name = buf.string()?;
     let nb = get_u8(&mut buf)?;
-    let args = buf.kv_list().take(nb as usize).collect();
+    let args = buf
+        .kv_list()
+        .take(nb as usize)
+        .collect::<Option<Vec<_>>>()?;
 
-    Some(Message { name, args })
+    (args.len() == nb as usize).then_some(Message { name, args })
 }
 
-fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Action> {
+fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Action>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            action(&mut buf)
+            Some(action(&mut buf))
         } else {
             None
         }
-- 
2.43.0


From 46c240afd5adaea43d9d9ab171ab660d7f5c89dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 03/26] fix: accept an empty capability list

An AGENT-HELLO or HAPROXY-HELLO without any capability, which this library
writes itself and HAProxy may send, was refused as invalid.
---
 spop/src/frame/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 299bf47..97dbd53 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -222,7 +222,9 @@ impl KVList {
         let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;
 
         s.split(',')
-            .map(|s| s.trim().parse())
+            .map(|s| s.trim())
+            .filter(|s| !s.is_empty())
+            .map(|s| s.parse())
             .collect::<StdResult<Vec<_>, _>>()
             .map_err(|_| Invalid)
     }
-- 
2.43.0


From ea5b207f6452a1ea71bb69c8facb7e15884aa2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 04/26] fix: flush the stream after writing a frame

On a buffering stream (TLS, BufWriter) a frame stayed in the buffer although
its write had completed, and the peer waited for it forever.
---
 spop/src/frame/framer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 6d5ef3c..155854c 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -50,6 +50,7 @@ impl Framer {
         pin_mut!(w);
 
         w.write_all(&buf).await.map_err(|_| Io)?;
+        w.flush().await.map_err(|_| Io)?;
 
         Ok(buf.len())
     }
-- 
2.43.0


From d636d1426848f17eb88b2ec9a031df9a1ee1f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 05/26] fix: size frame buffers by the frame, not by the
 configured limit

Every read and write allocated max_frame_size bytes, and a limit that large
(usize::MAX for "no limit") panicked with a capacity overflow.
---
 spop/src/frame/framer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 155854c..0f09a8d 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -8,7 +8,7 @@ use tracing::trace;
 
 use crate::{
     error::{Error::*, Result},
-    frame::{BufExt, BufMutExt, Frame},
+    frame::{BufExt, BufMutExt, Frame, MAX_FRAME_SIZE},
 };
 
 #[derive(Clone, Debug)]
@@ -29,7 +29,7 @@ impl Framer {
 
         let len = r.read_u32().await.map_err(|_| Io)? as usize;
         if len <= self.max_frame_size {
-            let mut buf = read_frame(r, self.max_frame_size, len).await?;
+            let mut buf = read_frame(r, len).await?;
 
             trace!(buf=%HexView::new(&buf));
 
@@ -43,7 +43,10 @@ impl Framer {
     where
         W: AsyncWrite + Sized,
     {
-        let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
+        let buf = write_frame(
+            BytesMut::with_capacity(self.max_frame_size.min(MAX_FRAME_SIZE)),
+            frame,
+        );
 
         trace!(buf=%HexView::new(&buf[4..]));
 
@@ -56,12 +59,11 @@ impl Framer {
     }
 }
 
-async fn read_frame<R>(mut r: Pin<&mut R>, max_frame_size: usize, len: usize) -> Result<Bytes>
+async fn read_frame<R>(mut r: Pin<&mut R>, len: usize) -> Result<Bytes>
 where
     R: AsyncRead + Sized,
 {
-    let mut buf = BytesMut::with_capacity(max_frame_size);
-    buf.resize(len, 0);
+    let mut buf = BytesMut::zeroed(len);
 
     r.read_exact(&mut buf).await.map_err(|_| Io)?;
 
-- 
2.43.0


From 7aec1a94e2a06bf5db5e2450468ac48f38a5a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 06/26] fix: do not write frames the peer cannot read

A frame above the maximum frame size, or a message with more than 255
arguments (whose count wrapped around), was written all the same; refuse it
as too big before anything reaches the stream.
---
 spop/src/frame/framer.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 0f09a8d..dc0439e 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -43,11 +43,18 @@ impl Framer {
     where
         W: AsyncWrite + Sized,
     {
+        check_args(&frame)?;
+
         let buf = write_frame(
             BytesMut::with_capacity(self.max_frame_size.min(MAX_FRAME_SIZE)),
             frame,
         );
 
+        let len = buf.len() - mem::size_of::<u32>();
+        if len > self.max_frame_size || u32::try_from(len).is_err() {
+            return Err(TooBig);
+        }
+
         trace!(buf=%HexView::new(&buf[4..]));
 
         pin_mut!(w);
@@ -59,6 +66,21 @@ impl Framer {
     }
 }
 
+/// The number of arguments of a message is sent as a single octet.
+fn check_args(frame: &Frame) -> Result<()> {
+    match frame {
+        Frame::HaproxyNotify(notify)
+            if notify
+                .messages
+                .iter()
+                .any(|msg| msg.args.len() > u8::MAX as usize) =>
+        {
+            Err(TooBig)
+        }
+        _ => Ok(()),
+    }
+}
+
 async fn read_frame<R>(mut r: Pin<&mut R>, len: usize) -> Result<Bytes>
 where
     R: AsyncRead + Sized,
-- 
2.43.0


From 5cc6f2213214a27c540690ccf73bf392688c6565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 07/26] fix: decode binary headers longer than 239 bytes and
 repeated headers

The lengths are variable-length integers, not octets, a repeated header
replaced the previous value, and more names than a HeaderMap can hold
panicked.
---
 spoa/src/req.rs | 7 ++++---
 spop/src/lib.rs | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index a943186..101e7f5 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -3,14 +3,14 @@ use std::iter;
 use bytes::Buf;
 use http::{HeaderMap, HeaderName, HeaderValue};
 
-use crate::error::Result;
+use crate::{error::Result, spop::varint};
 
 pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
     let mut hdrs = HeaderMap::new();
 
     let mut strs = iter::from_fn(|| {
         if b.has_remaining() {
-            let len = b.get_u8() as usize;
+            let len = varint::get(&mut b)? as usize;
             if b.remaining() >= len {
                 return Some(b.copy_to_bytes(len));
             }
@@ -24,7 +24,8 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
             break;
         }
 
-        hdrs.insert(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
+        hdrs.try_append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?)
+            .map_err(http::Error::from)?;
     }
 
     Ok(hdrs)
diff --git a/spop/src/lib.rs b/spop/src/lib.rs
index a2aaf2b..e34d28b 100644
--- a/spop/src/lib.rs
+++ b/spop/src/lib.rs
@@ -8,7 +8,7 @@ mod version;
 
 pub use self::action::{Action, Scope};
 pub use self::caps::Capability;
-pub use self::data::Typed;
+pub use self::data::{varint, Typed};
 pub use self::error::Error;
 pub use self::frame::{
     agent::{Ack as AgentAck, Disconnect as AgentDisconnect, Hello as AgentHello},
-- 
2.43.0


From a6c329f9c5c09ad4ae7ea3d8b2ccb21a57ade0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 08/26] fix: wake consumers waiting on the processor and
 message streams

Both streams returned Pending without registering the task, so a consumer
that had to wait was never woken, neither by an item nor by the end.
---
 spoa/src/runtime/processor.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/spoa/src/runtime/processor.rs b/spoa/src/runtime/processor.rs
index 15388eb..fb86f91 100644
--- a/spoa/src/runtime/processor.rs
+++ b/spoa/src/runtime/processor.rs
@@ -3,7 +3,7 @@ use std::task::{Context, Poll};
 
 use derive_more::{From, Into};
 use futures::Stream;
-use tokio::sync::mpsc::{error::TryRecvError::*, UnboundedReceiver};
+use tokio::sync::mpsc::UnboundedReceiver;
 
 use crate::{runtime::Acker, spop::Message};
 
@@ -13,12 +13,10 @@ pub struct Processor(pub UnboundedReceiver<(Acker, UnboundedReceiver<Message>)>)
 impl Stream for Processor {
     type Item = (Acker, Messages);
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok((acker, receiver)) => Poll::Ready(Some((acker, Messages(receiver)))),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0
+            .poll_recv(cx)
+            .map(|res| res.map(|(acker, receiver)| (acker, Messages(receiver))))
     }
 }
 
@@ -28,11 +26,7 @@ pub struct Messages(UnboundedReceiver<Message>);
 impl Stream for Messages {
     type Item = Message;
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok(res) => Poll::Ready(Some(res)),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0.poll_recv(cx)
     }
 }
-- 
2.43.0


From e6e7f6065d6185dc6fb80bac59154a669adc46af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 09/26] fix: do not truncate a maximum frame size above 32 bits

---
 spoa/src/state/connect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index 2b2c13a..bd68f62 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -52,7 +52,7 @@ where
         let handshaked = {
             negotiate(
                 runtime.supported_versions.clone(),
-                runtime.max_frame_size as u32,
+                u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX),
                 runtime.capabilities.clone(),
                 hello,
             )?
-- 
2.43.0


From 4fc7ee9a8c4475f33a8bf318fb9a9e6bf6f4b418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 10/26] fix: report a hello without a common version as an
 unsupported version

---
 spoa/src/state/handshake.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spoa/src/state/handshake.rs b/spoa/src/state/handshake.rs
index 6b71b81..76dd821 100644
--- a/spoa/src/state/handshake.rs
+++ b/spoa/src/state/handshake.rs
@@ -5,7 +5,7 @@ use tracing::instrument;
 
 use crate::{
     error::Result,
-    spop::{AgentHello, Capability, Error::NoVersion, HaproxyHello, Version},
+    spop::{AgentHello, Capability, Error::BadVersion, HaproxyHello, Version},
 };
 
 #[instrument(ret, err, level = "trace")]
@@ -23,7 +23,7 @@ pub fn negotiate(
         .into_iter()
         .rev()
         .find(|version| supported_versions.iter().rev().any(|v| v == version))
-        .ok_or(NoVersion)?;
+        .ok_or(BadVersion)?;
     let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size);
     let capabilities = hello
         .capabilities
-- 
2.43.0


From afc9831d84974c55db833035458afa02a6f8ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 11/26] fix: report which item a hello lacks

---
 spop/src/frame/framer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index dc0439e..0df1ba5 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -33,7 +33,7 @@ impl Framer {
 
             trace!(buf=%HexView::new(&buf));
 
-            buf.get_frame().map_err(|_| Invalid)
+            buf.get_frame()
         } else {
             Err(BadFrameSize)
         }
-- 
2.43.0


From 0db24dd5cd62bf30a7a6b2cb030d3cbd5cdd7ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 12/26] fix: answer an unreadable frame with a disconnect

---
 spoa/src/conn.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index e1f6136..6657135 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -74,7 +74,14 @@ where
                 }
 
                 frame = self.codec.read_frame() => {
-                    match state.handle_frame(frame?).await {
+                    let res = match frame {
+                        Ok(frame) => state.handle_frame(frame).await,
+                        // the peer is gone
+                        Err(Status::Io) => return Err(Status::Io.into()),
+                        Err(status) => Err(status.into()),
+                    };
+
+                    match res {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
                                 self.codec.write_frame(frame).await?;
-- 
2.43.0


From e6019e0549f915affd9121e62c6befb5ca4caff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 13/26] fix: refuse fragments when fragmentation was not
 negotiated

---
 spoa/src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c056a7b..aed27d2 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -58,6 +58,8 @@ where
             }) => {
                 let msgs = if let Some(ref reassembly) = self.reassembly {
                     reassembly.reassemble(fragmented, stream_id, frame_id, messages)?
+                } else if fragmented {
+                    return Err(FragmentNotSupported).context("fragmented notification");
                 } else {
                     Some(messages)
                 };
-- 
2.43.0


From c0438662aeb766d15fa8b6ea8334d7284b62b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 14/26] fix: tell the peer when an ACK is too big for a frame

---
 spoa/src/conn.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 6657135..0f7417a 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -84,7 +84,15 @@ where
                     match res {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
-                                self.codec.write_frame(frame).await?;
+                                match self.codec.write_frame(frame).await {
+                                    // nothing was sent
+                                    Err(Status::TooBig) => {
+                                        self.disconnect(Status::TooBig, Status::TooBig.to_string()).await?;
+                                        self.tok.cancel();
+                                        break;
+                                    }
+                                    res => res?,
+                                };
                             }
                             self.state = next;
                         }
-- 
2.43.0


From d071e1a7722328bc490cc2c14ca9b27679ebe728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 15/26] fix: send a shorter message rather than no disconnect

---
 spoa/src/conn.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 0f7417a..7615ec3 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -14,7 +14,7 @@ use tracing::instrument;
 use crate::runtime::Runtime;
 use crate::{
     error::Result,
-    spop::{Action, BufCodec, Codec, Error as Status, Frame, Framer, Message},
+    spop::{Action, BufCodec, Codec, Disconnect, Error as Status, Frame, Framer, Message},
     state::AsyncHandler,
     State,
 };
@@ -97,8 +97,19 @@ where
                             self.state = next;
                         }
                         Err(err) => {
-                            let frame = Frame::AgentDisconnect(err.into());
-                            self.codec.write_frame(frame).await?;
+                            let disconnect = Disconnect::from(err);
+                            let status = disconnect.status_code;
+                            let frame = Frame::AgentDisconnect(disconnect);
+                            match self.codec.write_frame(frame).await {
+                                // leave out a message that does not fit in a frame
+                                Err(Status::TooBig) => {
+                                    let status = Status::try_from(status).unwrap_or(Status::Unknown);
+                                    self.disconnect(status, status.to_string()).await?;
+                                }
+                                res => {
+                                    res?;
+                                }
+                            }
                             self.tok.cancel();
                             break;
                         }
-- 
2.43.0


From 0116833819e6345682ea33ec27c59b53e4063bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 16/26] fix: apply the negotiated maximum frame size

---
 spoa/src/conn.rs        | 7 +++++++
 spop/src/frame/codec.rs | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 7615ec3..6a13efd 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -84,6 +84,10 @@ where
                     match res {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
+                                let negotiated = match &frame {
+                                    Frame::AgentHello(hello) => Some(hello.max_frame_size as usize),
+                                    _ => None,
+                                };
                                 match self.codec.write_frame(frame).await {
                                     // nothing was sent
                                     Err(Status::TooBig) => {
@@ -93,6 +97,9 @@ where
                                     }
                                     res => res?,
                                 };
+                                if let Some(max_frame_size) = negotiated {
+                                    self.codec.set_max_frame_size(max_frame_size);
+                                }
                             }
                             self.state = next;
                         }
diff --git a/spop/src/frame/codec.rs b/spop/src/frame/codec.rs
index 7d2ae10..49b1183 100644
--- a/spop/src/frame/codec.rs
+++ b/spop/src/frame/codec.rs
@@ -34,6 +34,11 @@ where
         Self { stream, framer }
     }
 
+    /// Changes the maximum frame size of the frames to come, in both directions.
+    pub fn set_max_frame_size(&mut self, max_frame_size: usize) {
+        self.framer = Framer::new(max_frame_size);
+    }
+
     #[instrument(skip(self), ret, err, level = "trace")]
     pub async fn read_frame(&mut self) -> Result<Frame> {
         self.framer.read_frame(&mut self.stream).await
-- 
2.43.0


From daf893d3124270cd2dae267f2fa61939e7bc2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 17/26] fix: wait for the factory and the service to be ready
 before calling them

---
 spoa/src/runtime/runtime.rs | 5 +++++
 spoa/src/state/process.rs   | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index 7b85693..da8b983 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -1,4 +1,5 @@
 use std::error::Error as StdError;
+use std::future::poll_fn;
 use std::time::Duration;
 
 use tokio::sync::{mpsc::unbounded_channel, RwLock};
@@ -23,6 +24,10 @@ impl<S, T> ServiceMaker<S, T> {
         S::MakeError: StdError + Send + Sync + 'static,
         T: Clone,
     {
+        poll_fn(|cx| self.maker.poll_ready(cx))
+            .await
+            .context("make service")?;
+
         self.maker
             .make_service(self.state.clone())
             .await
diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index aed27d2..5098df2 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -1,4 +1,5 @@
 use std::fmt;
+use std::future::poll_fn;
 use std::sync::Arc;
 
 use derive_more::Debug;
@@ -65,7 +66,13 @@ where
                 };
 
                 if let Some(msgs) = msgs {
-                    match timeout(self.runtime.max_process_time, self.service.call(msgs)).await {
+                    let service = &mut self.service;
+                    let process = async {
+                        poll_fn(|cx| service.poll_ready(cx)).await?;
+                        service.call(msgs).await
+                    };
+
+                    match timeout(self.runtime.max_process_time, process).await {
                         Ok(res) => match res {
                             Ok(actions) => {
                                 let ack = Frame::ack(stream_id, frame_id, actions);
-- 
2.43.0


From e3b90e2de54440c2b6bcac223cb03f8e19287e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 18/26] fix: do not let one service creation block the others

---
 spoa/src/runtime/runtime.rs | 8 +++-----
 spoa/src/state/connect.rs   | 4 +++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index da8b983..6e3c5f2 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -18,7 +18,8 @@ pub struct ServiceMaker<S, T> {
 }
 
 impl<S, T> ServiceMaker<S, T> {
-    pub async fn make<REQ>(&mut self) -> Result<S::Service>
+    /// Starts making a service; the future returned does not borrow the maker.
+    pub async fn make<REQ>(&mut self) -> Result<S::Future>
     where
         S: MakeService<T, REQ>,
         S::MakeError: StdError + Send + Sync + 'static,
@@ -28,10 +29,7 @@ impl<S, T> ServiceMaker<S, T> {
             .await
             .context("make service")?;
 
-        self.maker
-            .make_service(self.state.clone())
-            .await
-            .context("make service")
+        Ok(self.maker.make_service(self.state.clone()))
     }
 }
 
diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index bd68f62..4be4b61 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -62,7 +62,9 @@ where
         let next = if is_healthcheck {
             State::Disconnecting
         } else {
-            let service = runtime.service_maker.write().await.make().await?;
+            // other connections may make theirs meanwhile
+            let making = runtime.service_maker.write().await.make().await?;
+            let service = making.await.context("make service")?;
 
             Processing::new(
                 runtime,
-- 
2.43.0


From aa9abcf09464fc8614d7efe82d5d1773c89b3637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 19/26] fix: accept a listener in blocking mode

---
 spoa/src/agent.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d70b63d..d438c62 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -27,6 +27,8 @@ pub struct Agent<S, T> {
 
 impl<S, T> Agent<S, T> {
     pub fn new(runtime: Arc<Runtime<S, T>>, listener: StdTcpListener) -> Result<Self> {
+        // tokio refuses a blocking one
+        listener.set_nonblocking(true)?;
         let listener = TcpListener::from_std(listener)?;
 
         Ok(Agent {
-- 
2.43.0


From 264026f37a4d91a96e3a3cc2408374d97c79f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 20/26] fix: keep accepting after a connection cannot be
 accepted

---
 spoa/src/agent.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d438c62..5a23498 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -2,15 +2,17 @@ use std::error::Error as StdError;
 use std::fmt;
 use std::net::TcpListener as StdTcpListener;
 use std::sync::Arc;
+use std::time::Duration;
 
 use tokio::{
     io::{AsyncRead, AsyncWrite},
     net::TcpListener,
     select,
+    time::sleep,
 };
 use tokio_util::{sync::CancellationToken, task::TaskTracker};
 use tower::{MakeService, Service};
-use tracing::{debug, instrument, trace};
+use tracing::{debug, instrument, trace, warn};
 
 use crate::{
     error::Result,
@@ -18,6 +20,9 @@ use crate::{
     Connection, Runtime,
 };
 
+/// How long to wait after a failure to accept a connection.
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(50);
+
 #[derive(Debug)]
 pub struct Agent<S, T> {
     runtime: Arc<Runtime<S, T>>,
@@ -67,7 +72,16 @@ where
                     break
                 }
 
-                Ok((stream, peer)) = self.listener.accept() => {
+                res = self.listener.accept() => {
+                    let (stream, peer) = match res {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            // wait, as running out of descriptors would fail again at once
+                            warn!(%err, "accept failed");
+                            sleep(ACCEPT_RETRY_DELAY).await;
+                            continue;
+                        }
+                    };
                     trace!(?peer, "accepted connection");
 
                     let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());
-- 
2.43.0


From 8c3cef866646ad56f877b1d8f8d14de20bc3c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 21/26] fix: accept no connection once a shutdown was requested

---
 spoa/src/agent.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index 5a23498..c28bc8a 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -67,6 +67,9 @@ where
     pub async fn serve(&self) -> Result<()> {
         loop {
             select! {
+                // a shutdown goes before the connections that wait
+                biased;
+
                 _ = self.shutdown.token.cancelled() => {
                     debug!("shutting down");
                     break
-- 
2.43.0


From eec516a98cf84e58b4e4d1abc7f6ec01fc9ccf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 22/26] fix: forget a fragment that cannot be dispatched

---
 spoa/src/runtime/dispatch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoa/src/runtime/dispatch.rs b/spoa/src/runtime/dispatch.rs
index 285121f..dbc5665 100644
--- a/spoa/src/runtime/dispatch.rs
+++ b/spoa/src/runtime/dispatch.rs
@@ -33,15 +33,15 @@ impl Dispatcher {
             match self.receiving.entry(key) {
                 Entry::Vacant(e) => {
                     let (sender, receiver) = unbounded_channel();
+                    let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);
+
+                    self.processing.send((acker, receiver))?;
 
+                    // more is expected only for what is being processed
                     if notify.fragmented {
                         e.insert(sender.clone());
                     }
 
-                    let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);
-
-                    self.processing.send((acker, receiver))?;
-
                     (sender, Some(acked))
                 }
                 Entry::Occupied(e) => {
-- 
2.43.0


From f4b3199ed81f00e9b5ddbbd6114616e0be345278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 23/26] fix: wait for the connections in every task that serves
 an agent

---
 spoa/src/agent.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index c28bc8a..7dbaeb0 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -96,7 +96,10 @@ where
             }
         }
 
-        if self.shutdown.tracker.close() && !self.shutdown.tracker.is_empty() {
+        // another task that serves may have closed it already
+        self.shutdown.tracker.close();
+
+        if !self.shutdown.tracker.is_empty() {
             debug!(
                 conns = self.shutdown.tracker.len(),
                 "waiting for shutting down"
-- 
2.43.0


From a936d073266de6012e8e0b62607b73b57c488e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 24/26] fix: ignore unknown capabilities instead of refusing
 the hello

---
 spop/src/frame/decode.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 97dbd53..5d2c391 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -221,12 +221,10 @@ impl KVList {
     pub fn capabilities(&mut self) -> Result<Vec<Capability>> {
         let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;
 
-        s.split(',')
-            .map(|s| s.trim())
-            .filter(|s| !s.is_empty())
-            .map(|s| s.parse())
-            .collect::<StdResult<Vec<_>, _>>()
-            .map_err(|_| Invalid)
+        // unknown capabilities are silently ignored
+        Ok(s.split(',')
+            .filter_map(|s| s.trim().parse().ok())
+            .collect())
     }
 
     pub fn status_code(&mut self) -> u32 {
-- 
2.43.0


From ecebda57484ff0cc0b271f0b31985f94519400a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 25/26] fix: share the open notifications between the clones of
 a dispatcher

---
 spoa/src/runtime/dispatch.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spoa/src/runtime/dispatch.rs b/spoa/src/runtime/dispatch.rs
index dbc5665..2fcecaa 100644
--- a/spoa/src/runtime/dispatch.rs
+++ b/spoa/src/runtime/dispatch.rs
@@ -1,3 +1,5 @@
+use std::sync::Arc;
+
 use dashmap::{DashMap, Entry};
 use tokio::sync::{
     mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender},
@@ -13,14 +15,14 @@ use crate::{
 #[derive(Debug, Clone)]
 pub struct Dispatcher {
     processing: UnboundedSender<(Acker, UnboundedReceiver<Message>)>,
-    receiving: DashMap<(StreamId, FrameId), UnboundedSender<Message>>,
+    receiving: Arc<DashMap<(StreamId, FrameId), UnboundedSender<Message>>>,
 }
 
 impl Dispatcher {
     pub fn new(processing: UnboundedSender<(Acker, UnboundedReceiver<Message>)>) -> Self {
         Self {
             processing,
-            receiving: DashMap::new(),
+            receiving: Arc::new(DashMap::new()),
         }
     }
 
-- 
2.43.0


From 3396e1a4fd8347ce49942b823ba01fce0f093dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 26/26] fix: take a maximum frame size above 32 bits as no
 limit

---
 spop/src/frame/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 5d2c391..b7660f0 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -214,7 +214,7 @@ impl KVList {
 
     pub fn max_frame_size(&mut self) -> Result<u32> {
         self.uint(kv::MAX_FRAME_SIZE_KEY)
-            .map(|n| n as u32)
+            .map(|n| u32::try_from(n).unwrap_or(u32::MAX))
             .ok_or(NoFrameSize)
     }
 
-- 
2.43.0

