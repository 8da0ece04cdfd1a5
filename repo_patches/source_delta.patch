From d991e7d7ddee28e053052244e9b8dd841a096d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:03 +0000
Subject: [PATCH 01/43] Add virtual clock for verification builds of yamux

Built only with --cfg p2p_verif; the timers and Instant of the session then
follow a clock the test driver moves.
---
 yamux/src/lib.rs     |   3 +
 yamux/src/session.rs |  15 ++--
 yamux/src/verif.rs   | 190 +++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 202 insertions(+), 6 deletions(-)
 create mode 100644 yamux/src/verif.rs

diff --git a/yamux/src/lib.rs b/yamux/src/lib.rs
index bf9b464..5424042 100644
--- a/yamux/src/lib.rs
+++ b/yamux/src/lib.rs
@@ -15,6 +15,9 @@ pub mod session;
 // Stream module
 mod control;
 pub mod stream;
+// Virtual clock for verification builds
+#[cfg(p2p_verif)]
+pub mod verif;
 
 // Stream ID type
 pub(crate) type StreamId = u32;
diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index ecf7ea0..9e41ca4 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -1,6 +1,6 @@
 //! The session, can open and manage substreams
 
-#[cfg(not(target_arch = "wasm32"))]
+#[cfg(not(any(target_arch = "wasm32", p2p_verif)))]
 use std::time::Instant;
 use std::{
     collections::{hash_map::Entry, BTreeMap, HashMap, HashSet, VecDeque},
@@ -9,7 +9,7 @@ use std::{
     task::{Context, Poll},
     time::Duration,
 };
-#[cfg(target_arch = "wasm32")]
+#[cfg(any(target_arch = "wasm32", p2p_verif))]
 use timer::Instant;
 
 use futures::{
@@ -687,12 +687,15 @@ where
 }
 
 mod timer {
-    #[cfg(feature = "generic-timer")]
+    #[cfg(p2p_verif)]
+    pub use crate::verif::{interval, Instant, Interval};
+
+    #[cfg(all(feature = "generic-timer", not(p2p_verif)))]
     pub use generic_time::{interval, Interval};
-    #[cfg(feature = "tokio-timer")]
+    #[cfg(all(feature = "tokio-timer", not(p2p_verif)))]
     pub use tokio::time::Interval;
 
-    #[cfg(feature = "tokio-timer")]
+    #[cfg(all(feature = "tokio-timer", not(p2p_verif)))]
     pub fn interval(period: ::std::time::Duration) -> Interval {
         use tokio::time::{self, interval_at};
 
@@ -702,7 +705,7 @@ mod timer {
     #[cfg(target_arch = "wasm32")]
     pub use wasm_mock::Instant;
 
-    #[cfg(feature = "generic-timer")]
+    #[cfg(all(feature = "generic-timer", not(p2p_verif)))]
     mod generic_time {
         use futures::{Future, Stream};
         use futures_timer::Delay;
diff --git a/yamux/src/verif.rs b/yamux/src/verif.rs
new file mode 100644
index 0000000..e442274
--- /dev/null
+++ b/yamux/src/verif.rs
@@ -0,0 +1,190 @@
+//! Virtual clock used only when built with `--cfg p2p_verif`.
+//!
+//! Time stands still until the owner of the thread moves it, timers fire in deadline order
+//! and wake their tasks the way the real timer driver does: only a timer that was polled and
+//! found pending wakes its task when it becomes due.
+
+use std::{
+    cell::{Cell, RefCell},
+    collections::BTreeMap,
+    future::Future,
+    pin::Pin,
+    task::{Context, Poll, Waker},
+    time::Duration,
+};
+
+use futures::Stream;
+
+thread_local! {
+    static NOW: Cell<u64> = Cell::new(0);
+    static NEXT_ID: Cell<u64> = Cell::new(0);
+    static TIMERS: RefCell<BTreeMap<(u64, u64), Waker>> = RefCell::new(BTreeMap::new());
+}
+
+/// Forget all timers and set the clock to zero
+pub fn reset() {
+    NOW.with(|n| n.set(0));
+    NEXT_ID.with(|n| n.set(0));
+    let old = TIMERS.with(|t| std::mem::replace(&mut *t.borrow_mut(), BTreeMap::new()));
+    drop(old);
+}
+
+/// Nanoseconds since `reset`
+pub fn now() -> u64 {
+    NOW.with(|n| n.get())
+}
+
+/// The earliest deadline some task is waiting for
+pub fn next_deadline() -> Option<u64> {
+    TIMERS.with(|t| t.borrow().keys().next().map(|k| k.0))
+}
+
+/// Move the clock forward and wake the tasks whose timers became due, in order of deadline
+pub fn advance_to(time: u64) {
+    if time > now() {
+        NOW.with(|n| n.set(time));
+    }
+    loop {
+        let waker = TIMERS.with(|t| {
+            let mut t = t.borrow_mut();
+            let key = t.keys().next().cloned()?;
+            if key.0 <= now() {
+                t.remove(&key)
+            } else {
+                None
+            }
+        });
+        match waker {
+            Some(waker) => waker.wake(),
+            None => break,
+        }
+    }
+}
+
+/// A point on the virtual clock
+#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
+pub struct Instant(u64);
+
+impl Instant {
+    /// Current virtual time
+    pub fn now() -> Self {
+        Instant(now())
+    }
+
+    /// Virtual time passed since this instant
+    pub fn elapsed(&self) -> Duration {
+        Duration::from_nanos(now() - self.0)
+    }
+
+    /// Time between two instants
+    pub fn duration_since(&self, earlier: Instant) -> Duration {
+        Duration::from_nanos(self.0 - earlier.0)
+    }
+}
+
+impl std::ops::Add<Duration> for Instant {
+    type Output = Instant;
+
+    fn add(self, other: Duration) -> Instant {
+        Instant(self.0.saturating_add(other.as_nanos() as u64))
+    }
+}
+
+impl std::ops::Sub<Instant> for Instant {
+    type Output = Duration;
+
+    fn sub(self, other: Instant) -> Duration {
+        self.duration_since(other)
+    }
+}
+
+/// Completes at a point of virtual time
+#[derive(Debug)]
+pub struct Delay {
+    id: u64,
+    deadline: u64,
+}
+
+impl Delay {
+    /// Completes after `dur`
+    pub fn new(dur: Duration) -> Self {
+        let id = NEXT_ID.with(|n| {
+            n.set(n.get() + 1);
+            n.get()
+        });
+        Delay {
+            id,
+            deadline: now().saturating_add(dur.as_nanos() as u64),
+        }
+    }
+
+    /// Set a new deadline
+    pub fn reset(&mut self, deadline: u64) {
+        self.cancel();
+        self.deadline = deadline;
+    }
+
+    /// The deadline
+    pub fn deadline(&self) -> u64 {
+        self.deadline
+    }
+
+    fn cancel(&mut self) {
+        let key = (self.deadline, self.id);
+        let _ignore = TIMERS.try_with(|t| {
+            let old = t.borrow_mut().remove(&key);
+            drop(old)
+        });
+    }
+}
+
+impl Future for Delay {
+    type Output = ();
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
+        if now() >= self.deadline {
+            return Poll::Ready(());
+        }
+        let key = (self.deadline, self.id);
+        let old = TIMERS.with(|t| t.borrow_mut().insert(key, cx.waker().clone()));
+        drop(old);
+        Poll::Pending
+    }
+}
+
+impl Drop for Delay {
+    fn drop(&mut self) {
+        self.cancel()
+    }
+}
+
+/// Ticks every `period`, the first time after one period
+#[derive(Debug)]
+pub struct Interval {
+    delay: Delay,
+    period: u64,
+}
+
+/// Create an interval
+pub fn interval(period: Duration) -> Interval {
+    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
+    Interval {
+        delay: Delay::new(period),
+        period: period.as_nanos() as u64,
+    }
+}
+
+impl Stream for Interval {
+    type Item = ();
+
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<()>> {
+        match Pin::new(&mut self.delay).poll(cx) {
+            Poll::Pending => Poll::Pending,
+            Poll::Ready(()) => {
+                let next = self.delay.deadline().saturating_add(self.period);
+                self.delay.reset(next);
+                Poll::Ready(Some(()))
+            }
+        }
+    }
+}
-- 
2.43.0


From 7907f7f38d4ca4c06f30caf5b7f5701666fa6275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:26 +0000
Subject: [PATCH 02/43] fix: keep the yamux keepalive timer registered after a
 tick

After a tick the interval was not polled again, so on a connection without
other traffic the session was never woken by the timer a second time: no more
pings were sent and a dead peer was never detected.
---
 yamux/src/session.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index 9e41ca4..bdfb6b9 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -637,6 +637,8 @@ where
                     } else {
                         self.keep_alive(cx, Instant::now())?;
                     }
+                    // A tick leaves the next one unregistered, poll again to register it
+                    cx.waker().wake_by_ref();
                 }
                 Poll::Ready(None) => {
                     debug!("yamux::Session poll keepalive interval finished");
-- 
2.43.0


From 40f0c910ab3814bd11cb3fe63c5352acae9e322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:26 +0000
Subject: [PATCH 03/43] fix: wake a blocked yamux stream writer when the
 session ends

A writer waiting for the send window in another task than the reader was left
waiting forever when the session went away.
---
 yamux/src/stream.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yamux/src/stream.rs b/yamux/src/stream.rs
index 0c27408..c68aec3 100644
--- a/yamux/src/stream.rs
+++ b/yamux/src/stream.rs
@@ -244,10 +244,14 @@ impl StreamHandle {
             .checked_add(frame.length())
             .ok_or(Error::InvalidMsgType)?;
         // wake writer continue
+        self.wake_writer();
+        Ok(())
+    }
+
+    fn wake_writer(&mut self) {
         if let Some(waker) = self.writeable_wake.take() {
             waker.wake()
         }
-        Ok(())
     }
 
     fn handle_data(&mut self, frame: Frame) -> Result<(), Error> {
@@ -293,6 +297,7 @@ impl StreamHandle {
 
             if self.frame_receiver.is_terminated() {
                 self.state = StreamState::RemoteClosing;
+                self.wake_writer();
                 return Err(Error::SessionShutdown);
             }
 
@@ -300,6 +305,7 @@ impl StreamHandle {
                 Poll::Ready(Some(frame)) => self.handle_frame(frame)?,
                 Poll::Ready(None) => {
                     self.state = StreamState::RemoteClosing;
+                    self.wake_writer();
                     return Err(Error::SessionShutdown);
                 }
                 Poll::Pending => break,
@@ -375,6 +381,8 @@ impl AsyncRead for StreamHandle {
             }
             _ => {
                 if self.send_window_update().is_err() {
+                    self.state = StreamState::RemoteClosing;
+                    self.wake_writer();
                     return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
                 }
             }
-- 
2.43.0


From bdac53347e4f21ed118ffe140e4741e8033f36ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:26 +0000
Subject: [PATCH 04/43] fix: apply the yamux frame size limit to data frames
 only

The length field of a ping is its id and that of a window update a delta. A
session was killed as soon as a ping id exceeded the configured window.
---
 yamux/src/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/frame.rs b/yamux/src/frame.rs
index 25686df..2551a4f 100644
--- a/yamux/src/frame.rs
+++ b/yamux/src/frame.rs
@@ -293,7 +293,8 @@ impl Decoder for FrameCodec {
                 let flags = Flags(header_data.get_u16());
                 let stream_id = header_data.get_u32();
                 let length = header_data.get_u32();
-                if length > self.max_frame_size {
+                // only the length of a data frame is a size
+                if ty == Type::Data && length > self.max_frame_size {
                     let err = io::Error::new(
                         io::ErrorKind::InvalidData,
                         format!("yamux.length={}", length),
-- 
2.43.0


From 3dbd45f016c226188766fc2902b9131cc766dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:50 +0000
Subject: [PATCH 05/43] fix: treat a second open of a live stream id as
 protocol error at the stream limit

With the stream table full, a SYN for an id that is already open was
answered with a reset for that id, while its data was still delivered to
the open stream.
---
 yamux/src/session.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index bdfb6b9..3cfb2f5 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -411,8 +411,10 @@ where
                     // TODO: should report error?
                     return Ok(());
                 }
-                if self.streams.len() < self.config.max_stream_count
-                    && self.pending_streams.len() < self.config.accept_backlog
+                // an id that is already open is a protocol error even when no more streams fit
+                if self.streams.contains_key(&stream_id)
+                    || self.streams.len() < self.config.max_stream_count
+                        && self.pending_streams.len() < self.config.accept_backlog
                 {
                     debug!(
                         "substream({}) accepted, session.ty={:?}",
-- 
2.43.0


From 076f991b57a420757c6088770b4205733738da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:18 +0000
Subject: [PATCH 06/43] Expose secio internals to verification builds

---
 secio/src/crypto/mod.rs |  4 ++--
 secio/src/lib.rs        |  3 +++
 secio/src/verif.rs      | 24 ++++++++++++++++++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)
 create mode 100644 secio/src/verif.rs

diff --git a/secio/src/crypto/mod.rs b/secio/src/crypto/mod.rs
index 418ab9f..41fc046 100644
--- a/secio/src/crypto/mod.rs
+++ b/secio/src/crypto/mod.rs
@@ -6,8 +6,8 @@ pub mod cipher;
 #[cfg(unix)]
 mod openssl_impl;
 #[cfg(not(target_arch = "wasm32"))]
-#[cfg(any(not(ossl110), test, not(unix)))]
-mod ring_impl;
+#[cfg(any(not(ossl110), test, not(unix), p2p_verif))]
+pub(crate) mod ring_impl;
 #[cfg(any(target_arch = "wasm32", test))]
 mod wasm_compat;
 
diff --git a/secio/src/lib.rs b/secio/src/lib.rs
index e9fef86..318cef7 100644
--- a/secio/src/lib.rs
+++ b/secio/src/lib.rs
@@ -21,6 +21,9 @@ mod secp256k1_compat;
 mod sha256_compat;
 /// Supported algorithms
 mod support;
+/// Access for verification builds
+#[cfg(p2p_verif)]
+pub mod verif;
 
 /// Public key generated temporarily during the handshake
 pub type EphemeralPublicKey = Vec<u8>;
diff --git a/secio/src/verif.rs b/secio/src/verif.rs
new file mode 100644
index 0000000..2c4c5fe
--- /dev/null
+++ b/secio/src/verif.rs
@@ -0,0 +1,24 @@
+//! Entry points for verification builds (`--cfg p2p_verif`)
+
+use tokio::prelude::{AsyncRead, AsyncWrite};
+use tokio_util::codec::{length_delimited::LengthDelimitedCodec, Framed};
+
+pub use crate::dh_compat::KeyAgreement;
+use crate::{
+    codec::secure_stream::SecureStream,
+    crypto::{cipher::CipherType, ring_impl::RingAeadCipher, BoxStreamCipher, CryptoMode},
+};
+
+/// A cipher of the implementation that is not the default one here
+pub fn ring_stream(t: CipherType, key: &[u8], mode: CryptoMode) -> BoxStreamCipher {
+    Box::new(RingAeadCipher::new(t, key, mode))
+}
+
+/// A secure stream without the handshake
+pub fn secure_stream<T: AsyncRead + AsyncWrite + Unpin>(
+    socket: Framed<T, LengthDelimitedCodec>,
+    decode: BoxStreamCipher,
+    encode: BoxStreamCipher,
+) -> SecureStream<T> {
+    SecureStream::new(socket, decode, encode, Vec::new())
+}
-- 
2.43.0


From 3c4b94d32e7bd1abc92dc40d69f9d7ab1d63838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:47 +0000
Subject: [PATCH 07/43] fix: require the whole nonce confirmation in the secio
 handshake

The buffer for the confirmation was prefilled with the expected nonce
and a single read was accepted, so a short or empty confirmation passed
the check.
---
 secio/src/codec/secure_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index fe8df5a..7e355bb 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -111,8 +111,8 @@ where
 
     pub(crate) async fn verify_nonce(&mut self) -> Result<(), SecioError> {
         if !self.nonce.is_empty() {
-            let mut nonce = self.nonce.clone();
-            self.read(&mut nonce).await?;
+            let mut nonce = vec![0; self.nonce.len()];
+            self.read_exact(&mut nonce).await?;
 
             trace!(
                 "received nonce={}, my_nonce={}",
-- 
2.43.0


From 9e0a504d839323651821224910a0c618b05045e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:51 +0000
Subject: [PATCH 08/43] fix: keep received data when a secure stream is read
 with an empty buffer

A read with an empty buffer fetched the next message and replaced the
unread rest of the previous one with it.
---
 secio/src/codec/secure_stream.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index 7e355bb..b0d5947 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -163,6 +163,11 @@ where
         cx: &mut Context<'_>,
         buf: &mut [u8],
     ) -> Poll<io::Result<usize>> {
+        // nothing can be read into an empty buffer, leave the received data alone
+        if buf.is_empty() {
+            return Poll::Ready(Ok(0));
+        }
+
         // when there is something in recv_buffer
         let copied = self.drain(buf);
         if copied > 0 {
-- 
2.43.0


From 5649f6b897b543d8039208438b3869abdffb989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:08 +0000
Subject: [PATCH 09/43] fix: an empty message on a secure stream does not end
 the stream

Writing an empty slice sends an empty encrypted message. The reader
returned zero bytes for it, which means end of stream to its caller.
---
 secio/src/codec/secure_stream.rs | 57 ++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index b0d5947..5b1249e 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -174,33 +174,40 @@ where
             return Poll::Ready(Ok(copied));
         }
 
-        match self.socket.poll_next_unpin(cx) {
-            Poll::Ready(Some(Ok(t))) => {
-                trace!("poll_read raw.len={}", t.len());
-                let decoded = self
-                    .decode_buffer(t)
-                    .map_err::<io::Error, _>(|err| err.into())?;
-
-                // when input buffer is big enough
-                let n = decoded.len();
-                trace!("poll_read decoded.len={}", n);
-                if buf.len() >= n {
-                    buf[..n].copy_from_slice(decoded.as_ref());
-                    Poll::Ready(Ok(n))
-                } else {
-                    // fill internal recv buffer
-                    self.recv_buf = decoded;
-                    // drain for input buffer
-                    let copied = self.drain(buf);
-                    Poll::Ready(Ok(copied))
+        loop {
+            match self.socket.poll_next_unpin(cx) {
+                Poll::Ready(Some(Ok(t))) => {
+                    trace!("poll_read raw.len={}", t.len());
+                    let decoded = self
+                        .decode_buffer(t)
+                        .map_err::<io::Error, _>(|err| err.into())?;
+
+                    // an empty message must not look like the end of the stream
+                    if decoded.is_empty() {
+                        continue;
+                    }
+
+                    // when input buffer is big enough
+                    let n = decoded.len();
+                    trace!("poll_read decoded.len={}", n);
+                    if buf.len() >= n {
+                        buf[..n].copy_from_slice(decoded.as_ref());
+                        return Poll::Ready(Ok(n));
+                    } else {
+                        // fill internal recv buffer
+                        self.recv_buf = decoded;
+                        // drain for input buffer
+                        let copied = self.drain(buf);
+                        return Poll::Ready(Ok(copied));
+                    }
                 }
+                Poll::Ready(Some(Err(err))) => return Poll::Ready(Err(err)),
+                Poll::Ready(None) => {
+                    debug!("connection shutting down");
+                    return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
+                }
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Ready(Some(Err(err))) => Poll::Ready(Err(err)),
-            Poll::Ready(None) => {
-                debug!("connection shutting down");
-                Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()))
-            }
-            Poll::Pending => Poll::Pending,
         }
     }
 
-- 
2.43.0


From 468516d36f8735c64919e60df316399deb54a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:26 +0000
Subject: [PATCH 10/43] fix: refuse peer ids whose hash code is not minimally
 encoded

Such an id names the same hash but compares different from the id of
the key, so one identity had several accepted forms.
---
 secio/src/peer_id.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/secio/src/peer_id.rs b/secio/src/peer_id.rs
index 48ddc2e..40b00fa 100644
--- a/secio/src/peer_id.rs
+++ b/secio/src/peer_id.rs
@@ -37,6 +37,12 @@ impl PeerId {
             return Err(());
         }
 
+        // only the shortest encoding of the code, otherwise one id would have several forms
+        let mut buf = encode::u16_buffer();
+        if encode::u16(code, &mut buf).len() + bytes.len() != data.len() {
+            return Err(());
+        }
+
         if bytes.len() != SHA256_SIZE as usize + 1 {
             return Err(());
         }
-- 
2.43.0


From f05bbca69090efbfaf04596fa19461fa0b024159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:49 +0000
Subject: [PATCH 11/43] fix: accept public keys only in their canonical
 serialisation

A peer could present its own key uncompressed or in hybrid form during
the handshake and so obtain several peer ids for one key. Bytes that
are no key at all were accepted by decode as well.
---
 secio/src/handshake/handshake_struct.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/secio/src/handshake/handshake_struct.rs b/secio/src/handshake/handshake_struct.rs
index 2c93942..8e4030b 100644
--- a/secio/src/handshake/handshake_struct.rs
+++ b/secio/src/handshake/handshake_struct.rs
@@ -235,6 +235,13 @@ impl PublicKey {
             .map_err(|_| crate::error::SecioError::SecretGenerationFailed)
     }
 
+    /// Accept the one form that `secp256k1_raw_key` produces, because the peer id is a hash of it
+    fn canonical_secp256k1(data: &[u8]) -> Option<Self> {
+        Self::secp256k1_raw_key(data)
+            .ok()
+            .filter(|key| key.inner_ref().as_slice() == data)
+    }
+
     /// Encode with flatbuffer
     #[cfg(feature = "flatc")]
     pub fn encode(&self) -> Bytes {
@@ -257,7 +264,7 @@ impl PublicKey {
         let pubkey = flatbuffers_verifier::get_root::<FBSPublicKey>(data).ok()?;
         match pubkey.pubkey() {
             Some(pub_key) => match pubkey.key_type() {
-                Type::Secp256k1 => Some(PublicKey::Secp256k1(pub_key.to_owned())),
+                Type::Secp256k1 => Self::canonical_secp256k1(pub_key),
             },
             None => None,
         }
@@ -282,7 +289,7 @@ impl PublicKey {
         let union = reader.to_enum();
         match union {
             handshake_mol::PublicKeyUnionReader::Secp256k1(reader) => {
-                Some(PublicKey::Secp256k1(reader.raw_data().to_owned()))
+                Self::canonical_secp256k1(reader.raw_data())
             }
         }
     }
-- 
2.43.0


From 23f5fcc6917aecea9acb53601d4ae06053879680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:33 +0000
Subject: [PATCH 12/43] fix: refuse peer components whose hash code is not
 minimally encoded

Such an address names the same peer but compares different.
---
 multiaddr/src/protocol.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/multiaddr/src/protocol.rs b/multiaddr/src/protocol.rs
index 9a4ed59..35eb8ef 100644
--- a/multiaddr/src/protocol.rs
+++ b/multiaddr/src/protocol.rs
@@ -263,6 +263,12 @@ fn check_p2p(data: &[u8]) -> Result<(), Error> {
         return Err(Error::UnknownHash);
     }
 
+    // only the shortest encoding of the code
+    let mut buf = unsigned_varint::encode::u16_buffer();
+    if unsigned_varint::encode::u16(code, &mut buf).len() + bytes.len() != data.len() {
+        return Err(Error::UnknownHash);
+    }
+
     if bytes.len() != SHA256_SIZE as usize + 1 {
         return Err(Error::UnknownHash);
     }
-- 
2.43.0


From eeba75aad55b7d7d942c7f287d760a68de7ad69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:33 +0000
Subject: [PATCH 13/43] fix: refuse addresses in a non-canonical binary form

Addresses compare and hash by their bytes, but numbers in the binary
form were also accepted in longer encodings, so that equal addresses
compared different and changed when encoded again.
---
 multiaddr/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/multiaddr/src/lib.rs b/multiaddr/src/lib.rs
index 9f35e64..665bfba 100644
--- a/multiaddr/src/lib.rs
+++ b/multiaddr/src/lib.rs
@@ -280,10 +280,16 @@ impl TryFrom<Bytes> for Multiaddr {
     fn try_from(v: Bytes) -> Result<Self, Error> {
         // Check if the argument is a valid `Multiaddr` by reading its protocols.
         let mut slice = &v[..];
+        let mut canonical = BytesMut::with_capacity(v.len());
         while !slice.is_empty() {
-            let (_, s) = Protocol::from_bytes(slice)?;
+            let (p, s) = Protocol::from_bytes(slice)?;
+            p.write_to_bytes(&mut canonical);
             slice = s
         }
+        // Addresses compare by bytes, so each one may have a single encoding only.
+        if canonical != v {
+            return Err(Error::InvalidMultiaddr);
+        }
         Ok(Multiaddr { bytes: v })
     }
 }
-- 
2.43.0


From b4a4a730297d982adbcc95b8fb62c1d3a365819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:49 +0000
Subject: [PATCH 14/43] Add guarded runtime that leaves tasks, sockets and time
 to a test driver

Built only with --cfg p2p_verif; it then takes the place of the tokio runtime.
---
 tentacle/src/runtime/mod.rs           |  16 +-
 tentacle/src/runtime/verif_runtime.rs | 287 ++++++++++++++++++++++++++
 2 files changed, 301 insertions(+), 2 deletions(-)
 create mode 100644 tentacle/src/runtime/verif_runtime.rs

diff --git a/tentacle/src/runtime/mod.rs b/tentacle/src/runtime/mod.rs
index 189c1cd..54f2737 100644
--- a/tentacle/src/runtime/mod.rs
+++ b/tentacle/src/runtime/mod.rs
@@ -16,8 +16,14 @@ mod async_runtime;
     all(target_arch = "wasm32", feature = "wasm-timer")
 ))]
 mod generic_timer;
-#[cfg(all(not(target_arch = "wasm32"), feature = "tokio-runtime"))]
+#[cfg(all(
+    not(target_arch = "wasm32"),
+    feature = "tokio-runtime",
+    not(p2p_verif)
+))]
 mod tokio_runtime;
+#[cfg(p2p_verif)]
+mod verif_runtime;
 #[cfg(target_arch = "wasm32")]
 mod wasm_runtime;
 
@@ -28,8 +34,14 @@ pub use async_runtime::*;
     all(target_arch = "wasm32", feature = "wasm-timer")
 ))]
 pub use generic_timer::*;
-#[cfg(all(not(target_arch = "wasm32"), feature = "tokio-runtime"))]
+#[cfg(all(
+    not(target_arch = "wasm32"),
+    feature = "tokio-runtime",
+    not(p2p_verif)
+))]
 pub use tokio_runtime::*;
+#[cfg(p2p_verif)]
+pub use verif_runtime::*;
 #[cfg(target_arch = "wasm32")]
 pub use wasm_runtime::*;
 
diff --git a/tentacle/src/runtime/verif_runtime.rs b/tentacle/src/runtime/verif_runtime.rs
new file mode 100644
index 0000000..230275a
--- /dev/null
+++ b/tentacle/src/runtime/verif_runtime.rs
@@ -0,0 +1,287 @@
+//! Runtime for verification builds (`--cfg p2p_verif`): tasks, sockets and time belong to the
+//! driver of the test, which registers itself for the current thread.
+
+use std::{
+    any::type_name,
+    cell::RefCell,
+    fmt,
+    future::Future,
+    io,
+    net::{SocketAddr, TcpListener as StdListen},
+    panic::AssertUnwindSafe,
+    pin::Pin,
+    rc::Rc,
+    sync::{Arc, Mutex},
+    task::{Context, Poll, Waker},
+    time::Duration,
+};
+
+use futures::FutureExt;
+use tokio::prelude::{AsyncRead, AsyncWrite};
+use yamux::verif::Delay;
+
+/// What the driver supplies
+pub trait Env {
+    /// Run a task
+    fn spawn(&self, name: &'static str, task: Pin<Box<dyn Future<Output = ()> + Send>>);
+    /// A task panicked
+    fn panicked(&self, name: &'static str);
+    /// Open a listening socket
+    fn bind(&self, addr: SocketAddr) -> io::Result<(SocketAddr, Box<dyn Accept>)>;
+    /// Connect to a listening socket
+    fn connect(&self, addr: SocketAddr) -> Connecting;
+}
+
+/// Pending connection
+pub type Connecting = Pin<Box<dyn Future<Output = io::Result<TcpStream>> + Send>>;
+
+/// Listening socket
+pub trait Accept: Send {
+    /// Next connection
+    fn poll_accept(&mut self, cx: &mut Context) -> Poll<io::Result<(TcpStream, SocketAddr)>>;
+}
+
+/// Connected socket
+pub trait Conn: AsyncRead + AsyncWrite + Send + Unpin {}
+
+impl<T: AsyncRead + AsyncWrite + Send + Unpin> Conn for T {}
+
+thread_local! {
+    static ENV: RefCell<Option<Rc<dyn Env>>> = RefCell::new(None);
+}
+
+/// Register the driver of this thread
+pub fn install(env: Option<Rc<dyn Env>>) {
+    let old = ENV.with(|e| std::mem::replace(&mut *e.borrow_mut(), env));
+    drop(old)
+}
+
+fn env() -> Rc<dyn Env> {
+    ENV.with(|e| e.borrow().clone())
+        .expect("no driver on this thread")
+}
+
+/// Task failure
+#[derive(Debug)]
+pub struct JoinError;
+
+impl fmt::Display for JoinError {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        write!(f, "panic")
+    }
+}
+
+impl std::error::Error for JoinError {}
+
+impl From<JoinError> for io::Error {
+    fn from(_: JoinError) -> io::Error {
+        io::Error::new(io::ErrorKind::Other, "task failed")
+    }
+}
+
+struct Shared<T> {
+    result: Option<Result<T, JoinError>>,
+    waker: Option<Waker>,
+}
+
+/// Waits for the end of a task
+pub struct JoinHandle<T>(Arc<Mutex<Shared<T>>>);
+
+impl<T> Future for JoinHandle<T> {
+    type Output = Result<T, JoinError>;
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
+        let mut shared = self.0.lock().unwrap();
+        match shared.result.take() {
+            Some(result) => Poll::Ready(result),
+            None => {
+                shared.waker = Some(cx.waker().clone());
+                Poll::Pending
+            }
+        }
+    }
+}
+
+/// Run a task
+pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
+where
+    F: Future + Send + 'static,
+    F::Output: Send + 'static,
+{
+    let name = type_name::<F>();
+    let shared = Arc::new(Mutex::new(Shared {
+        result: None,
+        waker: None,
+    }));
+    let handle = JoinHandle(shared.clone());
+    env().spawn(
+        name,
+        Box::pin(async move {
+            let result = AssertUnwindSafe(future).catch_unwind().await;
+            let result = result.map_err(|_| {
+                env().panicked(name);
+                JoinError
+            });
+            let waker = {
+                let mut shared = shared.lock().unwrap();
+                shared.result = Some(result);
+                shared.waker.take()
+            };
+            if let Some(waker) = waker {
+                waker.wake()
+            }
+        }),
+    );
+    handle
+}
+
+/// Run a closure as a task of its own
+pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
+where
+    F: FnOnce() -> R + Send + 'static,
+    R: Send + 'static,
+{
+    spawn(async move { f() })
+}
+
+/// Run a closure here
+pub fn block_in_place<F, R>(f: F) -> R
+where
+    F: FnOnce() -> R,
+{
+    f()
+}
+
+/// Wait on the virtual clock
+pub fn delay_for(duration: Duration) -> Delay {
+    Delay::new(duration)
+}
+
+/// Deadline passed
+#[derive(Debug)]
+pub struct Elapsed;
+
+impl fmt::Display for Elapsed {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        write!(f, "deadline has elapsed")
+    }
+}
+
+impl std::error::Error for Elapsed {}
+
+/// Future with a deadline
+pub struct Timeout<F> {
+    future: Pin<Box<F>>,
+    delay: Delay,
+}
+
+/// Give a future a deadline
+pub fn timeout<F: Future>(duration: Duration, future: F) -> Timeout<F> {
+    Timeout {
+        future: Box::pin(future),
+        delay: Delay::new(duration),
+    }
+}
+
+impl<F: Future> Future for Timeout<F> {
+    type Output = Result<F::Output, Elapsed>;
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
+        if let Poll::Ready(output) = self.future.as_mut().poll(cx) {
+            return Poll::Ready(Ok(output));
+        }
+        match Pin::new(&mut self.delay).poll(cx) {
+            Poll::Ready(()) => Poll::Ready(Err(Elapsed)),
+            Poll::Pending => Poll::Pending,
+        }
+    }
+}
+
+/// Listening socket of the driver
+pub struct TcpListener {
+    addr: SocketAddr,
+    inner: Box<dyn Accept>,
+}
+
+impl TcpListener {
+    /// Open a listening socket
+    pub async fn bind(addr: &SocketAddr) -> io::Result<TcpListener> {
+        let (addr, inner) = env().bind(*addr)?;
+        Ok(TcpListener { addr, inner })
+    }
+
+    /// Address listened on
+    pub fn local_addr(&self) -> io::Result<SocketAddr> {
+        Ok(self.addr)
+    }
+
+    /// Next connection
+    pub fn poll_accept(&mut self, cx: &mut Context) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
+        self.inner.poll_accept(cx)
+    }
+}
+
+impl fmt::Debug for TcpListener {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        write!(f, "TcpListener({})", self.addr)
+    }
+}
+
+/// Connected socket of the driver
+pub struct TcpStream {
+    peer: Option<SocketAddr>,
+    inner: Box<dyn Conn>,
+}
+
+impl TcpStream {
+    /// Wrap a connection; without a peer address it is one that is no longer connected
+    pub fn new(inner: Box<dyn Conn>, peer: Option<SocketAddr>) -> TcpStream {
+        TcpStream { peer, inner }
+    }
+
+    /// Address of the other end
+    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
+        self.peer
+            .ok_or_else(|| io::Error::from(io::ErrorKind::NotConnected))
+    }
+}
+
+impl AsyncRead for TcpStream {
+    fn poll_read(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context,
+        buf: &mut [u8],
+    ) -> Poll<io::Result<usize>> {
+        Pin::new(&mut self.inner).poll_read(cx, buf)
+    }
+}
+
+impl AsyncWrite for TcpStream {
+    fn poll_write(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context,
+        buf: &[u8],
+    ) -> Poll<io::Result<usize>> {
+        Pin::new(&mut self.inner).poll_write(cx, buf)
+    }
+
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.inner).poll_flush(cx)
+    }
+
+    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.inner).poll_shutdown(cx)
+    }
+}
+
+pub(crate) fn from_std(_listen: StdListen) -> io::Result<TcpListener> {
+    Err(io::ErrorKind::Other.into())
+}
+
+pub(crate) async fn connect_std(
+    _stream: socket2::Socket,
+    addr: &SocketAddr,
+) -> io::Result<TcpStream> {
+    let connecting = env().connect(*addr);
+    connecting.await
+}
-- 
2.43.0


From f3e81ed3c6982842d33e661422dfe7ee8b538820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:49 +0000
Subject: [PATCH 15/43] fix: tell protocol handles of a close before the
 session

Closing a protocol stream told the handles and the session from separate tasks.
If the session heard first, the protocol could be opened again, and the handle saw
the new connected before the old disconnected.
---
 tentacle/src/substream.rs | 66 ++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index a97bb55..3903c67 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -194,48 +194,58 @@ where
             self.event_sender.clear()
         }
 
-        if let Some(ref mut service_proto_sender) = self.service_proto_sender {
-            let (mut sender, mut events) = service_proto_sender.take();
-            events.push_back(ServiceProtocolEvent::Disconnected {
-                id: self.context.id,
+        let id = self.context.id;
+        let closed = self.context.closed.load(Ordering::SeqCst);
+
+        let service_events = self.service_proto_sender.as_mut().map(|buffer| {
+            let (sender, mut events) = buffer.take();
+            events.push_back(ServiceProtocolEvent::Disconnected { id });
+            (sender, events)
+        });
+
+        let session_events = self.session_proto_sender.as_mut().map(|buffer| {
+            let (sender, mut events) = buffer.take();
+            events.push_back(SessionProtocolEvent::Closed);
+            if closed {
+                events.push_back(SessionProtocolEvent::Disconnected);
+            }
+            (sender, events)
+        });
+
+        let close_events = if closed {
+            self.output(cx);
+            None
+        } else {
+            let (sender, mut events) = self.event_sender.take();
+            events.push_back(ProtocolEvent::Close {
+                id: self.id,
+                proto_id: self.proto_id,
             });
-            crate::runtime::spawn(async move {
+            Some((sender, events))
+        };
+
+        // The session must not learn of the close before the handles do, otherwise the protocol
+        // can be opened again and its events overtake the ones sent here
+        crate::runtime::spawn(async move {
+            if let Some((mut sender, events)) = service_events {
                 let mut iter = iter(events).map(Ok);
                 if let Err(e) = sender.send_all(&mut iter).await {
                     debug!("stream close event send to proto handle error: {:?}", e)
                 }
-            });
-        }
-
-        if let Some(ref mut session_proto_sender) = self.session_proto_sender {
-            let (mut sender, mut events) = session_proto_sender.take();
-            events.push_back(SessionProtocolEvent::Closed);
-            if self.context.closed.load(Ordering::SeqCst) {
-                events.push_back(SessionProtocolEvent::Disconnected);
             }
-            crate::runtime::spawn(async move {
+            if let Some((mut sender, events)) = session_events {
                 let mut iter = iter(events).map(Ok);
                 if let Err(e) = sender.send_all(&mut iter).await {
                     debug!("stream close event send to proto handle error: {:?}", e)
                 }
-            });
-        }
-
-        if !self.context.closed.load(Ordering::SeqCst) {
-            let (mut sender, mut events) = self.event_sender.take();
-            events.push_back(ProtocolEvent::Close {
-                id: self.id,
-                proto_id: self.proto_id,
-            });
-            crate::runtime::spawn(async move {
+            }
+            if let Some((mut sender, events)) = close_events {
                 let mut iter = iter(events).map(Ok);
                 if let Err(e) = sender.send_all(&mut iter).await {
                     debug!("stream close event send to session error: {:?}", e)
                 }
-            });
-        } else {
-            self.output(cx);
-        }
+            }
+        });
     }
 
     /// When send or receive message error, output error and close stream
-- 
2.43.0


From c2a4b9d2deef795e4b7992bd56d2f05ba0df6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:49 +0000
Subject: [PATCH 16/43] fix: report open event protocols as closed when a
 session ends

A session closed by the remote reported its own close without closing its open
event-mode protocols first, so ServiceHandle never saw their Disconnected.
The close is now also reported once only, because a second report could overtake
the protocol events.
---
 tentacle/src/session.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index f6db4fc..1449e47 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -187,6 +187,8 @@ pub(crate) struct Session {
         Option<futures::channel::oneshot::Sender<()>>,
         crate::runtime::JoinHandle<()>,
     )>,
+    /// The close of this session has been sent to the service
+    close_reported: bool,
 }
 
 impl Session {
@@ -245,6 +247,7 @@ impl Session {
             event: meta.event,
             future_task_sender,
             wait_handle: meta.session_proto_handles,
+            close_reported: false,
         }
     }
 
@@ -720,12 +723,24 @@ impl Session {
 
     /// Close session
     fn close_session(&mut self) {
+        // a second report may overtake the protocol events sent before the first one
+        if ::std::mem::replace(&mut self.close_reported, true) {
+            return;
+        }
         self.context.closed.store(true, Ordering::SeqCst);
 
+        let id = self.context.id;
+        let protos = ::std::mem::take(&mut self.proto_streams);
+        for (proto_id, _) in protos {
+            // make sure close protocol is early than close session
+            if self.event.contains(&proto_id) {
+                self.service_sender
+                    .push(SessionEvent::ProtocolClose { id, proto_id });
+            }
+        }
+
         let (mut sender, mut events) = self.service_sender.take();
-        events.push_back(SessionEvent::SessionClose {
-            id: self.context.id,
-        });
+        events.push_back(SessionEvent::SessionClose { id });
 
         crate::runtime::spawn(async move {
             let mut iter = iter(events).map(Ok);
@@ -819,15 +834,6 @@ impl Stream for Session {
                     "Session({:?}) finished, LocalClose||Abnormal",
                     self.context.id
                 );
-                let id = self.context.id;
-                let protos = ::std::mem::take(&mut self.proto_streams);
-                for (proto_id, _) in protos {
-                    // make sure close protocol is early than close session
-                    if self.event.contains(&proto_id) {
-                        self.service_sender
-                            .push(SessionEvent::ProtocolClose { id, proto_id });
-                    }
-                }
                 self.close_session();
                 return self.wait_handle_poll(cx);
             }
-- 
2.43.0


From 2e69b09a6f9ad338088a03b8379af6d05ede7f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:49 +0000
Subject: [PATCH 17/43] fix: end sessions on an immediate shutdown

Every session keeps a sender of its own command channel, so dropping the service's
sender did not end it: after shutdown() its tasks and its connection stayed alive.
---
 tentacle/src/buffer.rs  |  5 +++++
 tentacle/src/service.rs | 10 +++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/tentacle/src/buffer.rs b/tentacle/src/buffer.rs
index 93589ad..0d46ec8 100644
--- a/tentacle/src/buffer.rs
+++ b/tentacle/src/buffer.rs
@@ -105,6 +105,11 @@ impl<T> PriorityBuffer<T> {
         SendResult::Ok
     }
 
+    /// Close the channel, the receiver ends after the events already sent
+    pub fn close(&mut self) {
+        self.sender.close_channel()
+    }
+
     pub fn clear(&mut self) {
         self.high_buffer.clear();
         self.normal_buffer.clear();
diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 98c3f23..7bd2103 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -1302,9 +1302,13 @@ where
                     self.session_proto_handles.clear();
 
                     // don't care about any session action
-                    sessions
-                        .into_iter()
-                        .for_each(|i| self.session_close(cx, i, Source::Internal));
+                    sessions.into_iter().for_each(|i| {
+                        // the session has a sender of its own, dropping this one doesn't end it
+                        if let Some(control) = self.sessions.get_mut(&i) {
+                            control.buffer.close()
+                        }
+                        self.session_close(cx, i, Source::Internal)
+                    });
                 } else {
                     sessions
                         .into_iter()
-- 
2.43.0


From f94e536be90ea6d9df43abb954d666666f273a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:49 +0000
Subject: [PATCH 18/43] fix: do not take on sessions or listeners while
 shutting down

A handshake or listen request that completed after a graceful shutdown was requested
still opened a session or listener, and the shutdown then waited for it forever.
---
 tentacle/src/service.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 7bd2103..0ee6be2 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -1027,7 +1027,8 @@ where
                 if ty.is_outbound() {
                     self.state.decrease();
                 }
-                if !self.reached_max_connection_limit() {
+                // a connection that completes during shutdown would keep the service alive
+                if self.state != State::PreShutdown && !self.reached_max_connection_limit() {
                     self.session_open(cx, handle, public_key, address, ty, listen_address);
                 }
             }
@@ -1140,6 +1141,10 @@ where
                 listen_address,
                 incoming,
             } => {
+                // a listener that starts during shutdown would keep the service alive
+                if self.state == State::PreShutdown {
+                    return;
+                }
                 self.handle.handle_event(
                     &mut self.service_context,
                     ServiceEvent::ListenStarted {
-- 
2.43.0


From 1d4b3d43e27f5bac6e779665389c1418835749d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:08 +0000
Subject: [PATCH 19/43] fix: an address whose transport is not supported can be
 dialled again

The address was put in the table of pending dials before the transport
refused it and stayed there, so every later dial to it was ignored.
---
 tentacle/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 0ee6be2..8b4c1cb 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -315,8 +315,8 @@ where
     /// Use by inner
     #[inline(always)]
     fn dial_inner(&mut self, address: Multiaddr, target: TargetProtocol) -> Result<()> {
-        self.dial_protocols.insert(address.clone(), target);
         let dial_future = self.multi_transport.dial(address.clone())?;
+        self.dial_protocols.insert(address.clone(), target);
 
         let key_pair = self.service_context.key_pair().cloned();
         let timeout = self.config.timeout;
-- 
2.43.0


From 49f457e37bd888ad6339653d34516eb735108c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:18 +0000
Subject: [PATCH 20/43] fix: report a dial that ends at the connection limit

A dial that completed with the maximum number of connections reached was
dropped without an error, and later dials to its address were ignored.
---
 tentacle/src/service.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 8b4c1cb..1acbf9d 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -7,6 +7,7 @@ use log::{debug, error, log_enabled, trace, warn};
 use std::{
     borrow::Cow,
     collections::{HashMap, HashSet},
+    io,
     pin::Pin,
     sync::{
         atomic::{AtomicBool, AtomicUsize, Ordering},
@@ -1028,8 +1029,25 @@ where
                     self.state.decrease();
                 }
                 // a connection that completes during shutdown would keep the service alive
-                if self.state != State::PreShutdown && !self.reached_max_connection_limit() {
+                if self.state == State::PreShutdown {
+                    return;
+                }
+                if !self.reached_max_connection_limit() {
                     self.session_open(cx, handle, public_key, address, ty, listen_address);
+                } else if ty.is_outbound() {
+                    self.dial_protocols.remove(&address);
+                    self.handle.handle_error(
+                        &mut self.service_context,
+                        ServiceError::DialerError {
+                            address,
+                            error: DialerErrorKind::TransportError(TransportErrorKind::Io(
+                                io::Error::new(
+                                    io::ErrorKind::Other,
+                                    "maximum number of connections reached",
+                                ),
+                            )),
+                        },
+                    )
                 }
             }
             SessionEvent::HandshakeError { ty, error, address } => {
-- 
2.43.0


From a81b788ecc67c521173b676809c86dc113200bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:38 +0000
Subject: [PATCH 21/43] fix: a failed second listen does not report the running
 listener as closed

The error of a listen request was taken for a failure of the listener
already running on that address.
---
 tentacle/src/service.rs | 16 ++++++++++++----
 tentacle/src/session.rs |  8 ++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 1acbf9d..6f0a01b 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -285,7 +285,7 @@ where
                         listen_address: addr,
                         incoming,
                     },
-                    Err(error) => SessionEvent::ListenError { address, error },
+                    Err(error) => SessionEvent::ListenStartError { address, error },
                 };
                 if let Err(err) = sender.send(event).await {
                     error!("Listen address result send back error: {:?}", err);
@@ -1128,11 +1128,19 @@ where
                         &mut self.service_context,
                         ServiceEvent::ListenClose { address },
                     )
-                } else {
-                    // try start listen error
-                    self.state.decrease();
                 }
             }
+            #[cfg(not(target_arch = "wasm32"))]
+            SessionEvent::ListenStartError { address, error } => {
+                self.state.decrease();
+                self.handle.handle_error(
+                    &mut self.service_context,
+                    ServiceError::ListenError {
+                        address,
+                        error: ListenErrorKind::TransportError(error),
+                    },
+                );
+            }
             SessionEvent::SessionTimeout { id } => {
                 if let Some(session_control) = self.sessions.get(&id) {
                     self.handle.handle_error(
diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index 1449e47..58911f4 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -73,12 +73,20 @@ pub(crate) enum SessionEvent {
         /// error
         error: TransportErrorKind,
     },
+    /// A running listener failed
     ListenError {
         /// listen address
         address: Multiaddr,
         /// error
         error: TransportErrorKind,
     },
+    /// A listener could not be started
+    ListenStartError {
+        /// listen address
+        address: Multiaddr,
+        /// error
+        error: TransportErrorKind,
+    },
     /// Protocol data
     ProtocolMessage {
         /// Session id
-- 
2.43.0


From a11a232a047c44d589b37af49ecf624226ab1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:02 +0000
Subject: [PATCH 22/43] Let the guarded runtime carry websocket connections

---
 tentacle/src/runtime/verif_runtime.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tentacle/src/runtime/verif_runtime.rs b/tentacle/src/runtime/verif_runtime.rs
index 230275a..ec81fb1 100644
--- a/tentacle/src/runtime/verif_runtime.rs
+++ b/tentacle/src/runtime/verif_runtime.rs
@@ -246,6 +246,12 @@ impl TcpStream {
     }
 }
 
+impl fmt::Debug for TcpStream {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        write!(f, "TcpStream({:?})", self.peer)
+    }
+}
+
 impl AsyncRead for TcpStream {
     fn poll_read(
         mut self: Pin<&mut Self>,
-- 
2.43.0


From 8d9a1cee612064625ada0d7679f6736be60e7d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:50 +0000
Subject: [PATCH 23/43] fix: keep accepting after a connection that is already
 gone

A connection whose peer address can no longer be read left the listener
without a wake-up, so it never accepted again.
---
 tentacle/src/transports/mod.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/tentacle/src/transports/mod.rs b/tentacle/src/transports/mod.rs
index 4c57241..bc69dfd 100644
--- a/tentacle/src/transports/mod.rs
+++ b/tentacle/src/transports/mod.rs
@@ -289,21 +289,25 @@ mod os {
 
         fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
             match self.get_mut() {
-                MultiIncoming::Tcp(inner) => match inner.poll_accept(cx)? {
-                    // Why can't get the peer address of the connected stream ?
-                    // Error will be "Transport endpoint is not connected",
-                    // so why incoming will appear unconnected stream ?
-                    Poll::Ready((stream, _)) => match stream.peer_addr() {
-                        Ok(remote_address) => Poll::Ready(Some(Ok((
-                            socketaddr_to_multiaddr(remote_address),
-                            MultiStream::Tcp(stream),
-                        )))),
-                        Err(err) => {
-                            debug!("stream get peer address error: {:?}", err);
-                            Poll::Pending
-                        }
-                    },
-                    Poll::Pending => Poll::Pending,
+                MultiIncoming::Tcp(inner) => loop {
+                    match inner.poll_accept(cx)? {
+                        // Why can't get the peer address of the connected stream ?
+                        // Error will be "Transport endpoint is not connected",
+                        // so why incoming will appear unconnected stream ?
+                        Poll::Ready((stream, _)) => match stream.peer_addr() {
+                            Ok(remote_address) => {
+                                break Poll::Ready(Some(Ok((
+                                    socketaddr_to_multiaddr(remote_address),
+                                    MultiStream::Tcp(stream),
+                                ))))
+                            }
+                            Err(err) => {
+                                // accept again, the task is woken only if accept was pending
+                                debug!("stream get peer address error: {:?}", err);
+                            }
+                        },
+                        Poll::Pending => break Poll::Pending,
+                    }
                 },
                 #[cfg(feature = "ws")]
                 MultiIncoming::Ws(inner) => match inner.poll_next_unpin(cx)? {
-- 
2.43.0


From f20d890881e9b9176d0c357cbae85a37f1c506f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:33 +0000
Subject: [PATCH 24/43] fix: a websocket listener keeps accepting after a
 connection that fails its handshake

The listener stopped polling its socket after each accept and was woken
again only by a completed handshake, so one silent or broken connection
kept every later one waiting.
---
 tentacle/src/transports/ws.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 8621a68..e9288e8 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -225,8 +225,9 @@ impl Stream for WebsocketListener {
             return Poll::Ready(res);
         }
 
-        match self.inner.poll_accept(cx)? {
-            Poll::Ready((stream, _)) => match stream.peer_addr() {
+        // accept until pending, or nothing wakes this task for the next connection
+        while let Poll::Ready((stream, _)) = self.inner.poll_accept(cx)? {
+            match stream.peer_addr() {
                 Ok(remote_address) => {
                     let timeout = self.timeout;
                     let mut sender = self.sender.clone();
@@ -247,15 +248,12 @@ impl Stream for WebsocketListener {
                             },
                         }
                     });
-                    self.poll_pending(cx)
                 }
-                Err(err) => {
-                    debug!("stream get peer address error: {:?}", err);
-                    Poll::Pending
-                }
-            },
-            Poll::Pending => Poll::Pending,
+                Err(err) => debug!("stream get peer address error: {:?}", err),
+            }
         }
+
+        Poll::Pending
     }
 }
 
-- 
2.43.0


From 2c179605a363de6b913785d3b4819a88c27a2431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:29 +0000
Subject: [PATCH 25/43] fix: read on after websocket messages that carry no
 data

A ping, pong, text or empty message made the reader wait without a
wake-up, so data already received behind it was not seen.
---
 tentacle/src/transports/ws.rs | 75 ++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index e9288e8..c1def88 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -339,45 +339,48 @@ impl AsyncRead for WsStream {
             return Poll::Ready(Ok(copied));
         }
 
-        match self.inner.poll_next_unpin(cx) {
-            Poll::Ready(Some(Ok(t))) => {
-                let data = match t {
-                    Message::Binary(data) => data,
-                    Message::Close(_) => return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())),
-                    Message::Ping(data) => {
-                        self.pending_ping = Some(data);
-                        self.respond_ping(cx)?;
-                        Vec::new()
-                    }
-                    Message::Pong(_) => Vec::new(),
-                    Message::Text(_) => Vec::new(),
-                };
+        loop {
+            return match self.inner.poll_next_unpin(cx) {
+                Poll::Ready(Some(Ok(t))) => {
+                    let data = match t {
+                        Message::Binary(data) => data,
+                        Message::Close(_) => return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())),
+                        Message::Ping(data) => {
+                            self.pending_ping = Some(data);
+                            self.respond_ping(cx)?;
+                            Vec::new()
+                        }
+                        Message::Pong(_) => Vec::new(),
+                        Message::Text(_) => Vec::new(),
+                    };
 
-                if data.is_empty() {
-                    return Poll::Pending;
+                    // read on, or nothing wakes this task for what follows
+                    if data.is_empty() {
+                        continue;
+                    }
+                    // when input buffer is big enough
+                    let n = data.len();
+                    if buf.len() >= n {
+                        buf[..n].copy_from_slice(data.as_ref());
+                        Poll::Ready(Ok(n))
+                    } else {
+                        // fill internal recv buffer
+                        self.recv_buf = data;
+                        // drain for input buffer
+                        let copied = self.drain(buf);
+                        Poll::Ready(Ok(copied))
+                    }
                 }
-                // when input buffer is big enough
-                let n = data.len();
-                if buf.len() >= n {
-                    buf[..n].copy_from_slice(data.as_ref());
-                    Poll::Ready(Ok(n))
-                } else {
-                    // fill internal recv buffer
-                    self.recv_buf = data;
-                    // drain for input buffer
-                    let copied = self.drain(buf);
-                    Poll::Ready(Ok(copied))
+                Poll::Ready(Some(Err(err))) => {
+                    debug!("read from websocket stream error: {:?}", err);
+                    Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()))
                 }
-            }
-            Poll::Ready(Some(Err(err))) => {
-                debug!("read from websocket stream error: {:?}", err);
-                Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()))
-            }
-            Poll::Ready(None) => {
-                debug!("connection shutting down");
-                Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()))
-            }
-            Poll::Pending => Poll::Pending,
+                Poll::Ready(None) => {
+                    debug!("connection shutting down");
+                    Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()))
+                }
+                Poll::Pending => Poll::Pending,
+            };
         }
     }
 
-- 
2.43.0


From e81f38e844a01c5b0422f77156699125b8ea8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:36 +0000
Subject: [PATCH 26/43] fix: close a protocol stream that fails exactly once

A write failure with a broken pipe or reset ended the stream without
telling its handler or the session. A decoding failure told a session
handler twice.
---
 tentacle/src/substream.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index 3903c67..e42c464 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -248,8 +248,8 @@ where
         });
     }
 
-    /// When send or receive message error, output error and close stream
-    fn error_close(&mut self, cx: &mut Context, error: io::Error) {
+    /// When send or receive message error, output error and mark the stream as dead
+    fn error_close(&mut self, error: io::Error) {
         self.dead = true;
         match error.kind() {
             ErrorKind::BrokenPipe
@@ -264,7 +264,6 @@ where
             proto_id: self.proto_id,
             error,
         });
-        self.close_proto_stream(cx);
     }
 
     /// Handling commands send by session
@@ -390,7 +389,7 @@ where
                     Some(ref function) => match function(data) {
                         Ok(data) => data,
                         Err(err) => {
-                            self.error_close(cx, err);
+                            self.error_close(err);
                             return Poll::Ready(None);
                         }
                     },
@@ -430,7 +429,7 @@ where
             Poll::Pending => Poll::Pending,
             Poll::Ready(Some(Err(err))) => {
                 debug!("sub stream codec error: {:?}", err);
-                self.error_close(cx, err);
+                self.error_close(err);
                 Poll::Ready(None)
             }
         }
@@ -491,7 +490,8 @@ where
                 "Substream({}) finished with flush error: {:?}",
                 self.id, err
             );
-            self.error_close(cx, err);
+            self.error_close(err);
+            self.close_proto_stream(cx);
             return Poll::Ready(None);
         }
 
@@ -794,8 +794,8 @@ where
         }
     }
 
-    /// When send or receive message error, output error and close stream
-    fn error_close(&mut self, cx: &mut Context, error: io::Error) {
+    /// When send or receive message error, output error and mark the stream as dead
+    fn error_close(&mut self, error: io::Error) {
         self.dead = true;
         match error.kind() {
             ErrorKind::BrokenPipe
@@ -810,7 +810,6 @@ where
             proto_id: self.proto_id,
             error,
         });
-        self.close_proto_stream(cx);
     }
 
     fn close_proto_stream(&mut self, cx: &mut Context) {
@@ -873,7 +872,8 @@ where
                 "Substream({}) finished with flush error: {:?}",
                 self.id, err
             );
-            self.error_close(cx, err);
+            self.error_close(err);
+            self.close_proto_stream(cx);
             return Poll::Ready(None);
         }
 
-- 
2.43.0


From 1a246df7b73cbd7511cdf98bfaa1f99539aedabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:31 +0000
Subject: [PATCH 27/43] fix: report a message that cannot be decoded as a
 protocol error

The error was dropped together with the other buffered events when the
stream was closed right after.
---
 tentacle/src/substream.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index e42c464..2365704 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -249,7 +249,7 @@ where
     }
 
     /// When send or receive message error, output error and mark the stream as dead
-    fn error_close(&mut self, error: io::Error) {
+    fn error_close(&mut self, cx: &mut Context, error: io::Error) {
         self.dead = true;
         match error.kind() {
             ErrorKind::BrokenPipe
@@ -259,11 +259,15 @@ where
             | ErrorKind::UnexpectedEof => return,
             _ => (),
         }
-        self.event_sender.push(ProtocolEvent::Error {
-            id: self.id,
-            proto_id: self.proto_id,
-            error,
-        });
+        // closing the stream drops the events that are still in the buffer
+        self.output_event(
+            cx,
+            ProtocolEvent::Error {
+                id: self.id,
+                proto_id: self.proto_id,
+                error,
+            },
+        );
     }
 
     /// Handling commands send by session
@@ -389,7 +393,7 @@ where
                     Some(ref function) => match function(data) {
                         Ok(data) => data,
                         Err(err) => {
-                            self.error_close(err);
+                            self.error_close(cx, err);
                             return Poll::Ready(None);
                         }
                     },
@@ -429,7 +433,7 @@ where
             Poll::Pending => Poll::Pending,
             Poll::Ready(Some(Err(err))) => {
                 debug!("sub stream codec error: {:?}", err);
-                self.error_close(err);
+                self.error_close(cx, err);
                 Poll::Ready(None)
             }
         }
@@ -490,7 +494,7 @@ where
                 "Substream({}) finished with flush error: {:?}",
                 self.id, err
             );
-            self.error_close(err);
+            self.error_close(cx, err);
             self.close_proto_stream(cx);
             return Poll::Ready(None);
         }
-- 
2.43.0


From c9112787af0408bd90c1afa52a2c122214a12a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:20 +0000
Subject: [PATCH 28/43] fix: notify a token once per interval and not after its
 removal

A token that was set twice, or removed and set again before its timer
ran out, was notified several times per interval. A removed token was
notified once more.
---
 tentacle/src/protocol_handle_stream.rs | 54 +++++++++++++++++---------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index 3926f42..5e8c734 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -92,9 +92,11 @@ pub struct ServiceProtocolStream<T> {
     handle_context: ProtocolContext,
     sessions: HashMap<SessionId, Arc<SessionContext>>,
     receiver: mpsc::Receiver<ServiceProtocolEvent>,
-    notify: HashMap<u64, Duration>,
-    notify_sender: mpsc::Sender<u64>,
-    notify_receiver: mpsc::Receiver<u64>,
+    /// Interval of each token and the timer that stands for it
+    notify: HashMap<u64, (Duration, usize)>,
+    next_timer: usize,
+    notify_sender: mpsc::Sender<(u64, usize)>,
+    notify_receiver: mpsc::Receiver<(u64, usize)>,
     panic_report: mpsc::Sender<SessionEvent>,
     current_task: CurrentTask,
     shutdown: Arc<AtomicBool>,
@@ -124,6 +126,7 @@ where
             notify_sender,
             notify_receiver,
             notify: HashMap::new(),
+            next_timer: 0,
             current_task: CurrentTask::Idle,
             shutdown,
             panic_report,
@@ -205,8 +208,11 @@ where
             }
             SetNotify { interval, token } => {
                 self.current_task.run();
-                self.notify.entry(token).or_insert(interval);
-                self.set_notify(token);
+                if !self.notify.contains_key(&token) {
+                    self.next_timer += 1;
+                    self.notify.insert(token, (interval, self.next_timer));
+                    self.set_notify(token);
+                }
             }
             RemoveNotify { token } => {
                 self.current_task.run();
@@ -232,13 +238,13 @@ where
     }
 
     fn set_notify(&mut self, token: u64) {
-        if let Some(&interval) = self.notify.get(&token) {
+        if let Some(&(interval, timer)) = self.notify.get(&token) {
             let mut sender = self.notify_sender.clone();
             // NOTE: A Interval/Delay will block tokio runtime from gracefully shutdown.
             //       So we spawn it in FutureTaskManager
             let task = async move {
                 crate::runtime::delay_for(interval).await;
-                if sender.send(token).await.is_err() {
+                if sender.send((token, timer)).await.is_err() {
                     trace!("service notify token {} send err", token)
                 }
             };
@@ -311,8 +317,11 @@ where
         };
 
         match Pin::new(&mut self.notify_receiver).as_mut().poll_next(cx) {
-            Poll::Ready(Some(token)) => {
-                self.handle_event(ServiceProtocolEvent::Notify { token });
+            Poll::Ready(Some((token, timer))) => {
+                // the token may have been removed, or removed and set again, in the meantime
+                if self.notify.get(&token).map(|(_, id)| *id) == Some(timer) {
+                    self.handle_event(ServiceProtocolEvent::Notify { token });
+                }
                 is_pending &= false
             }
             Poll::Ready(None) => unreachable!(),
@@ -375,9 +384,11 @@ pub struct SessionProtocolStream<T> {
     handle_context: ProtocolContext,
     context: Arc<SessionContext>,
     receiver: mpsc::Receiver<SessionProtocolEvent>,
-    notify: HashMap<u64, Duration>,
-    notify_sender: mpsc::Sender<u64>,
-    notify_receiver: mpsc::Receiver<u64>,
+    /// Interval of each token and the timer that stands for it
+    notify: HashMap<u64, (Duration, usize)>,
+    next_timer: usize,
+    notify_sender: mpsc::Sender<(u64, usize)>,
+    notify_receiver: mpsc::Receiver<(u64, usize)>,
     current_task: bool,
     panic_report: mpsc::Sender<SessionEvent>,
     shutdown: Arc<AtomicBool>,
@@ -407,6 +418,7 @@ where
             notify_sender,
             notify_receiver,
             notify: HashMap::new(),
+            next_timer: 0,
             context,
             panic_report,
             current_task: false,
@@ -463,8 +475,11 @@ where
                 self.set_notify(token);
             }
             SetNotify { token, interval } => {
-                self.notify.entry(token).or_insert(interval);
-                self.set_notify(token);
+                if !self.notify.contains_key(&token) {
+                    self.next_timer += 1;
+                    self.notify.insert(token, (interval, self.next_timer));
+                    self.set_notify(token);
+                }
             }
             RemoveNotify { token } => {
                 self.notify.remove(&token);
@@ -488,13 +503,13 @@ where
     }
 
     fn set_notify(&mut self, token: u64) {
-        if let Some(&interval) = self.notify.get(&token) {
+        if let Some(&(interval, timer)) = self.notify.get(&token) {
             let mut sender = self.notify_sender.clone();
             // NOTE: A Interval/Delay will block tokio runtime from gracefully shutdown.
             //       So we spawn it in FutureTaskManager
             let task = async move {
                 crate::runtime::delay_for(interval).await;
-                if sender.send(token).await.is_err() {
+                if sender.send((token, timer)).await.is_err() {
                     trace!("session notify token {} send err", token)
                 }
             };
@@ -551,8 +566,11 @@ where
         };
 
         match Pin::new(&mut self.notify_receiver).as_mut().poll_next(cx) {
-            Poll::Ready(Some(token)) => {
-                self.handle_event(SessionProtocolEvent::Notify { token });
+            Poll::Ready(Some((token, timer))) => {
+                // the token may have been removed, or removed and set again, in the meantime
+                if self.notify.get(&token).map(|(_, id)| *id) == Some(timer) {
+                    self.handle_event(SessionProtocolEvent::Notify { token });
+                }
                 is_pending &= false
             }
             Poll::Ready(None) => unreachable!(),
-- 
2.43.0


From 2ab46594ca026d5a8c848fb02588f67f15066fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:16 +0000
Subject: [PATCH 29/43] fix: a protocol stream that is full no longer holds up
 the other streams

A session stopped handing out queued messages at the first protocol stream that
could not take more. Messages queued for the other streams then waited until
that stream moved again.
---
 tentacle/src/session.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index 58911f4..5ee63d2 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -378,7 +378,6 @@ impl Session {
                     );
                     buffer.clear();
                 }
-                break;
             }
         }
     }
-- 
2.43.0


From bcd24d6f6ce3bee08a7d48ed754c95c95f35a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:50:39 +0000
Subject: [PATCH 30/43] fix: count only data that is still queued as pending

Messages for a protocol that is not open, and what was left in a protocol stream
when it closed, stayed in the pending data size of the session for ever. The
session could then be closed as blocked although nothing was queued.
---
 tentacle/src/session.rs   | 22 +++++++++++++++++++++-
 tentacle/src/substream.rs | 29 ++++++++++++++++++++++++++++-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index 5ee63d2..8f665b4 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -4,7 +4,10 @@ use std::collections::{HashMap, HashSet};
 use std::{
     io::{self, ErrorKind},
     pin::Pin,
-    sync::{atomic::Ordering, Arc},
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
     task::{Context, Poll},
     time::Duration,
 };
@@ -176,6 +179,8 @@ pub(crate) struct Session {
     /// Sub streams maps a stream id to a sender of sub stream
     substreams: HashMap<StreamId, PriorityBuffer<ProtocolEvent>>,
     proto_streams: HashMap<ProtocolId, StreamId>,
+    /// Part of the pending data size that was handed to the sub stream
+    stream_pending: HashMap<StreamId, Arc<AtomicUsize>>,
 
     /// Clone to new sub stream
     proto_event_sender: mpsc::Sender<ProtocolEvent>,
@@ -245,6 +250,7 @@ impl Session {
             next_stream: 0,
             substreams: HashMap::default(),
             proto_streams: HashMap::default(),
+            stream_pending: HashMap::default(),
             proto_event_sender,
             proto_event_receiver,
             service_sender: Buffer::new(service_sender),
@@ -438,6 +444,9 @@ impl Session {
             PriorityBuffer::new(session_to_proto_sender.clone()),
         );
         self.proto_streams.insert(proto_id, self.next_stream);
+        let pending_data_size = Arc::new(AtomicUsize::new(0));
+        self.stream_pending
+            .insert(self.next_stream, pending_data_size.clone());
         let raw_part = substream.into_parts();
 
         match proto.spawn {
@@ -467,6 +476,7 @@ impl Session {
                 .proto_id(proto_id)
                 .stream_id(self.next_stream)
                 .config(self.config)
+                .pending_data_size(pending_data_size)
                 .build(FramedWrite::new(write, (proto.codec)()));
 
                 crate::runtime::spawn(write_part.for_each(|_| future::ready(())));
@@ -487,6 +497,7 @@ impl Session {
                 .proto_id(proto_id)
                 .stream_id(self.next_stream)
                 .config(self.config)
+                .pending_data_size(pending_data_size)
                 .service_proto_sender(self.service_proto_senders.get(&proto_id).cloned())
                 .session_proto_sender(self.session_proto_senders.get(&proto_id).cloned())
                 .keep_buffer(self.keep_buffer)
@@ -529,6 +540,11 @@ impl Session {
                 debug!("session [{}] proto [{}] closed", self.context.id, proto_id);
                 if self.substreams.remove(&id).is_some() {
                     self.proto_streams.remove(&proto_id);
+                    if let Some(size) = self.stream_pending.remove(&id) {
+                        // what the stream has not sent is gone
+                        self.context
+                            .decr_pending_data_size(size.load(Ordering::Acquire));
+                    }
                     if self.event.contains(&proto_id) {
                         self.event_output(
                             cx,
@@ -594,6 +610,9 @@ impl Session {
             SessionEvent::ProtocolMessage { proto_id, data, .. } => {
                 if let Some(stream_id) = self.proto_streams.get(&proto_id) {
                     if let Some(buffer) = self.substreams.get_mut(stream_id) {
+                        if let Some(size) = self.stream_pending.get(stream_id) {
+                            size.fetch_add(data.len(), Ordering::Release);
+                        }
                         let event = ProtocolEvent::Message {
                             id: *stream_id,
                             proto_id,
@@ -607,6 +626,7 @@ impl Session {
                         buffer.try_send(cx);
                     }
                 } else {
+                    self.context.decr_pending_data_size(data.len());
                     trace!("protocol {} not ready", proto_id);
                 }
             }
diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index 2365704..912c8d5 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -4,7 +4,10 @@ use std::{
     collections::VecDeque,
     io::{self, ErrorKind},
     pin::Pin,
-    sync::{atomic::Ordering, Arc},
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
     task::{Context, Poll},
 };
 use tokio::prelude::{AsyncRead, AsyncWrite};
@@ -73,6 +76,8 @@ pub(crate) struct Substream<U> {
     proto_id: ProtocolId,
 
     context: Arc<SessionContext>,
+    /// Part of the session's pending data size that belongs to this stream
+    pending_data_size: Arc<AtomicUsize>,
     event: bool,
 
     config: SessionConfig,
@@ -142,6 +147,8 @@ where
             Poll::Ready(()) => {
                 sink.as_mut().start_send(frame)?;
                 self.context.decr_pending_data_size(data_size);
+                self.pending_data_size
+                    .fetch_sub(data_size, Ordering::Release);
                 Ok(false)
             }
             Poll::Pending => {
@@ -526,6 +533,7 @@ pub(crate) struct SubstreamBuilder {
     event: bool,
 
     context: Arc<SessionContext>,
+    pending_data_size: Arc<AtomicUsize>,
 
     service_proto_sender: Option<Buffer<ServiceProtocolEvent>>,
     session_proto_sender: Option<Buffer<SessionProtocolEvent>>,
@@ -550,6 +558,7 @@ impl SubstreamBuilder {
             event_receiver,
             event_sender,
             context,
+            pending_data_size: Arc::default(),
             id: 0,
             proto_id: 0.into(),
             keep_buffer: false,
@@ -573,6 +582,11 @@ impl SubstreamBuilder {
         self
     }
 
+    pub fn pending_data_size(mut self, size: Arc<AtomicUsize>) -> Self {
+        self.pending_data_size = size;
+        self
+    }
+
     pub fn keep_buffer(mut self, keep: bool) -> Self {
         self.keep_buffer = keep;
         self
@@ -608,6 +622,7 @@ impl SubstreamBuilder {
             proto_id: self.proto_id,
             config: self.config,
             context: self.context,
+            pending_data_size: self.pending_data_size,
             event: self.event,
 
             high_write_buf: VecDeque::new(),
@@ -647,6 +662,8 @@ pub(crate) struct SubstreamWritePart<U> {
     event_receiver: priority_mpsc::Receiver<ProtocolEvent>,
 
     context: Arc<SessionContext>,
+    /// Part of the session's pending data size that belongs to this stream
+    pending_data_size: Arc<AtomicUsize>,
 }
 
 impl<U> SubstreamWritePart<U>
@@ -685,6 +702,8 @@ where
             Poll::Ready(()) => {
                 sink.as_mut().start_send(frame)?;
                 self.context.decr_pending_data_size(data_size);
+                self.pending_data_size
+                    .fetch_sub(data_size, Ordering::Release);
                 Ok(false)
             }
             Poll::Pending => {
@@ -962,6 +981,7 @@ pub(crate) struct SubstreamWritePartBuilder {
     config: SessionConfig,
 
     context: Arc<SessionContext>,
+    pending_data_size: Arc<AtomicUsize>,
 
     /// Send event to session
     event_sender: mpsc::Sender<ProtocolEvent>,
@@ -979,6 +999,7 @@ impl SubstreamWritePartBuilder {
             event_receiver,
             event_sender,
             context,
+            pending_data_size: Arc::default(),
             id: 0,
             proto_id: 0.into(),
             config: SessionConfig::default(),
@@ -1000,6 +1021,11 @@ impl SubstreamWritePartBuilder {
         self
     }
 
+    pub fn pending_data_size(mut self, size: Arc<AtomicUsize>) -> Self {
+        self.pending_data_size = size;
+        self
+    }
+
     pub fn build<U>(
         self,
         substream: FramedWrite<crate::runtime::WriteHalf<StreamHandle>, U>,
@@ -1013,6 +1039,7 @@ impl SubstreamWritePartBuilder {
             proto_id: self.proto_id,
             config: self.config,
             context: self.context,
+            pending_data_size: self.pending_data_size,
 
             high_write_buf: VecDeque::new(),
 
-- 
2.43.0


From 915a98aefbcf4fc9de194c7ac4c23180832ac656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:41 +0000
Subject: [PATCH 31/43] fix: report a session that is closed for its queued
 data as blocked, once

A session that was closed because too much data was queued in its protocol
streams went away without the SessionBlocked error. A session that was slow to
close was reported again on every attempt to send.
---
 tentacle/src/context.rs |  3 +++
 tentacle/src/service.rs | 18 +++++++++++++++++-
 tentacle/src/session.rs | 15 +++++++++++++++
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/tentacle/src/context.rs b/tentacle/src/context.rs
index 68e3338..305ed4d 100644
--- a/tentacle/src/context.rs
+++ b/tentacle/src/context.rs
@@ -26,6 +26,8 @@ use crate::{
 pub(crate) struct SessionController {
     pub(crate) buffer: PriorityBuffer<SessionEvent>,
     pub(crate) inner: Arc<SessionContext>,
+    /// The user has been told that this session is blocked
+    pub(crate) blocked: bool,
 }
 
 impl SessionController {
@@ -36,6 +38,7 @@ impl SessionController {
         Self {
             buffer: PriorityBuffer::new(event_sender),
             inner,
+            blocked: false,
         }
     }
 
diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 6f0a01b..2fbafde 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -380,7 +380,11 @@ where
             .filter(|control| !control.buffer.is_empty())
         {
             if let SendResult::Pending = control.try_send(cx) {
-                if control.inner.pending_data_size() > self.config.session_config.send_buffer_size {
+                if !control.blocked
+                    && control.inner.pending_data_size()
+                        > self.config.session_config.send_buffer_size
+                {
+                    control.blocked = true;
                     self.handle.handle_error(
                         &mut self.service_context,
                         ServiceError::SessionBlocked {
@@ -1151,6 +1155,18 @@ where
                     )
                 }
             }
+            SessionEvent::SessionBlocked { id } => {
+                if let Some(session_control) = self.sessions.get_mut(&id) {
+                    if !::std::mem::replace(&mut session_control.blocked, true) {
+                        self.handle.handle_error(
+                            &mut self.service_context,
+                            ServiceError::SessionBlocked {
+                                session_context: Arc::clone(&session_control.inner),
+                            },
+                        )
+                    }
+                }
+            }
             SessionEvent::MuxerError { id, error } => {
                 if let Some(session_control) = self.sessions.get(&id) {
                     self.handle.handle_error(
diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index 8f665b4..b69868b 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -132,6 +132,11 @@ pub(crate) enum SessionEvent {
         /// Session id
         id: SessionId,
     },
+    /// More data is queued than the user allows
+    SessionBlocked {
+        /// Session id
+        id: SessionId,
+    },
     /// Codec error
     ProtocolError {
         /// Session id
@@ -366,6 +371,7 @@ impl Session {
 
     #[inline]
     fn distribute_to_substream(&mut self, cx: &mut Context) {
+        let mut blocked = false;
         for buffer in self
             .substreams
             .values_mut()
@@ -374,6 +380,7 @@ impl Session {
             if let SendResult::Pending = buffer.try_send(cx) {
                 if self.context.pending_data_size() > self.config.send_buffer_size {
                     self.state = SessionState::Abnormal;
+                    blocked = true;
                     warn!(
                         "session {:?} unable to send message, \
                          user allow buffer size: {}, \
@@ -386,6 +393,14 @@ impl Session {
                 }
             }
         }
+        if blocked {
+            self.event_output(
+                cx,
+                SessionEvent::SessionBlocked {
+                    id: self.context.id,
+                },
+            );
+        }
     }
 
     /// Handling client-initiated open protocol sub stream requests
-- 
2.43.0


From d00e74690f6c3f59698d0b86d56cd105e4301b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:05 +0000
Subject: [PATCH 32/43] fix: limit the quick messages queued for a protocol
 stream

A protocol stream stops taking messages when its write buffer is full. Only
normal messages counted, so quick messages for a peer that does not read piled
up without limit and the session was never closed as blocked.
---
 tentacle/src/substream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index 912c8d5..cb0f21f 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -351,7 +351,7 @@ where
             return Poll::Ready(None);
         }
 
-        if self.write_buf.len() > self.config.send_event_size() {
+        if self.write_buf.len() + self.high_write_buf.len() > self.config.send_event_size() {
             return Poll::Pending;
         }
 
@@ -796,7 +796,7 @@ where
             return Poll::Ready(None);
         }
 
-        if self.write_buf.len() > self.config.send_event_size() {
+        if self.write_buf.len() + self.high_write_buf.len() > self.config.send_event_size() {
             return Poll::Pending;
         }
 
-- 
2.43.0


From 904ba80d4195c30fd77ce262ee0f81be05dcd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:57 +0000
Subject: [PATCH 33/43] fix: keep to the configured maximum number of
 connections

A service with max_connection_number(n) opened n + 1 sessions, because the
limit was only considered reached when it had been exceeded.
---
 tentacle/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 2fbafde..aa5a9f4 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -630,7 +630,7 @@ where
         self.sessions
             .len()
             .checked_add(self.state.into_inner().unwrap_or_default())
-            .map(|count| self.config.max_connection_number < count)
+            .map(|count| self.config.max_connection_number <= count)
             .unwrap_or_default()
     }
 
-- 
2.43.0


From 0097dc1e92112486aaf3a67e49df895cdcc81a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:02 +0000
Subject: [PATCH 34/43] fix: keep the service running when a session ends
 during a listen change

The service tells every session handler about a changed listen address.
A handler ends together with its session.  An update queued for a handler
that had just ended was taken for a crashed handler, and the whole service
was shut down.
---
 tentacle/src/service.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index aa5a9f4..241bfb7 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -467,6 +467,15 @@ where
                 }
                 SendResult::Ok => (),
                 SendResult::Disconnect => {
+                    // the handle ends with its session, whose close event is on its way
+                    if self
+                        .sessions
+                        .get(session_id)
+                        .map(|control| control.inner.closed())
+                        .unwrap_or(true)
+                    {
+                        continue;
+                    }
                     error = true;
                     self.handle.handle_error(
                         &mut self.service_context,
-- 
2.43.0


From 5b3853604ece8a8e38631c5e9f6fd186f868ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:02 +0000
Subject: [PATCH 35/43] fix: keep reaching a session handler after its protocol
 was closed

The handler lives as long as the session, and the protocol can be opened
again.  Forgetting its channel when the protocol closed meant that later
notification requests and listen address changes were silently lost.
---
 tentacle/src/service.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 241bfb7..5f7f818 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -949,7 +949,6 @@ where
                 )
             }
         }
-        self.session_proto_handles.remove(&(session_id, proto_id));
     }
 
     fn send_pending_task(&mut self, cx: &mut Context) {
-- 
2.43.0


From fa5f21779d3218d76b22658e578ae79f710560d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:27 +0000
Subject: [PATCH 36/43] fix: report a handler that panics in its poll

A panic in any other callback is reported and the service is shut down.  A
panic in poll went unnoticed, and the service ran on without the handler.
---
 tentacle/src/protocol_handle_stream.rs | 27 ++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index 5e8c734..fd2aff4 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -227,14 +227,17 @@ where
     }
 
     fn handle_poll(&mut self, cx: &mut Context) -> bool {
-        match Pin::new(&mut self.handle).poll(cx, &mut self.handle_context) {
+        self.current_task.run();
+        let is_pending = match Pin::new(&mut self.handle).poll(cx, &mut self.handle_context) {
             Poll::Ready(None) => {
                 self.need_poll = false;
                 true
             }
             Poll::Ready(Some(())) => false,
             Poll::Pending => true,
-        }
+        };
+        self.current_task.idle();
+        is_pending
     }
 
     fn set_notify(&mut self, token: u64) {
@@ -492,14 +495,18 @@ where
     }
 
     fn handle_poll(&mut self, cx: &mut Context) -> bool {
-        match Pin::new(&mut self.handle).poll(cx, self.handle_context.as_mut(&self.context)) {
-            Poll::Ready(None) => {
-                self.need_poll = false;
-                true
-            }
-            Poll::Ready(Some(())) => false,
-            Poll::Pending => true,
-        }
+        self.current_task = true;
+        let is_pending =
+            match Pin::new(&mut self.handle).poll(cx, self.handle_context.as_mut(&self.context)) {
+                Poll::Ready(None) => {
+                    self.need_poll = false;
+                    true
+                }
+                Poll::Ready(Some(())) => false,
+                Poll::Pending => true,
+            };
+        self.current_task = false;
+        is_pending
     }
 
     fn set_notify(&mut self, token: u64) {
-- 
2.43.0


From 09e6564516e6c2e3a7703482d927759b6970bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:27 +0000
Subject: [PATCH 37/43] fix: report a handler that panics when told that a
 session has gone

When the session closes before its protocol does, the handler is told
outside the span in which a panic is noticed.  The service then ran on
without the handler.
---
 tentacle/src/protocol_handle_stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index fd2aff4..3bc4580 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -159,6 +159,7 @@ where
             .collect::<Vec<_>>();
         for session_id in closed_sessions {
             if let Some(session) = self.sessions.remove(&session_id) {
+                self.current_task.run_with_id(session_id);
                 self.handle
                     .disconnected(self.handle_context.as_mut(&session));
             }
-- 
2.43.0


From 8420c47af74f5ac9dad3d69a4a5e23a69068a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:26:41 +0000
Subject: [PATCH 38/43] fix: refuse flatbuffers negotiation messages whose
 strings are not UTF-8

The flatbuffers verifier does not look inside strings, so a remote could pass
a protocol name or version to the user as an invalid String.
---
 tentacle/src/protocol_select/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tentacle/src/protocol_select/mod.rs b/tentacle/src/protocol_select/mod.rs
index 2b0eb6b..bfdc54f 100644
--- a/tentacle/src/protocol_select/mod.rs
+++ b/tentacle/src/protocol_select/mod.rs
@@ -87,11 +87,13 @@ impl ProtocolInfo {
         ) {
             (Some(name), Some(fbs_versions)) => {
                 let mut versions: Vec<String> = Vec::with_capacity(fbs_versions.len() + 1);
+                // the verifier does not check that strings are valid utf-8
                 for i in 0..fbs_versions.len() {
-                    versions.push(fbs_versions.get(i).to_owned());
+                    let version = fbs_versions.get(i).as_bytes().to_owned();
+                    versions.push(String::from_utf8(version).ok()?);
                 }
                 Some(ProtocolInfo {
-                    name: name.to_owned(),
+                    name: String::from_utf8(name.as_bytes().to_owned()).ok()?,
                     support_versions: versions,
                 })
             }
-- 
2.43.0


From 9beee46a382551014a177d93980fa1cb97a061d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:35 +0000
Subject: [PATCH 39/43] fix: remember in the ping protocol that a ping was sent

A sent ping was never marked as waiting for its answer. Every answer was
taken for an unexpected one and the peer disconnected, and a peer that did
not answer was never reported.
---
 protocols/ping/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocols/ping/src/lib.rs b/protocols/ping/src/lib.rs
index 115b04b..712a73b 100644
--- a/protocols/ping/src/lib.rs
+++ b/protocols/ping/src/lib.rs
@@ -229,6 +229,7 @@ where
                                 }
                             }
                             ps.nonce = send_nonce;
+                            ps.processing = true;
                             Some(*session_id)
                         }
                     })
-- 
2.43.0


From 6610f4300924e5a0299bb106f53a3797ad1ecd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:35 +0000
Subject: [PATCH 40/43] fix: read the nonce of a ping from any address

The nonce lies anywhere in a received message. Reading it as an aligned
integer is undefined, and a build with debug assertions aborts.
---
 protocols/ping/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocols/ping/src/lib.rs b/protocols/ping/src/lib.rs
index 712a73b..b805e19 100644
--- a/protocols/ping/src/lib.rs
+++ b/protocols/ping/src/lib.rs
@@ -362,11 +362,11 @@ impl PingMessage {
         match reader.payload().to_enum() {
             protocol_mol::PingPayloadUnionReader::Ping(reader) => {
                 let le = reader.nonce().raw_data().as_ptr() as *const u32;
-                Some(PingPayload::Ping(u32::from_le(unsafe { *le })))
+                Some(PingPayload::Ping(u32::from_le(unsafe { le.read_unaligned() })))
             }
             protocol_mol::PingPayloadUnionReader::Pong(reader) => {
                 let le = reader.nonce().raw_data().as_ptr() as *const u32;
-                Some(PingPayload::Pong(u32::from_le(unsafe { *le })))
+                Some(PingPayload::Pong(u32::from_le(unsafe { le.read_unaligned() })))
             }
         }
     }
-- 
2.43.0


From c03266b908064345cb17279a57ef8931508d1cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:05 +0000
Subject: [PATCH 41/43] fix: report the peers that did not identify themselves
 as timed out

The identify protocol reported the peers that had sent their message, and
never those that had not.
---
 protocols/identify/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/identify/src/lib.rs b/protocols/identify/src/lib.rs
index 5e47b6e..9681634 100644
--- a/protocols/identify/src/lib.rs
+++ b/protocols/identify/src/lib.rs
@@ -341,7 +341,7 @@ impl<T: Callback> ServiceProtocol for IdentifyProtocol<T> {
         }
 
         for (session_id, info) in &self.remote_infos {
-            if info.has_received && (info.connected_at + info.timeout) <= Instant::now() {
+            if !info.has_received && (info.connected_at + info.timeout) <= Instant::now() {
                 debug!("{:?} receive identify message timeout", info.peer_id);
                 if self
                     .callback
-- 
2.43.0


From 0f1b40b91f17b6bdcd2aefec97dba24a301f4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:18 +0000
Subject: [PATCH 42/43] fix: answer a discovery request with no more addresses
 than asked for

The limit of an answer was the larger of what the peer asked for and what
any answer may hold, not the smaller. A peer that asked for more than 1000
addresses got an answer that counts as misbehaviour.
---
 protocols/discovery/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/discovery/src/lib.rs b/protocols/discovery/src/lib.rs
index 20afb51..420296f 100644
--- a/protocols/discovery/src/lib.rs
+++ b/protocols/discovery/src/lib.rs
@@ -140,7 +140,7 @@ impl<M: AddressManager> ServiceProtocol for DiscoveryProtocol<M> {
                                 }
                             }
 
-                            let max = ::std::cmp::max(MAX_ADDR_TO_SEND, count as usize);
+                            let max = ::std::cmp::min(MAX_ADDR_TO_SEND, count as usize);
                             if items.len() > max {
                                 items = items
                                     .choose_multiple(&mut rand::thread_rng(), max)
-- 
2.43.0


From bf22e6bf3b5a7653d512e6dfb6ed6cd8736b0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:21:21 +0000
Subject: [PATCH 43/43] fix: refuse a flatbuffers ping or pong without its
 payload

Verification accepts a message whose union has a type but no value.
Decoding unwrapped the value, so a peer could make the handler panic,
which ends the whole service. Such a message is now a malicious one,
like every other that cannot be read.
---
 protocols/ping/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/protocols/ping/src/lib.rs b/protocols/ping/src/lib.rs
index b805e19..3bbf17a 100644
--- a/protocols/ping/src/lib.rs
+++ b/protocols/ping/src/lib.rs
@@ -309,12 +309,12 @@ impl PingMessage {
             flatbuffers_verifier::get_root::<protocol_generated::p2p::ping::PingMessage>(data)
                 .ok()?;
         match msg.payload_type() {
-            protocol_generated::p2p::ping::PingPayload::Ping => {
-                Some(PingPayload::Ping(msg.payload_as_ping().unwrap().nonce()))
-            }
-            protocol_generated::p2p::ping::PingPayload::Pong => {
-                Some(PingPayload::Pong(msg.payload_as_pong().unwrap().nonce()))
-            }
+            protocol_generated::p2p::ping::PingPayload::Ping => msg
+                .payload_as_ping()
+                .map(|ping| PingPayload::Ping(ping.nonce())),
+            protocol_generated::p2p::ping::PingPayload::Pong => msg
+                .payload_as_pong()
+                .map(|pong| PingPayload::Pong(pong.nonce())),
             protocol_generated::p2p::ping::PingPayload::NONE => None,
         }
     }
-- 
2.43.0

