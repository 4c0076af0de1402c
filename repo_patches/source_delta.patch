From 152b07e361257d04303e0db5494bd0af8fa97e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:31 +0000
Subject: [PATCH 01/21] fix: apply the frame size limit to data frames only

Ping, window update and go away frames carry a value in the length field.
A ping whose value was above the maximum frame size ended the session.
---
 yamux/src/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/frame.rs b/yamux/src/frame.rs
index 25686df..1e436fa 100644
--- a/yamux/src/frame.rs
+++ b/yamux/src/frame.rs
@@ -293,7 +293,8 @@ impl Decoder for FrameCodec {
                 let flags = Flags(header_data.get_u16());
                 let stream_id = header_data.get_u32();
                 let length = header_data.get_u32();
-                if length > self.max_frame_size {
+                // Only a data frame's length is a body size, other types carry a value in it
+                if ty == Type::Data && length > self.max_frame_size {
                     let err = io::Error::new(
                         io::ErrorKind::InvalidData,
                         format!("yamux.length={}", length),
-- 
2.43.0


From 7c3b32399c00360808357a3ea6a468c5a1d6e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:31 +0000
Subject: [PATCH 02/21] fix: keep distributing frames after a refused stream

The frames queued behind a refused or duplicate open were thrown away.
They belong to other streams that are still alive.
---
 yamux/src/session.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index ecf7ea0..6021688 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -409,7 +409,7 @@ where
                         stream_id, self.ty
                     );
                     // TODO: should report error?
-                    return Ok(());
+                    continue;
                 }
                 if self.streams.len() < self.config.max_stream_count
                     && self.pending_streams.len() < self.config.accept_backlog
@@ -422,7 +422,7 @@ where
                         Ok(stream) => stream,
                         Err(_) => {
                             self.send_go_away_with_code(cx, GoAwayCode::ProtocolError)?;
-                            return Ok(());
+                            continue;
                         }
                     };
                     self.pending_streams.push_back(stream);
-- 
2.43.0


From cffc29336a26ecb89c05cec50d7301a932c0ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:06 +0000
Subject: [PATCH 03/21] verif: let guarded builds set the next stream id

---
 yamux/src/session.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index 6021688..addaee7 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -605,6 +605,14 @@ where
     }
 }
 
+#[cfg(verif)]
+impl<T> Session<T> {
+    /// Set the id the next locally opened stream gets
+    pub fn verif_set_next_stream_id(&mut self, id: StreamId) {
+        self.next_stream_id = id;
+    }
+}
+
 impl<T> Stream for Session<T>
 where
     T: AsyncRead + AsyncWrite + Unpin,
-- 
2.43.0


From 6845286931b49ecf0bd4ca788829f8abedc7a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:25 +0000
Subject: [PATCH 04/21] fix: accept a peer id only with a one-byte hash code

A longer varint encoding of the same code was accepted as well.
One peer then had several byte forms that compared unequal.
---
 secio/src/peer_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/secio/src/peer_id.rs b/secio/src/peer_id.rs
index 48ddc2e..1c4ed9c 100644
--- a/secio/src/peer_id.rs
+++ b/secio/src/peer_id.rs
@@ -27,7 +27,8 @@ impl PeerId {
 
     /// If data is a valid `PeerId`, return `PeerId`, else return error
     pub fn from_bytes(data: Vec<u8>) -> Result<Self, ()> {
-        if data.is_empty() {
+        // the code takes one byte, a longer encoding of it would be a second form of the same id
+        if data.len() != SHA256_SIZE as usize + 2 {
             return Err(());
         }
 
-- 
2.43.0


From 3482f98c6d07ab7b6041593a0f6fd691b4e72e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:25 +0000
Subject: [PATCH 05/21] fix: wait for the complete nonce echo in the handshake

A single read may return fewer bytes than the nonce has.
The rest of the buffer still held our own nonce, so a short echo passed.
---
 secio/src/codec/secure_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index fe8df5a..2a303ff 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -112,7 +112,7 @@ where
     pub(crate) async fn verify_nonce(&mut self) -> Result<(), SecioError> {
         if !self.nonce.is_empty() {
             let mut nonce = self.nonce.clone();
-            self.read(&mut nonce).await?;
+            self.read_exact(&mut nonce).await?;
 
             trace!(
                 "received nonce={}, my_nonce={}",
-- 
2.43.0


From acbe14293dc37373b0de1fa49660b38d2c71b48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:25 +0000
Subject: [PATCH 06/21] fix: keep buffered bytes on a read with an empty buffer

Such a read went on to take the next frame.
That frame replaced the bytes still waiting to be read.
---
 secio/src/codec/secure_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index 2a303ff..8a262aa 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -165,7 +165,7 @@ where
     ) -> Poll<io::Result<usize>> {
         // when there is something in recv_buffer
         let copied = self.drain(buf);
-        if copied > 0 {
+        if copied > 0 || buf.is_empty() {
             return Poll::Ready(Ok(copied));
         }
 
-- 
2.43.0


From 5f98cde9a117e680c740679f3552b5383d221d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:25 +0000
Subject: [PATCH 07/21] fix: send nothing for an empty write on a secure stream

The empty message arrived as a read of zero bytes.
Readers take that for the end of the stream.
---
 secio/src/codec/secure_stream.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index 8a262aa..ab64c64 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -213,6 +213,11 @@ where
         cx: &mut Context<'_>,
         buf: &[u8],
     ) -> Poll<io::Result<usize>> {
+        // an empty frame would look like the end of the stream to the remote
+        if buf.is_empty() {
+            return Poll::Ready(Ok(0));
+        }
+
         match self.socket.poll_ready_unpin(cx) {
             Poll::Ready(Ok(_)) => {
                 trace!("poll_write buf.len={}", buf.len());
-- 
2.43.0


From ae0c7c312c9cd5116b99c23c01ceb3b405eb6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:42 +0000
Subject: [PATCH 08/21] verif: give guarded builds a way to private items of
 the secure channel

---
 secio/src/crypto/mod.rs | 7 +++++++
 secio/src/lib.rs        | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/secio/src/crypto/mod.rs b/secio/src/crypto/mod.rs
index 418ab9f..9bd7396 100644
--- a/secio/src/crypto/mod.rs
+++ b/secio/src/crypto/mod.rs
@@ -97,6 +97,13 @@ fn nonce_advance(nonce: &mut [u8]) {
     }
 }
 
+#[cfg(verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    include!(concat!(env!("VERIF_HOOKS"), "/secio_crypto.rs"));
+}
+
 #[cfg(all(test, unix))]
 mod test {
     use super::{
diff --git a/secio/src/lib.rs b/secio/src/lib.rs
index e9fef86..83ded45 100644
--- a/secio/src/lib.rs
+++ b/secio/src/lib.rs
@@ -22,6 +22,13 @@ mod sha256_compat;
 /// Supported algorithms
 mod support;
 
+#[cfg(verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    include!(concat!(env!("VERIF_HOOKS"), "/secio.rs"));
+}
+
 /// Public key generated temporarily during the handshake
 pub type EphemeralPublicKey = Vec<u8>;
 
-- 
2.43.0


From 45391796c750df531e3db91384d704c378fcee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:44 +0000
Subject: [PATCH 09/21] fix: accept only the shortest varint encodings in a
 multiaddr

A component id or length could be padded with zero bits, so one address had
many byte forms that compared as different addresses.
---
 multiaddr/src/protocol.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/multiaddr/src/protocol.rs b/multiaddr/src/protocol.rs
index 9a4ed59..ab054da 100644
--- a/multiaddr/src/protocol.rs
+++ b/multiaddr/src/protocol.rs
@@ -87,22 +87,21 @@ impl<'a> Protocol<'a> {
     /// Parse a single `Protocol` value from its byte slice representation,
     /// returning the protocol as well as the remaining byte slice.
     pub fn from_bytes(input: &'a [u8]) -> Result<(Self, &'a [u8]), Error> {
-        use unsigned_varint::decode;
         fn split_header(n: usize, input: &[u8]) -> Result<(&[u8], &[u8]), Error> {
             if input.len() < n {
                 return Err(Error::DataLessThanLen);
             }
             Ok(input.split_at(n))
         }
-        let (id, input) = decode::u32(input)?;
+        let (id, input) = decode_u32(input)?;
         match id {
             DNS4 => {
-                let (n, input) = decode::usize(input)?;
+                let (n, input) = decode_usize(input)?;
                 let (data, rest) = split_header(n, input)?;
                 Ok((Protocol::DNS4(Cow::Borrowed(str::from_utf8(data)?)), rest))
             }
             DNS6 => {
-                let (n, input) = decode::usize(input)?;
+                let (n, input) = decode_usize(input)?;
                 let (data, rest) = split_header(n, input)?;
                 Ok((Protocol::DNS6(Cow::Borrowed(str::from_utf8(data)?)), rest))
             }
@@ -129,12 +128,12 @@ impl<'a> Protocol<'a> {
                 Ok((Protocol::IP6(addr), rest))
             }
             TLS => {
-                let (n, input) = decode::usize(input)?;
+                let (n, input) = decode_usize(input)?;
                 let (data, rest) = split_header(n, input)?;
                 Ok((Protocol::TLS(Cow::Borrowed(str::from_utf8(data)?)), rest))
             }
             P2P => {
-                let (n, input) = decode::usize(input)?;
+                let (n, input) = decode_usize(input)?;
                 let (data, rest) = split_header(n, input)?;
                 check_p2p(data)?;
                 Ok((Protocol::P2P(Cow::Borrowed(data)), rest))
@@ -256,6 +255,26 @@ impl<'a> From<Ipv6Addr> for Protocol<'a> {
     }
 }
 
+/// Decode a varint, only its shortest encoding is accepted
+fn decode_u32(input: &[u8]) -> Result<(u32, &[u8]), Error> {
+    let (n, rest) = unsigned_varint::decode::u32(input)?;
+    let mut buf = unsigned_varint::encode::u32_buffer();
+    if !input.starts_with(unsigned_varint::encode::u32(n, &mut buf)) {
+        return Err(Error::InvalidMultiaddr);
+    }
+    Ok((n, rest))
+}
+
+/// Decode a varint, only its shortest encoding is accepted
+fn decode_usize(input: &[u8]) -> Result<(usize, &[u8]), Error> {
+    let (n, rest) = unsigned_varint::decode::usize(input)?;
+    let mut buf = unsigned_varint::encode::usize_buffer();
+    if !input.starts_with(unsigned_varint::encode::usize(n, &mut buf)) {
+        return Err(Error::InvalidMultiaddr);
+    }
+    Ok((n, rest))
+}
+
 fn check_p2p(data: &[u8]) -> Result<(), Error> {
     let (code, bytes) = unsigned_varint::decode::u16(&data)?;
 
-- 
2.43.0


From 01dabb15dbfdcd97b8da0804267bd7510de8427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:44 +0000
Subject: [PATCH 10/21] fix: accept a p2p component only if it is a peer id

A hash code with a padded varint passed the check although it is not a valid
peer id, so no peer id could be extracted from such an address.
---
 multiaddr/src/protocol.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multiaddr/src/protocol.rs b/multiaddr/src/protocol.rs
index ab054da..780d823 100644
--- a/multiaddr/src/protocol.rs
+++ b/multiaddr/src/protocol.rs
@@ -276,6 +276,11 @@ fn decode_usize(input: &[u8]) -> Result<(usize, &[u8]), Error> {
 }
 
 fn check_p2p(data: &[u8]) -> Result<(), Error> {
+    // the code takes one byte, peer ids have no other form
+    if data.len() != SHA256_SIZE as usize + 2 {
+        return Err(Error::UnknownHash);
+    }
+
     let (code, bytes) = unsigned_varint::decode::u16(&data)?;
 
     if code != SHA256_CODE {
-- 
2.43.0


From 57c0b3a354235d9b4783f680db4b0f788347634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:44 +0000
Subject: [PATCH 11/21] fix: find a socket address behind a repeated host in a
 multiaddr

The component after a host was skipped even if it was a host itself, so the
first host with a tcp port could be missed.
---
 tentacle/src/utils.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tentacle/src/utils.rs b/tentacle/src/utils.rs
index 8b1482c..4a0a8f4 100644
--- a/tentacle/src/utils.rs
+++ b/tentacle/src/utils.rs
@@ -74,14 +74,13 @@ pub fn multiaddr_to_socketaddr(addr: &Multiaddr) -> Option<SocketAddr> {
         }
 
         let proto1 = iter.next()?;
-        let proto2 = iter.next()?;
 
-        match (proto1, proto2) {
-            (Protocol::IP4(ip), Protocol::TCP(port)) => {
-                return Some(SocketAddr::new(ip.into(), port));
+        match (proto1, iter.peek()) {
+            (Protocol::IP4(ip), Some(Protocol::TCP(port))) => {
+                return Some(SocketAddr::new(ip.into(), *port));
             }
-            (Protocol::IP6(ip), Protocol::TCP(port)) => {
-                return Some(SocketAddr::new(ip.into(), port));
+            (Protocol::IP6(ip), Some(Protocol::TCP(port))) => {
+                return Some(SocketAddr::new(ip.into(), *port));
             }
             _ => (),
         }
-- 
2.43.0


From a31bceba05163cb7b14f5dfac6d8b43782a7bca4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 04:12:03 +0000
Subject: [PATCH 12/21] fix: order version lists before selecting the highest
 common version

---
 tentacle/src/protocol_select/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tentacle/src/protocol_select/mod.rs b/tentacle/src/protocol_select/mod.rs
index 2b0eb6b..c90b48e 100644
--- a/tentacle/src/protocol_select/mod.rs
+++ b/tentacle/src/protocol_select/mod.rs
@@ -213,7 +213,12 @@ pub(crate) async fn server_select<T: AsyncWrite + AsyncRead + Send + Unpin>(
             select
                 .map(|f| f(&local_info.support_versions, &remote_info.support_versions))
                 .unwrap_or_else(|| {
-                    select_version(&local_info.support_versions, &remote_info.support_versions)
+                    // nothing orders the lists before they get here
+                    let mut local = local_info.support_versions.clone();
+                    let mut remote = remote_info.support_versions.clone();
+                    local.sort();
+                    remote.sort();
+                    select_version(&local, &remote)
                 })
         });
 
-- 
2.43.0


From 251cec1174cf2bd6f470c6fc391ab346655cbb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:15 +0000
Subject: [PATCH 13/21] fix: refuse a session once the configured maximum is
 reached

The limit test accepted a connection while the number of sessions already
equalled the maximum, so one session too many could be opened.
---
 tentacle/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 98c3f23..a36fb3a 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -625,7 +625,7 @@ where
         self.sessions
             .len()
             .checked_add(self.state.into_inner().unwrap_or_default())
-            .map(|count| self.config.max_connection_number < count)
+            .map(|count| self.config.max_connection_number <= count)
             .unwrap_or_default()
     }
 
-- 
2.43.0


From 3ebf5d5ee5686ef8bcea9bc351e6eba34b3e0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:27 +0000
Subject: [PATCH 14/21] fix: count the end of a failed listen that names a live
 listener

Two requests to listen on the same address can be in flight together. The
second one fails, and its failure was taken for the end of the listener the
first one had started: the listener's address was dropped and the count of
pending attempts never came down. A failed start now has its own event.
---
 tentacle/src/service.rs | 16 ++++++++++++----
 tentacle/src/session.rs |  8 ++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index a36fb3a..8edf72e 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -284,7 +284,7 @@ where
                         listen_address: addr,
                         incoming,
                     },
-                    Err(error) => SessionEvent::ListenError { address, error },
+                    Err(error) => SessionEvent::ListenStartError { address, error },
                 };
                 if let Err(err) = sender.send(event).await {
                     error!("Listen address result send back error: {:?}", err);
@@ -1109,11 +1109,19 @@ where
                         &mut self.service_context,
                         ServiceEvent::ListenClose { address },
                     )
-                } else {
-                    // try start listen error
-                    self.state.decrease();
                 }
             }
+            #[cfg(not(target_arch = "wasm32"))]
+            SessionEvent::ListenStartError { address, error } => {
+                self.handle.handle_error(
+                    &mut self.service_context,
+                    ServiceError::ListenError {
+                        address,
+                        error: ListenErrorKind::TransportError(error),
+                    },
+                );
+                self.state.decrease();
+            }
             SessionEvent::SessionTimeout { id } => {
                 if let Some(session_control) = self.sessions.get(&id) {
                     self.handle.handle_error(
diff --git a/tentacle/src/session.rs b/tentacle/src/session.rs
index f6db4fc..8765120 100644
--- a/tentacle/src/session.rs
+++ b/tentacle/src/session.rs
@@ -73,12 +73,20 @@ pub(crate) enum SessionEvent {
         /// error
         error: TransportErrorKind,
     },
+    /// A running listener failed
     ListenError {
         /// listen address
         address: Multiaddr,
         /// error
         error: TransportErrorKind,
     },
+    /// An attempt to listen failed
+    ListenStartError {
+        /// listen address
+        address: Multiaddr,
+        /// error
+        error: TransportErrorKind,
+    },
     /// Protocol data
     ProtocolMessage {
         /// Session id
-- 
2.43.0


From 697e94cf63c80b62998971395d5055fbbef39658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:43:05 +0000
Subject: [PATCH 15/21] verif: give guarded builds a way to private items of
 the service

---
 tentacle/src/lib.rs     | 7 +++++++
 tentacle/src/service.rs | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/tentacle/src/lib.rs b/tentacle/src/lib.rs
index 76ad14e..74043df 100644
--- a/tentacle/src/lib.rs
+++ b/tentacle/src/lib.rs
@@ -134,6 +134,13 @@ use std::{fmt, ops::AddAssign};
 
 pub use substream::SubstreamReadPart;
 
+#[cfg(verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    include!(concat!(env!("VERIF_HOOKS"), "/tentacle.rs"));
+}
+
 /// Index of sub/protocol stream
 type StreamId = usize;
 /// Protocol id
diff --git a/tentacle/src/service.rs b/tentacle/src/service.rs
index 8edf72e..3994f4e 100644
--- a/tentacle/src/service.rs
+++ b/tentacle/src/service.rs
@@ -57,6 +57,15 @@ pub use crate::service::{
 };
 use bytes::Bytes;
 
+#[cfg(verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    #![allow(unused_imports)]
+    use super::*;
+    include!(concat!(env!("VERIF_HOOKS"), "/tentacle_service.rs"));
+}
+
 /// Received from user, aggregate mode
 pub(crate) const RECEIVED_BUFFER_SIZE: usize = 2048;
 /// Use to receive open/close event, no need too large
-- 
2.43.0


From ff0130dbc4f47e4af189ea260c2fb5e2324d05e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:08:41 +0000
Subject: [PATCH 16/21] fix: refuse a flatbuffers protocol message whose texts
 are not utf-8

With the flatc feature, ProtocolInfo::decode took the name and the versions
from the message without checking their encoding. flatbuffers does not check
it either, so a peer could put invalid strings into safe code, where printing
them panics. Such a message is now refused, as it is with the molc feature.
---
 tentacle/src/protocol_select/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tentacle/src/protocol_select/mod.rs b/tentacle/src/protocol_select/mod.rs
index c90b48e..ba6133c 100644
--- a/tentacle/src/protocol_select/mod.rs
+++ b/tentacle/src/protocol_select/mod.rs
@@ -88,10 +88,12 @@ impl ProtocolInfo {
             (Some(name), Some(fbs_versions)) => {
                 let mut versions: Vec<String> = Vec::with_capacity(fbs_versions.len() + 1);
                 for i in 0..fbs_versions.len() {
-                    versions.push(fbs_versions.get(i).to_owned());
+                    // flatbuffers does not check that a string is utf-8
+                    let version = fbs_versions.get(i).as_bytes().to_owned();
+                    versions.push(String::from_utf8(version).ok()?);
                 }
                 Some(ProtocolInfo {
-                    name: name.to_owned(),
+                    name: String::from_utf8(name.as_bytes().to_owned()).ok()?,
                     support_versions: versions,
                 })
             }
-- 
2.43.0


From 7098ce4015b229c9450368ca2a2947448c338621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:08:41 +0000
Subject: [PATCH 17/21] fix: refuse a flatbuffers handshake proposal whose
 texts are not utf-8

With the flatc feature, Propose::decode took the three offer lists from the
message without checking their encoding, so invalid strings reached safe code.
Such a proposal is now refused, as it is with the molc feature.
---
 secio/src/handshake/handshake_struct.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/secio/src/handshake/handshake_struct.rs b/secio/src/handshake/handshake_struct.rs
index 2c93942..2afb18e 100644
--- a/secio/src/handshake/handshake_struct.rs
+++ b/secio/src/handshake/handshake_struct.rs
@@ -65,9 +65,10 @@ impl Propose {
                 Some(Propose {
                     rand: rand.to_owned(),
                     pubkey: Bytes::from(pubkey.to_owned()),
-                    exchange: exchange.to_owned(),
-                    ciphers: ciphers.to_owned(),
-                    hashes: hashes.to_owned(),
+                    // flatbuffers does not check that a string is utf-8
+                    exchange: String::from_utf8(exchange.as_bytes().to_owned()).ok()?,
+                    ciphers: String::from_utf8(ciphers.as_bytes().to_owned()).ok()?,
+                    hashes: String::from_utf8(hashes.as_bytes().to_owned()).ok()?,
                 })
             }
             _ => None,
-- 
2.43.0


From 48e12e1e7353c529312128b8ef08b2375ae0385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:23:23 +0000
Subject: [PATCH 18/21] fix: go on reading after a websocket message without
 data

After a ping, pong, text or empty message the reader returned pending
without the task being registered with the socket.
What the peer sent next was then not read until something else woke the task.
---
 tentacle/src/transports/ws.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 8621a68..52866cd 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -356,6 +356,8 @@ impl AsyncRead for WsStream {
                 };
 
                 if data.is_empty() {
+                    // the socket has not registered the task, there may be more to read
+                    cx.waker().wake_by_ref();
                     return Poll::Pending;
                 }
                 // when input buffer is big enough
-- 
2.43.0


From 806d068d9d6a861804f9277c0f87146649bb13d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:23:23 +0000
Subject: [PATCH 19/21] fix: keep unread websocket bytes on a read with an
 empty buffer

Such a read took the next message from the socket.
The next message then replaced the bytes that were still unread.
---
 tentacle/src/transports/ws.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 52866cd..3409d73 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -337,7 +337,7 @@ impl AsyncRead for WsStream {
 
         // when there is something in recv_buffer
         let copied = self.drain(buf);
-        if copied > 0 {
+        if copied > 0 || !self.recv_buf.is_empty() {
             return Poll::Ready(Ok(copied));
         }
 
-- 
2.43.0


From 9582c5b6a697ae11830930b50bc361527844fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:23:23 +0000
Subject: [PATCH 20/21] fix: go on accepting while a websocket connection is
 upgraded

After accepting a connection the listener waited for its upgrade only.
A client that connected and sent nothing kept all others from being accepted.
---
 tentacle/src/transports/ws.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tentacle/src/transports/ws.rs b/tentacle/src/transports/ws.rs
index 3409d73..a67c208 100644
--- a/tentacle/src/transports/ws.rs
+++ b/tentacle/src/transports/ws.rs
@@ -247,10 +247,13 @@ impl Stream for WebsocketListener {
                             },
                         }
                     });
+                    // the socket has not registered the task, there may be more to accept
+                    cx.waker().wake_by_ref();
                     self.poll_pending(cx)
                 }
                 Err(err) => {
                     debug!("stream get peer address error: {:?}", err);
+                    cx.waker().wake_by_ref();
                     Poll::Pending
                 }
             },
-- 
2.43.0


From d7bca31a3cb71e20167816daf3934e8c83bd520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:23:23 +0000
Subject: [PATCH 21/21] fix: go on accepting after a connection that is already
 gone

A client that connects and resets at once has no peer address any more.
The listener then returned pending without being registered with its socket,
so it accepted no further connection.
---
 tentacle/src/transports/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tentacle/src/transports/mod.rs b/tentacle/src/transports/mod.rs
index 4c57241..6a69765 100644
--- a/tentacle/src/transports/mod.rs
+++ b/tentacle/src/transports/mod.rs
@@ -300,6 +300,8 @@ mod os {
                         )))),
                         Err(err) => {
                             debug!("stream get peer address error: {:?}", err);
+                            // the socket has not registered the task, there may be more to accept
+                            cx.waker().wake_by_ref();
                             Poll::Pending
                         }
                     },
-- 
2.43.0

