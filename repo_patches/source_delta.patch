From df158a426a76c1deb7ab2f8e4d790e59b97c112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:33 +0000
Subject: [PATCH 01/23] Add verification hooks guarded by cfg(fizyr_rpc_verif)

---
 src/lib.rs                        |  1 +
 src/peer.rs                       |  6 ++++++
 src/request_tracker.rs            |  6 ++++++
 src/transport/mod.rs              | 14 ++++++++++++++
 src/transport/stream/transport.rs | 16 ++++++++++++++++
 5 files changed, 43 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 40db008..4fd8337 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,6 +77,7 @@
 //! ```
 
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)] // The `fizyr_rpc_verif` cfg guards hooks for verification harnesses.
 
 /// Unwrap a [`Poll`](std::task::Poll) value and return from the enclosing function if it was [`Pending`](std::task::Poll::Pending).
 ///
diff --git a/src/peer.rs b/src/peer.rs
index 15f0200..72a1d45 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -173,6 +173,12 @@ impl<Transport: crate::transport::Transport> Peer<Transport> {
 		}
 	}
 
+	/// Set the ID to try first for the next sent request, for the verification harness.
+	#[cfg(fizyr_rpc_verif)]
+	pub fn verif_set_next_request_id(&mut self, request_id: u32) {
+		self.request_tracker.verif_set_next_sent_request_id(request_id);
+	}
+
 	/// Get direct access to the underlying transport.
 	pub fn transport(&self) -> &Transport {
 		&self.transport
diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 19b6aaa..2ac50dc 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -54,6 +54,12 @@ impl<Body> RequestTracker<Body> {
 		}
 	}
 
+	/// Set the ID to try first for the next sent request, for the verification harness.
+	#[cfg(fizyr_rpc_verif)]
+	pub fn verif_set_next_sent_request_id(&mut self, request_id: u32) {
+		self.next_sent_request_id = request_id;
+	}
+
 	/// Allocate a request ID and register a new sent request.
 	pub fn allocate_sent_request(&mut self, service_id: i32) -> Result<SentRequestHandle<Body>, Error> {
 		// Try to find a free ID a bunch of times.
diff --git a/src/transport/mod.rs b/src/transport/mod.rs
index 7552530..308a9c0 100644
--- a/src/transport/mod.rs
+++ b/src/transport/mod.rs
@@ -17,6 +17,8 @@ pub use endian::Endian;
 
 pub(crate) mod stream;
 pub use stream::StreamTransport;
+#[cfg(fizyr_rpc_verif)]
+pub use stream::{StreamReadHalf, StreamWriteHalf};
 
 #[cfg(feature = "tcp")]
 pub use stream::TcpStreamInfo;
@@ -113,6 +115,18 @@ impl TransportError {
 	}
 }
 
+#[cfg(fizyr_rpc_verif)]
+impl TransportError {
+	/// Create a transport error, for use by test transports of the verification harness.
+	pub fn verif_new(inner: impl Into<Error>, is_fatal: bool) -> Self {
+		if is_fatal {
+			Self::new_fatal(inner)
+		} else {
+			Self::new_non_fatal(inner)
+		}
+	}
+}
+
 impl std::error::Error for TransportError {}
 
 impl std::fmt::Display for TransportError {
diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 722a8f4..ea4eb08 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -147,6 +147,22 @@ impl<WriteStream> StreamWriteHalf<WriteStream> {
 	}
 }
 
+#[cfg(fizyr_rpc_verif)]
+impl<ReadStream> StreamReadHalf<ReadStream> {
+	/// Create a read half over any stream, for the verification harness.
+	pub fn verif_new(stream: ReadStream, max_body_len: u32, endian: Endian) -> Self {
+		Self::new(stream, max_body_len, endian)
+	}
+}
+
+#[cfg(fizyr_rpc_verif)]
+impl<WriteStream> StreamWriteHalf<WriteStream> {
+	/// Create a write half over any stream, for the verification harness.
+	pub fn verif_new(stream: WriteStream, max_body_len: u32, endian: Endian) -> Self {
+		Self::new(stream, max_body_len, endian)
+	}
+}
+
 /// Wrapper around [`AsyncRead::poll_read`] that turns zero-sized reads into ConnectionAborted errors.
 fn poll_read<R: AsyncRead>(stream: Pin<&mut R>, context: &mut Context, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
 	let mut buf = tokio::io::ReadBuf::new(buf);
-- 
2.43.0


From 490b80230384cd51021bb844f3f7fcc969bc72a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 02/23] Verification hook to set the next request ID at any
 time

---
 src/peer.rs        | 17 +++++++++++------
 src/peer_handle.rs | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 72a1d45..7bcb97f 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -20,6 +20,10 @@ pub enum Command<Body> {
 	UnregisterReadHandle,
 	RegisterWriteHandle,
 	UnregisterWriteHandle,
+
+	/// Set the ID to try first for the next sent request, for the verification harness.
+	#[cfg(fizyr_rpc_verif)]
+	VerifSetNextRequestId(u32),
 }
 
 /// Peer read/write loop.
@@ -173,12 +177,6 @@ impl<Transport: crate::transport::Transport> Peer<Transport> {
 		}
 	}
 
-	/// Set the ID to try first for the next sent request, for the verification harness.
-	#[cfg(fizyr_rpc_verif)]
-	pub fn verif_set_next_request_id(&mut self, request_id: u32) {
-		self.request_tracker.verif_set_next_sent_request_id(request_id);
-	}
-
 	/// Get direct access to the underlying transport.
 	pub fn transport(&self) -> &Transport {
 		&self.transport
@@ -288,6 +286,11 @@ where
 					*self.write_handles -= 1;
 					LoopFlow::Continue
 				},
+				#[cfg(fizyr_rpc_verif)]
+				Command::VerifSetNextRequestId(request_id) => {
+					self.request_tracker.verif_set_next_sent_request_id(request_id);
+					LoopFlow::Continue
+				},
 			};
 
 			// Stop the loop if the command dictates it.
@@ -469,6 +472,8 @@ impl<Body> std::fmt::Debug for Command<Body> {
 			Self::UnregisterReadHandle => debug.field("UnregisterReadHandle", &()),
 			Self::RegisterWriteHandle => debug.field("RegisterWriteHandle", &()),
 			Self::UnregisterWriteHandle => debug.field("UnregisterWriteHandle", &()),
+			#[cfg(fizyr_rpc_verif)]
+			Self::VerifSetNextRequestId(x) => debug.field("VerifSetNextRequestId", x),
 
 		}.finish()
 	}
diff --git a/src/peer_handle.rs b/src/peer_handle.rs
index afa9058..7552281 100644
--- a/src/peer_handle.rs
+++ b/src/peer_handle.rs
@@ -198,6 +198,22 @@ impl<Body> PeerWriteHandle<Body> {
 	}
 }
 
+#[cfg(fizyr_rpc_verif)]
+impl<Body> PeerWriteHandle<Body> {
+	/// Set the ID to try first for the next sent request, for the verification harness.
+	pub fn verif_set_next_request_id(&self, request_id: u32) {
+		let _: Result<_, _> = self.command_tx.send(Command::VerifSetNextRequestId(request_id));
+	}
+}
+
+#[cfg(fizyr_rpc_verif)]
+impl<Body> PeerHandle<Body> {
+	/// Set the ID to try first for the next sent request, for the verification harness.
+	pub fn verif_set_next_request_id(&self, request_id: u32) {
+		self.write_handle.verif_set_next_request_id(request_id)
+	}
+}
+
 impl<Body> Clone for PeerWriteHandle<Body> {
 	fn clone(&self) -> Self {
 		let command_tx = self.command_tx.clone();
-- 
2.43.0


From 66affbfe32a63f01e0861a16d9c5deb7c591173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 03/23] fix: keep a request open if an update arrives after its
 read handle was dropped

---
 src/request_tracker.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 2ac50dc..7f0697e 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -206,10 +206,10 @@ impl<Body> RequestTracker<Body> {
 		let request_id = message.header.request_id;
 		match self.received_requests.entry(request_id) {
 			Entry::Vacant(_) => Err(InnerError::UnknownRequestId { request_id }.into()),
-			Entry::Occupied(mut entry) => {
-				// If the received_request is dropped, clear the entry.
-				if entry.get_mut().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
-					entry.remove();
+			Entry::Occupied(entry) => {
+				// If the received_request is dropped, report an error.
+				// The request itself stays open until the response: its write handles can still be used.
+				if entry.get().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
 					Err(InnerError::UnknownRequestId { request_id }.into())
 				} else {
 					Ok(())
@@ -222,10 +222,10 @@ impl<Body> RequestTracker<Body> {
 		let request_id = message.header.request_id;
 		match self.sent_requests.entry(request_id) {
 			Entry::Vacant(_) => Err(InnerError::UnknownRequestId { request_id }.into()),
-			Entry::Occupied(mut entry) => {
-				// If the sent_request is dropped, clear the entry.
-				if entry.get_mut().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
-					entry.remove();
+			Entry::Occupied(entry) => {
+				// If the sent_request is dropped, report an error.
+				// The request itself stays open until the response: its write handles can still be used.
+				if entry.get().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
 					Err(InnerError::UnknownRequestId { request_id }.into())
 				} else {
 					Ok(())
-- 
2.43.0


From 91050dae6716409a1a7a620f3a98575e6715c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 04/23] fix: keep a received request open if sending its
 response fails

---
 src/peer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 7bcb97f..e55624a 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -331,11 +331,6 @@ where
 
 	/// Process a SendRawMessage command.
 	async fn send_raw_message(&mut self, command: crate::peer::SendRawMessage<W::Body>) -> LoopFlow {
-		// Remove tracked received requests when we send a response.
-		if command.message.header.message_type.is_response() {
-			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
-		}
-
 		// TODO: replace SendRawMessage with specific command for different message types.
 		// Then we can use that to remove the appropriate request from the tracker if result_tx is dropped.
 		// Or just parse the message header to determine which request to remove.
@@ -348,6 +343,11 @@ where
 			return flow;
 		}
 
+		// Remove tracked received requests when we sent a response.
+		if command.message.header.message_type.is_response() {
+			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
+		}
+
 		let _: Result<_, _> = command.result_tx.send(Ok(()));
 		LoopFlow::Continue
 	}
-- 
2.43.0


From 55b54a3a97b8f97c8e67a9c946659e2d332ccb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 05/23] fix: forget requests that were answered with an
 automatic error response

---
 src/peer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/peer.rs b/src/peer.rs
index e55624a..1c340b8 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -389,6 +389,8 @@ where
 						// Even if the transport doesn't say that the write error is fatal.
 						LoopFlow::Stop
 					} else {
+						// The request has been answered now, so it should not be tracked anymore.
+						let _: Result<_, _> = self.request_tracker.remove_received_request(request.request_id());
 						LoopFlow::Continue
 					}
 				},
-- 
2.43.0


From 58a6e75c938eb15c7e78f092885b33c00b622eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 06/23] fix: do not transmit messages for a request after its
 response

An update or response that was waiting in the command queue while the
response was processed was still transmitted, on a request ID that could
belong to a new request already.
---
 src/peer.rs        | 14 ++++++++++++++
 src/peer_handle.rs |  2 +-
 src/request.rs     |  4 ++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 1c340b8..0e85328 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -1,5 +1,7 @@
+use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
 use tokio::sync::{mpsc, oneshot};
 
+use crate::error::private::InnerError;
 use crate::{
 	util,
 	Error,
@@ -338,6 +340,13 @@ where
 		// Actually, should we remove the request if result_tx is dropped?
 		// Needs more thought.
 
+		// The request may have been closed while the command was in the queue.
+		// Then we're not allowed to send messages for it anymore, and the request ID could have been re-used already.
+		if command.request_closed.is_some_and(|closed| closed.load(Ordering::Acquire)) {
+			let _: Result<_, _> = command.result_tx.send(Err(InnerError::RequestClosed.into()));
+			return LoopFlow::Continue;
+		}
+
 		if let Err((e, flow)) = self.write_message(&command.message).await {
 			let _: Result<_, _> = command.result_tx.send(Err(e));
 			return flow;
@@ -453,6 +462,11 @@ pub struct SendRawMessage<Body> {
 	/// The message to send.
 	pub message: Message<Body>,
 
+	/// Flag that is set when the request that the message belongs to is closed.
+	///
+	/// This is `None` for messages that do not belong to a request.
+	pub request_closed: Option<Arc<AtomicBool>>,
+
 	/// One-shot channel to receive the result of sending the message.
 	pub result_tx: oneshot::Sender<Result<(), Error>>,
 }
diff --git a/src/peer_handle.rs b/src/peer_handle.rs
index 7552281..5930e23 100644
--- a/src/peer_handle.rs
+++ b/src/peer_handle.rs
@@ -171,7 +171,7 @@ impl<Body> PeerWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::stream(0, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, request_closed: None, result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 
 		result_rx.await.map_err(|_| connection_aborted())?
diff --git a/src/request.rs b/src/request.rs
index 7384523..4795f10 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -208,7 +208,7 @@ impl<Body> SentRequestWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::requester_update(self.request_id, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, request_closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
@@ -328,7 +328,7 @@ impl<Body> ReceivedRequestWriteHandle<Body> {
 
 		let (result_tx, result_rx) = oneshot::channel();
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, request_closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
-- 
2.43.0


From 4446325007a4aa207d1cbe26ff03c6aa99cc12b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 07/23] fix: continue a partially written message where the
 previous write ended

The number of bytes written so far was replaced by the size of the last
write, so messages were transmitted wrongly if a write took more than two
steps or if the first one did not complete the header.
---
 src/transport/stream/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index ea4eb08..88db6a5 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -251,10 +251,10 @@ where
 		while this.bytes_written < FRAMED_HEADER_LEN + body.len() {
 			let stream = Pin::new(&mut this.stream);
 			if this.bytes_written < FRAMED_HEADER_LEN {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
 					.map_err(TransportError::new_fatal)?;
 			} else {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
 					.map_err(TransportError::new_fatal)?;
 			}
 		}
-- 
2.43.0


From 0c24ed1542673e0aeec5c6d58795c50fc1997ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 08/23] fix: reject stream messages with a length smaller than
 the header

The subtraction overflowed, which panics or gives a body length that has
nothing to do with the message.
---
 src/transport/stream/transport.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 88db6a5..c7d050c 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -4,7 +4,7 @@ use std::task::{Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite};
 
 use super::{StreamBody, StreamConfig};
-use crate::error::private::check_payload_too_large;
+use crate::error::private::{check_message_too_short, check_payload_too_large};
 use crate::transport::{TransportError, Endian};
 use crate::{Message, MessageHeader};
 
@@ -200,6 +200,8 @@ where
 					.map_err(TransportError::new_fatal)?;
 
 				// Check body length and create body buffer.
+				check_message_too_short(length as usize)
+					.map_err(TransportError::new_fatal)?;
 				let body_len = length - crate::HEADER_LEN;
 				check_payload_too_large(body_len as usize, this.max_body_len as usize)
 					.map_err(TransportError::new_fatal)?;
-- 
2.43.0


From eb5b25f0ceb3ddb88d9383bbcb3b8ae464379299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 09/23] fix: refuse stream bodies that the length field can not
 represent

With a send limit above MAX_PAYLOAD_LEN the length in the frame overflowed.
---
 src/transport/stream/transport.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index c7d050c..85cdd2f 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -238,7 +238,9 @@ where
 		let this = self.get_mut();
 
 		// Make sure the body length doesn't exceed the maximum.
-		check_payload_too_large(body.len(), this.max_body_len as usize)
+		// The message size, including the header, must also be representable in the 32 bit length field.
+		let max_body_len = this.max_body_len.min(crate::MAX_PAYLOAD_LEN);
+		check_payload_too_large(body.len(), max_body_len as usize)
 			.map_err(TransportError::new_non_fatal)?;
 
 		// Encode the header if we haven't done that yet.
-- 
2.43.0


From 860eaf7476924426bceb1add292de5e08865d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 10/23] fix: report datagrams that exceed the maximum body size
 instead of truncating them

---
 src/transport/unix/transport.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index f5fa41f..a7b0702 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -150,7 +150,8 @@ mod implementation {
 
 			// Prepare buffers for the message header and body.
 			let mut header_buffer = [0u8; crate::HEADER_LEN as usize];
-			this.body_buffer.resize(this.max_body_len as usize, 0u8);
+			// The body buffer is one byte larger than allowed, to be able to tell if a datagram is too large.
+			this.body_buffer.resize((this.max_body_len as usize).saturating_add(1), 0u8);
 
 			// Prepare a buffer for the ancillary data.
 			// TODO: properly compute size of ancillary buffer.
@@ -178,13 +179,18 @@ mod implementation {
 			check_message_too_short(bytes_read)
 				.map_err(TransportError::new_fatal)?;
 
+			// Make sure the datagram did not get truncated.
+			let body_len = bytes_read - crate::HEADER_LEN as usize;
+			check_payload_too_large(body_len, this.max_body_len as usize)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Parse the header.
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
 
 			// Resize the body buffer to the actual body size.
 			let mut body = std::mem::take(&mut this.body_buffer);
-			body.resize(bytes_read - crate::HEADER_LEN as usize, 0);
+			body.resize(body_len, 0);
 
 			Poll::Ready(Ok(Message::new(header, UnixBody::new(body, fds))))
 		}
-- 
2.43.0


From cb6ff5074e29d0c738136f8c490b67bae5222845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 11/23] fix: enforce the maximum number of attached file
 descriptors exactly

---
 src/transport/unix/transport.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index a7b0702..fc953d4 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -142,6 +142,18 @@ mod implementation {
 	use crate::transport::TransportError;
 	use crate::{Message, MessageHeader, UnixBody};
 
+	/// Check that a message does not have more file descriptors attached than allowed.
+	fn check_too_many_fds(count: usize, max: usize) -> std::io::Result<()> {
+		if count <= max {
+			Ok(())
+		} else {
+			Err(std::io::Error::new(
+				std::io::ErrorKind::Other,
+				format!("too many file descriptors: the maximum is {max}, got {count}"),
+			))
+		}
+	}
+
 	impl crate::transport::TransportReadHalf for UnixReadHalf<&tokio_seqpacket::UnixSeqpacket> {
 		type Body = UnixBody;
 
@@ -184,6 +196,10 @@ mod implementation {
 			check_payload_too_large(body_len, this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Make sure we did not receive more file descriptors than allowed.
+			check_too_many_fds(fds.len(), this.max_fds as usize)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Parse the header.
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
@@ -206,6 +222,10 @@ mod implementation {
 			check_payload_too_large(body.data.len(), this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Check the number of attached file descriptors.
+			check_too_many_fds(body.fds.len(), this.max_fds as usize)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Prepare a buffer for the message header.
 			let mut header_buffer = [0; crate::HEADER_LEN as usize];
 			header.encode(&mut header_buffer, this.endian);
-- 
2.43.0


From 5d9b6e86161098ef7d62d0cab6940beea5b01660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 12/23] fix: keep accepting connections when an accepted
 connection is already gone

---
 src/listener.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/listener.rs b/src/listener.rs
index 8104683..bedd6d9 100644
--- a/src/listener.rs
+++ b/src/listener.rs
@@ -112,10 +112,17 @@ impl<Socket: ListeningSocket> Listener<Socket> {
 	///
 	/// A [`Peer`] is spawned for the new connection,
 	/// and a [`PeerHandle`] is returned to allow interaction with the peer.
+	///
+	/// Connections that are already gone by the time they are accepted are skipped.
 	pub async fn accept(&mut self) -> std::io::Result<(PeerHandle<Socket::Body>, Socket::TransportInfo)> {
-		let (connection, _addr) = self.listener.accept().await?;
-		let transport = Socket::into_transport(connection, self.config.clone());
-		let info = Socket::transport_info(&transport)?;
-		Ok((Socket::spawn(transport), info))
+		loop {
+			let (connection, _addr) = self.listener.accept().await?;
+			let transport = Socket::into_transport(connection, self.config.clone());
+			// Retrieving the info fails if the remote peer already disconnected before we accepted the connection.
+			// That is a problem of this one connection, so drop it and wait for the next one.
+			if let Ok(info) = Socket::transport_info(&transport) {
+				return Ok((Socket::spawn(transport), info));
+			}
+		}
 	}
 }
-- 
2.43.0


From bd4f0c570bef570fe221a7472b12bccdb070f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:05 +0000
Subject: [PATCH 13/23] fix: let interfaces without services and streams
 compile

The generated Debug implementation matched on a reference to the empty ReceivedMessage enum,
which the compiler rejects as non-exhaustive.
---
 macros/src/interface/generate/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/macros/src/interface/generate/server.rs b/macros/src/interface/generate/server.rs
index 72c84a6..7ce55d5 100644
--- a/macros/src/interface/generate/server.rs
+++ b/macros/src/interface/generate/server.rs
@@ -104,6 +104,13 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 		});
 	}
 
+	// A reference is always considered inhabited, so matching on an enum without variants requires a dereference.
+	let debug_match_value = if interface.services().is_empty() && interface.streams().is_empty() {
+		quote!(*self)
+	} else {
+		quote!(self)
+	};
+
 	let visibility = interface.visibility();
 	let server_doc = format!("RPC server for the {} interface.", interface.name());
 	item_tokens.extend(quote! {
@@ -187,7 +194,7 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 			#received_msg_where
 		{
 			fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
-				match self {
+				match #debug_match_value {
 					#received_msg_debug_arms
 				}
 			}
-- 
2.43.0


From 1c56f1734215f7bef25dbd6d38f0589e9ada8929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 14/23] fix: limit the buffer for ancillary data to what the
 kernel can pass, so a large file descriptor limit does not abort the process

---
 src/transport/unix/transport.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index fc953d4..3c57377 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -142,6 +142,9 @@ mod implementation {
 	use crate::transport::TransportError;
 	use crate::{Message, MessageHeader, UnixBody};
 
+	/// The maximum number of file descriptors that the kernel passes with a single message.
+	const SCM_MAX_FD: u32 = 253;
+
 	/// Check that a message does not have more file descriptors attached than allowed.
 	fn check_too_many_fds(count: usize, max: usize) -> std::io::Result<()> {
 		if count <= max {
@@ -167,7 +170,7 @@ mod implementation {
 
 			// Prepare a buffer for the ancillary data.
 			// TODO: properly compute size of ancillary buffer.
-			let mut ancillary = vec![0u8; 32 + 16 * this.max_fds as usize];
+			let mut ancillary = vec![0u8; 32 + 16 * this.max_fds.min(SCM_MAX_FD) as usize];
 
 			// Read the incoming datagram.
 			let mut buffers = [IoSliceMut::new(&mut header_buffer), IoSliceMut::new(&mut this.body_buffer)];
@@ -232,7 +235,7 @@ mod implementation {
 
 			// Prepare a buffer for the ancillary data.
 			// TODO: properly compute size of ancillary buffer.
-			let mut ancillary = vec![0u8; 32 + 16 * this.max_fds as usize];
+			let mut ancillary = vec![0u8; 32 + 16 * body.fds.len()];
 			let mut ancillary = AncillaryMessageWriter::new(&mut ancillary);
 
 			let fds: Vec<_> = body.fds.iter().collect();
-- 
2.43.0


From 180920a8a69674e45d207204e128679e3731b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 15/23] fix: do not panic in the interface macro when a name is
 used more than twice

The indices of the duplicates to remove could contain an index more than
once or be out of order. The macro then removed the wrong entries or
panicked, instead of reporting which names are duplicates.
---
 macros/src/interface/parse.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/macros/src/interface/parse.rs b/macros/src/interface/parse.rs
index 44b3589..464b7af 100644
--- a/macros/src/interface/parse.rs
+++ b/macros/src/interface/parse.rs
@@ -177,8 +177,8 @@ pub mod cooked {
 
 			// Remove things with duplicate names, because they'll cause a lot more compile errors.
 			// Duplicate IDs we just generate though, because they don't cause duplicate type or functions name.
-			let mut remove_services = Vec::new();
-			let mut remove_streams = Vec::new();
+			let mut remove_services = std::collections::BTreeSet::new();
+			let mut remove_streams = std::collections::BTreeSet::new();
 
 			for (a_i, a) in services.iter().enumerate() {
 				for (b_i, b) in services.iter().enumerate().skip(a_i + 1) {
@@ -187,7 +187,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate service name"));
-						remove_services.push(b_i);
+						remove_services.insert(b_i);
 					}
 				}
 			}
@@ -199,7 +199,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate stream name"));
-						remove_streams.push(b_i);
+						remove_streams.insert(b_i);
 					}
 				}
 			}
@@ -280,8 +280,8 @@ pub mod cooked {
 
 			// Remove things with duplicate names, because they'll cause a lot more compile errors.
 			// Duplicate IDs we just generate though, because they don't cause duplicate type or functions name.
-			let mut remove_request_updates = Vec::new();
-			let mut remove_response_updates = Vec::new();
+			let mut remove_request_updates = std::collections::BTreeSet::new();
+			let mut remove_response_updates = std::collections::BTreeSet::new();
 
 			for (a_i, a) in request_updates.iter().enumerate() {
 				for (b_i, b) in request_updates.iter().enumerate().skip(a_i + 1) {
@@ -290,7 +290,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate request update name"));
-						remove_request_updates.push(b_i);
+						remove_request_updates.insert(b_i);
 					}
 				}
 			}
@@ -302,7 +302,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate response update name"));
-						remove_response_updates.push(b_i);
+						remove_response_updates.insert(b_i);
 					}
 				}
 			}
-- 
2.43.0


From 3c52b71751c4fcd016fccc0164b376f4e885ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 16/23] fix: Debug of RecvMessageError gives the name of the
 variant

An unknown request was shown as UnknownStream, and an invalid stream message as InvalidStread.
---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 7a772c9..33c2e99 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -250,8 +250,8 @@ impl<Body> std::fmt::Debug for RecvMessageError<Body> {
 		match self {
 			Self::Other(e) => f.debug_tuple("Other").field(e).finish(),
 			Self::UnknownStream(message) => f.debug_tuple("UnknownStream").field(message).finish(),
-			Self::UnknownRequest(request, _body) => f.debug_tuple("UnknownStream").field(request).finish(),
-			Self::InvalidStream(header, error) => f.debug_tuple("InvalidStread").field(header).field(error).finish(),
+			Self::UnknownRequest(request, _body) => f.debug_tuple("UnknownRequest").field(request).finish(),
+			Self::InvalidStream(header, error) => f.debug_tuple("InvalidStream").field(header).field(error).finish(),
 			Self::InvalidRequest(request, error) => f.debug_tuple("InvalidRequest").field(request).field(error).finish(),
 		}
 	}
-- 
2.43.0


From 4bb483ca955a98f2d122800c846d5b906835a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 17/23] fix: interface! panicked on raw identifiers as names

The names of generated functions and enum variants contained the `r#` of
the raw identifier. They and the introspection now use the name without it.
---
 macros/src/interface/generate/interface_struct.rs | 9 +++++----
 macros/src/interface/generate/message_enum.rs     | 8 ++++----
 macros/src/interface/generate/mod.rs              | 3 +++
 macros/src/interface/generate/services.rs         | 4 ++--
 macros/src/interface/generate/streams.rs          | 4 ++--
 5 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/macros/src/interface/generate/interface_struct.rs b/macros/src/interface/generate/interface_struct.rs
index 53648da..00763fe 100644
--- a/macros/src/interface/generate/interface_struct.rs
+++ b/macros/src/interface/generate/interface_struct.rs
@@ -1,11 +1,12 @@
 use proc_macro2::TokenStream;
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::{interface::parse::cooked::{InterfaceDefinition, ServiceDefinition, UpdateDefinition, StreamDefinition}, util::WithSpan};
 
 /// Generate a struct representing the interface.
 pub fn generate_interface_struct(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, interface: &InterfaceDefinition) {
-	let name = interface.name().to_string();
+	let name = interface.name().unraw().to_string();
 	let doc = to_doc_string(interface.doc());
 	let hidden = interface.hidden().is_some();
 
@@ -88,7 +89,7 @@ pub fn generate_interface_struct(item_tokens: &mut TokenStream, fizyr_rpc: &syn:
 fn service_definitions(format_bounds: &mut TokenStream, fizyr_rpc: &syn::Ident, services: &[ServiceDefinition]) -> TokenStream {
 	let mut push_items = TokenStream::new();
 	for service in services {
-		let name = service.name().to_string();
+		let name = service.name().unraw().to_string();
 		let doc = to_doc_string(service.doc());
 		let hidden = service.hidden().is_some();
 		let service_id = service.service_id().value;
@@ -132,7 +133,7 @@ fn service_definitions(format_bounds: &mut TokenStream, fizyr_rpc: &syn::Ident,
 fn update_definitions(format_bounds: &mut TokenStream, fizyr_rpc: &syn::Ident, updates: &[UpdateDefinition]) -> TokenStream {
 	let mut push_items = TokenStream::new();
 	for update in updates {
-		let name = update.name().to_string();
+		let name = update.name().unraw().to_string();
 		let doc = to_doc_string(update.doc());
 		let hidden = update.hidden().is_some();
 		let service_id = update.service_id().value;
@@ -169,7 +170,7 @@ fn update_definitions(format_bounds: &mut TokenStream, fizyr_rpc: &syn::Ident, u
 fn stream_definitions(format_bounds: &mut TokenStream, fizyr_rpc: &syn::Ident, streams: &[StreamDefinition]) -> TokenStream {
 	let mut push_items = TokenStream::new();
 	for stream in streams {
-		let name = stream.name().to_string();
+		let name = stream.name().unraw().to_string();
 		let doc = to_doc_string(stream.doc());
 		let hidden = stream.hidden().is_some();
 		let service_id = stream.service_id().value;
diff --git a/macros/src/interface/generate/message_enum.rs b/macros/src/interface/generate/message_enum.rs
index a312345..0e3a9fa 100644
--- a/macros/src/interface/generate/message_enum.rs
+++ b/macros/src/interface/generate/message_enum.rs
@@ -1,5 +1,5 @@
 use proc_macro2::{TokenStream, Span};
-use quote::quote;
+use quote::{format_ident, quote};
 
 use crate::interface::parse::cooked::MessageDefinition;
 
@@ -46,13 +46,13 @@ pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 			F: #fizyr_rpc::format::EncodeBody<#body_type>,
 		});
 
-		let is_fn_name = syn::Ident::new(&format!("is_{}", message.name()), Span::call_site());
+		let is_fn_name = format_ident!("is_{}", message.name(), span = Span::call_site());
 		let is_fn_doc = format!("Check if the message is a [`Self::{}`].", variant_name);
 
-		let as_fn_name = syn::Ident::new(&format!("as_{}", message.name()), Span::call_site());
+		let as_fn_name = format_ident!("as_{}", message.name(), span = Span::call_site());
 		let as_fn_doc = format!("Get the message as [`Self::{}`] by reference.", variant_name);
 
-		let into_fn_name = syn::Ident::new(&format!("into_{}", message.name()), Span::call_site());
+		let into_fn_name = format_ident!("into_{}", message.name(), span = Span::call_site());
 		let into_fn_doc = format!("Get the message as [`Self::{}`] by value.", variant_name);
 
 		impl_tokens.extend(quote! {
diff --git a/macros/src/interface/generate/mod.rs b/macros/src/interface/generate/mod.rs
index ec374bd..9785f43 100644
--- a/macros/src/interface/generate/mod.rs
+++ b/macros/src/interface/generate/mod.rs
@@ -29,6 +29,9 @@ fn to_upper_camel_case(input: &str) -> String {
 	let mut output = String::new();
 	let mut capitalize = true;
 
+	// No need for a raw identifier in upper camel case.
+	let input = input.strip_prefix("r#").unwrap_or(input);
+
 	for c in input.chars() {
 		if c == '_' {
 			capitalize = true;
diff --git a/macros/src/interface/generate/services.rs b/macros/src/interface/generate/services.rs
index c105baf..0928a79 100644
--- a/macros/src/interface/generate/services.rs
+++ b/macros/src/interface/generate/services.rs
@@ -1,5 +1,5 @@
 use proc_macro2::{TokenStream, Span};
-use quote::quote;
+use quote::{format_ident, quote};
 
 use crate::interface::parse::cooked::{InterfaceDefinition, ServiceDefinition, UpdateDefinition};
 
@@ -450,7 +450,7 @@ fn generate_send_update_functions(impl_tokens: &mut TokenStream, fizyr_rpc: &syn
 	};
 
 	for update in updates {
-		let function_name = syn::Ident::new(&format!("send_{}_update", update.name()), Span::call_site());
+		let function_name = format_ident!("send_{}_update", update.name(), span = Span::call_site());
 		let body_type = update.body_type();
 		let service_id = update.service_id();
 		let doc = format!("Send a `{}` update to the remote peer.", update.name());
diff --git a/macros/src/interface/generate/streams.rs b/macros/src/interface/generate/streams.rs
index cb42a28..11a5cf0 100644
--- a/macros/src/interface/generate/streams.rs
+++ b/macros/src/interface/generate/streams.rs
@@ -1,5 +1,5 @@
 use proc_macro2::{TokenStream, Span};
-use quote::quote;
+use quote::{format_ident, quote};
 
 use crate::interface::parse::cooked::InterfaceDefinition;
 
@@ -18,7 +18,7 @@ pub fn generate_streams(item_tokens: &mut TokenStream, client_impl_tokens: &mut
 	}
 	for stream in interface.streams() {
 		let service_id = stream.service_id();
-		let fn_name = syn::Ident::new(&format!("send_{}", stream.name()), Span::call_site());
+		let fn_name = format_ident!("send_{}", stream.name(), span = Span::call_site());
 		let fn_doc = format!("Send a `{}` stream message to the remote peer.", stream.name());
 		let body_arg;
 		let body_val;
-- 
2.43.0


From d0aa195ff8ca4554f838c9cc378dfbd2253195db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 18/23] fix: resolve self:: and super:: paths in interface!
 from the module of the interface

The types of updates and responses are used in a submodule, where a path
starting with super:: referred to the wrong module.
---
 macros/src/interface/generate/message_enum.rs |  7 +++-
 macros/src/interface/generate/mod.rs          | 37 ++++++++++++++++++-
 macros/src/interface/generate/services.rs     | 14 ++++---
 macros/src/interface/generate/streams.rs      |  1 +
 4 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/macros/src/interface/generate/message_enum.rs b/macros/src/interface/generate/message_enum.rs
index 0e3a9fa..a2bb29e 100644
--- a/macros/src/interface/generate/message_enum.rs
+++ b/macros/src/interface/generate/message_enum.rs
@@ -3,10 +3,12 @@ use quote::{format_ident, quote};
 
 use crate::interface::parse::cooked::MessageDefinition;
 
-use super::{to_upper_camel_case, to_doc_attrs};
+use super::{in_submodule, to_upper_camel_case, to_doc_attrs};
 
 /// Generate an enum with all possible body types for a message.
-pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, messages: &[impl MessageDefinition], enum_name: &syn::Ident, enum_doc: &str) {
+///
+/// If `submodule` is true, the enum is placed in a submodule of the module with the interface.
+pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, messages: &[impl MessageDefinition], enum_name: &syn::Ident, enum_doc: &str, submodule: bool) {
 	let mut variants = TokenStream::new();
 	let mut from_message = TokenStream::new();
 	let mut to_message = TokenStream::new();
@@ -19,6 +21,7 @@ pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 		let variant_name = syn::Ident::new(&variant_name, message.name().span());
 		let variant_doc = to_doc_attrs(message.doc());
 		let body_type = message.body_type();
+		let body_type = if submodule { in_submodule(body_type) } else { quote!(#body_type) };
 
 		let service_id = message.service_id();
 		variants.extend(quote! {
diff --git a/macros/src/interface/generate/mod.rs b/macros/src/interface/generate/mod.rs
index 9785f43..b3ac102 100644
--- a/macros/src/interface/generate/mod.rs
+++ b/macros/src/interface/generate/mod.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Group, Spacing, TokenStream, TokenTree};
 
 use super::parse::cooked::InterfaceDefinition;
 
@@ -61,3 +61,38 @@ fn is_unit_type(ty: &syn::Type) -> bool {
 		false
 	}
 }
+
+/// Adjust a type from the interface definition for use in a submodule of the module with the interface.
+///
+/// Paths that start with `self` or `super` are relative to the module of the interface.
+fn in_submodule(ty: &syn::Type) -> TokenStream {
+	adjust_relative_paths(quote::quote!(#ty))
+}
+
+fn adjust_relative_paths(tokens: TokenStream) -> TokenStream {
+	let mut output = TokenStream::new();
+	// The number of colons directly before the current token, for `::`.
+	let mut colons = 0;
+	for token in tokens {
+		let starts_path = colons < 2;
+		colons = match &token {
+			TokenTree::Punct(punct) if punct.as_char() == ':' && (colons == 1 || punct.spacing() == Spacing::Joint) => colons + 1,
+			_ => 0,
+		};
+		match token {
+			TokenTree::Ident(ident) if starts_path && ident == "super" => {
+				output.extend(quote::quote_spanned!(ident.span() => super::#ident));
+			},
+			TokenTree::Ident(ident) if starts_path && ident == "self" => {
+				output.extend(quote::quote_spanned!(ident.span() => super));
+			},
+			TokenTree::Group(group) => {
+				let mut adjusted = Group::new(group.delimiter(), adjust_relative_paths(group.stream()));
+				adjusted.set_span(group.span());
+				output.extend([TokenTree::Group(adjusted)]);
+			},
+			token => output.extend([token]),
+		}
+	}
+	output
+}
diff --git a/macros/src/interface/generate/services.rs b/macros/src/interface/generate/services.rs
index 0928a79..0d11c16 100644
--- a/macros/src/interface/generate/services.rs
+++ b/macros/src/interface/generate/services.rs
@@ -3,7 +3,7 @@ use quote::{format_ident, quote};
 
 use crate::interface::parse::cooked::{InterfaceDefinition, ServiceDefinition, UpdateDefinition};
 
-use super::{to_doc_attrs, is_unit_type, to_upper_camel_case, message_enum::generate_message_enum};
+use super::{in_submodule, to_doc_attrs, is_unit_type, to_upper_camel_case, message_enum::generate_message_enum};
 
 #[derive(Debug, Eq, PartialEq)]
 enum UpdateKind {
@@ -105,7 +105,7 @@ fn generate_sent_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident,
 	let mut read_handle_impl_tokens = TokenStream::new();
 	let mut write_handle_impl_tokens = TokenStream::new();
 
-	let response_type = service.response_type();
+	let response_type = in_submodule(service.response_type());
 	let doc_recv_update = match service.response_updates().is_empty() {
 		true => quote! {
 			/// This service call does not support update messages, so there is no way to retrieve it.
@@ -147,6 +147,7 @@ fn generate_sent_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident,
 			service.request_updates(),
 			&syn::Ident::new("RequestUpdate", Span::call_site()),
 			&format!("A request update for the {} service", service.name()),
+			true,
 		);
 		generate_send_update_functions(&mut write_handle_impl_tokens, fizyr_rpc, &quote!(#service_name::RequestUpdate), service.request_updates());
 	}
@@ -158,6 +159,7 @@ fn generate_sent_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident,
 			service.response_updates(),
 			&syn::Ident::new("ResponseUpdate", Span::call_site()),
 			&format!("A response update for the {} service", service.name()),
+			true,
 		);
 		generate_recv_update_function(&mut read_handle_impl_tokens, fizyr_rpc, service.response_updates(), UpdateKind::ResponseUpdate);
 	}
@@ -275,7 +277,7 @@ fn generate_sent_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident,
 }
 
 fn generate_received_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, service: &ServiceDefinition) {
-	let response_type = service.response_type();
+	let response_type = in_submodule(service.response_type());
 	let service_name = service.name();
 	let service_id = service.service_id();
 
@@ -451,12 +453,12 @@ fn generate_send_update_functions(impl_tokens: &mut TokenStream, fizyr_rpc: &syn
 
 	for update in updates {
 		let function_name = format_ident!("send_{}_update", update.name(), span = Span::call_site());
-		let body_type = update.body_type();
+		let body_type = in_submodule(update.body_type());
 		let service_id = update.service_id();
 		let doc = format!("Send a `{}` update to the remote peer.", update.name());
 		let body_arg;
 		let body_val;
-		if is_unit_type(body_type) {
+		if is_unit_type(update.body_type()) {
 			body_arg = None;
 			body_val = quote!(&());
 		} else {
@@ -503,7 +505,7 @@ fn generate_recv_update_function(impl_tokens: &mut TokenStream, fizyr_rpc: &syn:
 	let mut where_clause = TokenStream::new();
 	for update in updates {
 		let service_id = update.service_id();
-		let body_type = update.body_type();
+		let body_type = in_submodule(update.body_type());
 		let variant_name = syn::Ident::new(&to_upper_camel_case(&update.name().to_string()), Span::call_site());
 		where_clause.extend(quote! {
 			F: #fizyr_rpc::format::DecodeBody<#body_type>,
diff --git a/macros/src/interface/generate/streams.rs b/macros/src/interface/generate/streams.rs
index 11a5cf0..516e183 100644
--- a/macros/src/interface/generate/streams.rs
+++ b/macros/src/interface/generate/streams.rs
@@ -14,6 +14,7 @@ pub fn generate_streams(item_tokens: &mut TokenStream, client_impl_tokens: &mut
 			interface.streams(),
 			&syn::Ident::new("StreamMessage", Span::call_site()),
 			&format!("A stream message for the {} interface.", interface.name()),
+			false,
 		);
 	}
 	for stream in interface.streams() {
-- 
2.43.0


From b920dc02c804aadc993e2edfac683dfbe0b4692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 19/23] fix: interface! did not work with types named T

The type was taken for the type parameter of the implementation of the Format trait.
---
 macros/src/interface/generate/format_trait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/interface/generate/format_trait.rs b/macros/src/interface/generate/format_trait.rs
index 7f4882a..4da585e 100644
--- a/macros/src/interface/generate/format_trait.rs
+++ b/macros/src/interface/generate/format_trait.rs
@@ -36,9 +36,9 @@ pub fn generate_format_trait(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 		/// It is automatically implemented for all compatible formats.
 		#visibility trait Format: #bounds {}
 
-		impl<T> Format for T
+		impl<F> Format for F
 		where
-			T: #bounds
+			F: #bounds
 		{}
 	})
 }
-- 
2.43.0


From f25d37116caa943d2386c36047dd363ffbf24747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 20/23] fix: a datagram that the operating system refuses does
 not end the connection

A datagram is sent completely or not at all, so the connection can still be used
if it is too large for the send buffer or has more descriptors than the kernel passes.
---
 src/transport/unix/transport.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index 3c57377..092571c 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -157,6 +157,21 @@ mod implementation {
 		}
 	}
 
+	/// Create the transport error for a datagram that could not be sent.
+	///
+	/// A datagram is sent completely or not at all.
+	/// So as long as the connection itself did not fail, the transport remains usable.
+	/// For example, the operating system refuses datagrams that do not fit in the send buffer of the socket.
+	fn new_send_error(error: std::io::Error) -> TransportError {
+		use std::io::ErrorKind;
+		match error.kind() {
+			ErrorKind::BrokenPipe | ErrorKind::ConnectionAborted | ErrorKind::ConnectionReset | ErrorKind::NotConnected => {
+				TransportError::new_fatal(error)
+			},
+			_ => TransportError::new_non_fatal(error),
+		}
+	}
+
 	impl crate::transport::TransportReadHalf for UnixReadHalf<&tokio_seqpacket::UnixSeqpacket> {
 		type Body = UnixBody;
 
@@ -247,7 +262,7 @@ mod implementation {
 
 			let buffers = [IoSlice::new(&header_buffer), IoSlice::new(&body.data)];
 			ready!(this.socket.poll_send_vectored_with_ancillary(context, &buffers, &mut ancillary))
-				.map_err(TransportError::new_fatal)?;
+				.map_err(new_send_error)?;
 
 			Poll::Ready(Ok(()))
 		}
-- 
2.43.0


From 58186096234c0db18f1f2c8ebb94351a6f2ebfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 21/23] fix: report an error when file descriptors of a
 received message were lost

If the process can not open more file descriptors the kernel discards them.
The message was delivered without them.
---
 src/transport/unix/transport.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index 092571c..259fdb8 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -192,6 +192,9 @@ mod implementation {
 			let (bytes_read, ancillary) = ready!(this.socket.poll_recv_vectored_with_ancillary(context, &mut buffers, &mut ancillary))
 				.map_err(TransportError::new_fatal)?;
 
+			// If the process has no free file descriptors left, the kernel discards the remaining ones of the message.
+			let fds_lost = ancillary.is_truncated();
+
 			// Immediately wrap all file descriptors to prevent leaking any of them.
 			// We must always do this directly after a successful read.
 			let mut fds = Vec::new();
@@ -218,6 +221,14 @@ mod implementation {
 			check_too_many_fds(fds.len(), this.max_fds as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Make sure that all attached file descriptors were received.
+			if fds_lost {
+				return Poll::Ready(Err(TransportError::new_non_fatal(std::io::Error::new(
+					std::io::ErrorKind::Other,
+					"not all attached file descriptors could be received",
+				))));
+			}
+
 			// Parse the header.
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
-- 
2.43.0


From d9a5605c7850484a5bc9d0c6bb6b3768c19e1b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 22/23] fix: seqpacket messages sent before the remote closed
 the connection were lost

If the remote peer closes the connection without reading everything, the kernel reports
a connection reset before the datagrams that are still in the receive buffer.
---
 src/transport/unix/transport.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index 259fdb8..1cdc3c9 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -28,6 +28,9 @@ pub struct UnixReadHalf<SocketReadHalf> {
 
 	/// Buffer for reading the message body.
 	pub(super) body_buffer: Vec<u8>,
+
+	/// True if the connection was reset by the remote peer.
+	pub(super) connection_reset: bool,
 }
 
 /// The write half of a [`UnixTransport`].
@@ -85,6 +88,7 @@ impl<SocketReadHalf> UnixReadHalf<SocketReadHalf> {
 			max_fds,
 			endian,
 			body_buffer: Vec::new(),
+			connection_reset: false,
 		}
 	}
 
@@ -189,8 +193,16 @@ mod implementation {
 
 			// Read the incoming datagram.
 			let mut buffers = [IoSliceMut::new(&mut header_buffer), IoSliceMut::new(&mut this.body_buffer)];
-			let (bytes_read, ancillary) = ready!(this.socket.poll_recv_vectored_with_ancillary(context, &mut buffers, &mut ancillary))
-				.map_err(TransportError::new_fatal)?;
+			let (bytes_read, ancillary) = match ready!(this.socket.poll_recv_vectored_with_ancillary(context, &mut buffers, &mut ancillary)) {
+				Ok(x) => x,
+				// If the remote peer closes the connection without reading everything, that is reported once before anything else.
+				// There may still be messages that were sent before the connection was closed, so continue reading until the end.
+				Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset && !this.connection_reset => {
+					this.connection_reset = true;
+					return Pin::new(this).poll_read_msg(context);
+				},
+				Err(e) => return Poll::Ready(Err(TransportError::new_fatal(e))),
+			};
 
 			// If the process has no free file descriptors left, the kernel discards the remaining ones of the message.
 			let fds_lost = ancillary.is_truncated();
-- 
2.43.0


From e5a45210e311408fc4a6eb3232b471fb7f7cbc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:58 +0000
Subject: [PATCH 23/23] fix: a remote peer that sends without pause kept
 everything else from happening

---
 src/peer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/peer.rs b/src/peer.rs
index 0e85328..5ff9338 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -223,6 +223,10 @@ where
 			if stop {
 				break;
 			}
+
+			// Let the command loop process the message before reading the next one.
+			// Otherwise a remote peer that keeps on sending could keep the command loop from running at all.
+			tokio::task::yield_now().await;
 		}
 	}
 }
-- 
2.43.0

