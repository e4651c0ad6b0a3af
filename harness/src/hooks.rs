//! Everything that needs the hooks in fizyr-rpc (`--cfg fizyr_rpc_verif`).
//!
//! If fizyr-rpc does not build with its hooks (because the code around them was reorganised), the machinery is built
//! without: errors of transports are then taken from real transports, and scenarios that can not do without are skipped.

#[cfg(fizyr_rpc_verif)]
mod imp {
	use fizyr_rpc::transport::{Endian, StreamReadHalf, StreamWriteHalf, TransportError};
	use fizyr_rpc::{Error, PeerHandle, PeerWriteHandle};
	pub const HOOKS: bool = true;
	pub type ReadHalf<R> = StreamReadHalf<R>;
	pub type WriteHalf<W> = StreamWriteHalf<W>;

	/// An error of a transport.
	pub fn new_error(text: &str, fatal: bool) -> TransportError {
		TransportError::verif_new(Error::custom(text.to_string().into()), fatal)
	}

	/// Any I/O error of a transport.
	pub fn new_error_from(error: std::io::Error, fatal: bool) -> TransportError {
		TransportError::verif_new(error, fatal)
	}

	pub fn new_io_error(kind: std::io::ErrorKind) -> TransportError {
		TransportError::verif_new(std::io::Error::from(kind), true)
	}

	pub fn read_half<R>(stream: R, max: u32, endian: Endian) -> ReadHalf<R> {
		StreamReadHalf::verif_new(stream, max, endian)
	}

	pub fn write_half<W>(stream: W, max: u32, endian: Endian) -> WriteHalf<W> {
		StreamWriteHalf::verif_new(stream, max, endian)
	}

	pub trait SetNextId {
		/// Set the ID that the next sent request should get.
		fn set_next_id(&self, id: u32);
	}

	impl<B> SetNextId for PeerHandle<B> {
		fn set_next_id(&self, id: u32) {
			self.verif_set_next_request_id(id)
		}
	}

	impl<B> SetNextId for PeerWriteHandle<B> {
		fn set_next_id(&self, id: u32) {
			self.verif_set_next_request_id(id)
		}
	}
}

#[cfg(not(fizyr_rpc_verif))]
mod imp {
	use fizyr_rpc::transport::{Endian, StreamTransport, Transport, TransportError, TransportReadHalf, TransportWriteHalf};
	use fizyr_rpc::{Message, MessageHeader, PeerHandle, PeerWriteHandle, StreamBody, StreamConfig};
	use std::marker::PhantomData;
	use std::pin::{pin, Pin};
	use std::sync::Mutex;
	use std::task::{Context, Poll, Waker};
	use tokio::net::UnixStream;
	pub const HOOKS: bool = false;
	pub struct ReadHalf<R>(PhantomData<R>);
	pub struct WriteHalf<W>(PhantomData<W>);

	/// A transport whose other end is closed.
	fn closed() -> StreamTransport<UnixStream> {
		std::thread::spawn(|| {
			let rt = Box::leak(Box::new(tokio::runtime::Builder::new_current_thread().enable_io().build().expect("create runtime")));
			rt.block_on(async {
				let mut config = StreamConfig::default();
				config.max_body_len_write = 1;
				let (a, b) = UnixStream::pair().expect("socket pair");
				drop(b);
				let mut t = StreamTransport::new(a, config);
				// The runtime has to notice that the socket is ready.
				let _ = t.split().0.read_msg().await;
				t.stream().writable().await.expect("wait for socket");
				t
			})
		})
		.join()
		.expect("create transport")
	}

	thread_local! {
		static CLOSED: Mutex<StreamTransport<UnixStream>> = Mutex::new(closed());
	}

	fn now<T>(mut f: impl FnMut(&mut Context) -> Poll<T>) -> T {
		let mut cx = Context::from_waker(Waker::noop());
		let mut future = pin!(tokio::task::unconstrained(std::future::poll_fn(|cx| f(cx))));
		match std::future::Future::poll(future.as_mut(), &mut cx) {
			Poll::Ready(x) => x,
			Poll::Pending => crate::explore::machinery_error("a transport does not report an error"),
		}
	}

	fn write_error(body: Vec<u8>) -> TransportError {
		CLOSED.with(|t| {
			let mut t = t.lock().unwrap();
			let (_, mut w) = t.split();
			let body = body.into();
			now(|cx| Pin::new(&mut w).poll_write_msg(cx, &MessageHeader::stream(0, 0), &body)).expect_err("write to a closed connection")
		})
	}

	pub fn new_error(_text: &str, fatal: bool) -> TransportError {
		let e = write_error(vec![0; if fatal { 1 } else { 2 }]);
		assert!(e.is_fatal() == fatal && !e.inner().is_connection_aborted());
		e
	}

	pub fn new_error_from(_error: std::io::Error, fatal: bool) -> TransportError {
		new_error("", fatal)
	}

	pub fn new_io_error(kind: std::io::ErrorKind) -> TransportError {
		if kind != std::io::ErrorKind::ConnectionAborted {
			return new_error("", true);
		}
		let e = CLOSED.with(|t| {
			let mut t = t.lock().unwrap();
			let (mut r, _) = t.split();
			now(|cx| Pin::new(&mut r).poll_read_msg(cx)).expect_err("read from a closed connection")
		});
		assert!(e.is_fatal() && e.inner().is_connection_aborted());
		e
	}

	pub fn read_half<R>(_: R, _: u32, _: Endian) -> ReadHalf<R> {
		crate::explore::machinery_error("built without hooks")
	}

	pub fn write_half<W>(_: W, _: u32, _: Endian) -> WriteHalf<W> {
		crate::explore::machinery_error("built without hooks")
	}

	impl<R: Send + Unpin> TransportReadHalf for ReadHalf<R> {
		type Body = StreamBody;
		fn poll_read_msg(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<Message<StreamBody>, TransportError>> {
			Poll::Pending
		}
	}

	impl<W: Send + Unpin> TransportWriteHalf for WriteHalf<W> {
		type Body = StreamBody;
		fn poll_write_msg(self: Pin<&mut Self>, _: &mut Context, _: &MessageHeader, _: &StreamBody) -> Poll<Result<(), TransportError>> {
			Poll::Pending
		}
	}

	pub trait SetNextId {
		fn set_next_id(&self, _id: u32) {}
	}
	impl<B> SetNextId for PeerHandle<B> {}
	impl<B> SetNextId for PeerWriteHandle<B> {}
}

pub use imp::*;
