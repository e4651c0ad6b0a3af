//! Built with one combination of the features of fizyr-rpc. Explores all histories of a few operations of two connected
//! peers over each transport that the combination provides, and over a transport of its own, which needs no feature.
//! Prints a line `<scenario> <executions> <operations>` for each scenario, or `FAIL <what>`.
//! usage: features <depth> <scratch directory>
#![allow(dead_code, unused_imports, unused_variables)]

use fizyr_rpc::transport::{Endian, Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{Body, Error, Message, MessageHeader, Peer, PeerHandle, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, RecvMessageError, SentRequestHandle, StreamBody, UnixBody};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

type Res<T = ()> = Result<T, String>;

macro_rules! check {
	($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)) } };
}

// ------------------------------------------------------------------ a transport that needs no feature

#[derive(Default)]
struct Queue {
	messages: VecDeque<(MessageHeader, Vec<u8>)>,
	waker: Option<Waker>,
}

struct Memory {
	input: Arc<Mutex<Queue>>,
	output: Arc<Mutex<Queue>>,
}

struct MemoryHalf(Arc<Mutex<Queue>>);

impl Memory {
	fn pair() -> (Self, Self) {
		let (a, b) = (Arc::<Mutex<Queue>>::default(), Arc::<Mutex<Queue>>::default());
		(Self { input: a.clone(), output: b.clone() }, Self { input: b, output: a })
	}
}

impl Transport for Memory {
	type Body = StreamBody;
	type Info = ();
	type Config = ();
	type ReadHalf<'a> = MemoryHalf;
	type WriteHalf<'a> = MemoryHalf;
	fn split(&mut self) -> (MemoryHalf, MemoryHalf) {
		(MemoryHalf(self.input.clone()), MemoryHalf(self.output.clone()))
	}
	fn info(&self) -> std::io::Result<()> {
		Ok(())
	}
}

impl TransportReadHalf for MemoryHalf {
	type Body = StreamBody;
	fn poll_read_msg(self: Pin<&mut Self>, context: &mut Context) -> Poll<Result<Message<StreamBody>, TransportError>> {
		let mut q = self.0.lock().unwrap();
		match q.messages.pop_front() {
			Some((h, b)) => Poll::Ready(Ok(Message::new(h, b.into()))),
			None => {
				q.waker = Some(context.waker().clone());
				Poll::Pending
			},
		}
	}
}

impl TransportWriteHalf for MemoryHalf {
	type Body = StreamBody;
	fn poll_write_msg(self: Pin<&mut Self>, _: &mut Context, header: &MessageHeader, body: &StreamBody) -> Poll<Result<(), TransportError>> {
		let mut q = self.0.lock().unwrap();
		q.messages.push_back((*header, body.data.clone()));
		if let Some(w) = q.waker.take() {
			w.wake();
		}
		Poll::Ready(Ok(()))
	}
}

// ------------------------------------------------------------------ histories of two peers

trait Bytes: Body + From<Vec<u8>> {
	fn bytes(&self) -> &[u8];
	/// A body with the given files.
	fn with_files(_files: &[std::fs::File]) -> Option<Self> {
		None
	}
	/// Which files are attached.
	fn files(&self) -> Vec<(u64, u64)> {
		Vec::new()
	}
}

fn identity(file: &std::fs::File) -> (u64, u64) {
	use std::os::unix::fs::MetadataExt;
	let m = file.metadata().expect("metadata of a file");
	(m.dev(), m.ino())
}

/// A connection: whole or split, so that everything is used through both.
enum Side<B> {
	Whole(PeerHandle<B>),
	Halves(PeerReadHandle<B>, PeerWriteHandle<B>),
}

impl<B: Bytes> Side<B> {
	fn new(handle: PeerHandle<B>, split: bool) -> Self {
		if !split {
			return Self::Whole(handle);
		}
		let (read, write) = handle.split();
		Self::Halves(read, write.clone())
	}
	async fn recv(&mut self) -> Result<ReceivedMessage<B>, Error> {
		match self {
			Self::Whole(x) => x.recv_message().await,
			Self::Halves(x, _) => x.recv_message().await,
		}
	}
	async fn request(&self, service: i32, body: Vec<u8>) -> Result<SentRequestHandle<B>, Error> {
		match self {
			Self::Whole(x) => x.send_request(service, body).await,
			Self::Halves(_, x) => x.send_request(service, body).await,
		}
	}
	async fn stream(&self, service: i32, body: impl Into<B>) -> Result<(), Error> {
		match self {
			Self::Whole(x) => x.send_stream(service, body).await,
			Self::Halves(_, x) => x.send_stream(service, body).await,
		}
	}
	/// End the connection in one of the ways that exist.
	fn end(self, how: usize) {
		match (self, how) {
			(x, 0) => drop(x),
			(Self::Whole(x), 1) => x.close(),
			(Self::Whole(x), _) => {
				let close = x.close_handle();
				close.close();
				std::mem::forget(x);
			},
			(Self::Halves(read, write), 1) => {
				read.close();
				std::mem::forget((read, write));
			},
			(Self::Halves(read, write), 2) => {
				write.close();
				std::mem::forget((read, write));
			},
			(Self::Halves(read, write), 3) => {
				read.close_handle().close();
				std::mem::forget((read, write));
			},
			(Self::Halves(read, write), _) => {
				write.close_handle().close();
				std::mem::forget((read, write));
			},
		}
	}
}
impl Bytes for StreamBody {
	fn bytes(&self) -> &[u8] {
		&self.data
	}
}
impl Bytes for UnixBody {
	fn bytes(&self) -> &[u8] {
		&self.data
	}
	fn with_files(files: &[std::fs::File]) -> Option<Self> {
		let files: Vec<_> = files.iter().map(|x| filedesc::FileDesc::new(x.try_clone().expect("duplicate a file").into())).collect();
		Some(Self::new(vec![1, 2], files))
	}
	fn files(&self) -> Vec<(u64, u64)> {
		use std::os::fd::AsFd;
		self.fds.iter().map(|x| identity(&std::fs::File::from(x.as_fd().try_clone_to_owned().expect("duplicate a file")))).collect()
	}
}

async fn yields() {
	for _ in 0..8 {
		tokio::task::yield_now().await;
	}
}

struct Pair<B> {
	a: Side<B>,
	b: Side<B>,
	open: Option<(SentRequestHandle<B>, ReceivedRequestHandle<B>)>,
}

const OPS: usize = 10;
const NAMES: [&str; OPS] = ["stream", "stream back", "request", "requester update", "responder update", "response", "error response", "too large", "too large back", "files"];

/// Perform one operation. Returns false if it makes no sense now.
async fn op<B: Bytes>(p: &mut Pair<B>, op: usize, n: usize, limits: Option<Limits>) -> Res<bool> {
	let body = vec![n as u8 + 1; (n * 7 + op) % 5 * 3];
	let service = n as i32 * 3 - 1;
	let e = |e: Error| format!("{}: {e}", NAMES[op]);
	match op {
		0 | 1 => {
			let (from, to) = if op == 0 { (&mut p.a, &mut p.b) } else { (&mut p.b, &mut p.a) };
			from.stream(service, body.clone()).await.map_err(e)?;
			match to.recv().await.map_err(e)? {
				ReceivedMessage::Stream(m) => check!(m.header.service_id == service && m.body.bytes() == body, "received {m:?} instead of the stream message {service} {body:?}"),
				m => return Err(format!("received {m:?} instead of a stream message")),
			}
		},
		2 if p.open.is_none() => {
			let sent = p.a.request(service, body.clone()).await.map_err(e)?;
			match p.b.recv().await.map_err(e)? {
				ReceivedMessage::Request(r, b) => {
					check!(r.service_id() == service && r.request_id() == sent.request_id() && b.bytes() == body, "received request {r:?} {:?} instead of {service} {body:?}", b.bytes());
					p.open = Some((sent, r));
				},
				m => return Err(format!("received {m:?} instead of a request")),
			}
		},
		3..=6 if p.open.is_some() => {
			let (sent, received) = p.open.as_mut().unwrap();
			if op == 3 {
				if n % 2 == 0 {
					sent.send_update(service, body.clone()).await.map_err(e)?;
				} else {
					let write = sent.write_handle().clone();
					check!(write.request_id() == sent.request_id() && write.service_id() == sent.service_id(), "the write handle is of another request");
					write.send_update(service, body.clone()).await.map_err(e)?;
				}
				let m = received.recv_update().await.ok_or("there is no update")?;
				check!(m.header == MessageHeader::requester_update(sent.request_id(), service) && m.body.bytes() == body, "received {m:?} instead of an update");
			} else if op == 4 {
				if n % 2 == 0 {
					received.send_update(service, body.clone()).await.map_err(e)?;
				} else {
					let write = received.write_handle().clone();
					check!(write.request_id() == received.request_id() && write.service_id() == received.service_id(), "the write handle is of another request");
					write.send_update(service, body.clone()).await.map_err(e)?;
				}
				let m = sent.recv_update().await.ok_or("there is no update")?;
				check!(m.header == MessageHeader::responder_update(sent.request_id(), service) && m.body.bytes() == body, "received {m:?} instead of an update");
			} else {
				let (service, body) = if op == 5 { (service, body) } else { (-1, b"failure \xc3\xbc".to_vec()) };
				let write = received.write_handle();
				let copy = write.clone();
				if n % 2 == 1 && op == 5 {
					write.send_response(service, body.clone()).await.map_err(e)?;
				} else if n % 2 == 1 {
					write.send_error_response("failure \u{fc}").await.map_err(e)?;
				} else if op == 5 {
					received.send_response(service, body.clone()).await.map_err(e)?;
				} else {
					received.send_error_response("failure \u{fc}").await.map_err(e)?;
				}
				let m = sent.recv_response().await.map_err(e)?;
				check!(m.header == MessageHeader::response(sent.request_id(), service) && m.body.bytes() == body, "received {m:?} instead of a response");
				check!(op == 5 || m.body.as_error() == Ok("failure \u{fc}"), "the error text is {:?}", m.body.as_error());
				check!(received.send_update(1, Vec::new()).await.is_err(), "an update was sent after the response");
				check!(write.send_update(1, Vec::new()).await.is_err(), "an update was sent after the response, by a write handle");
				check!(copy.send_response(1, Vec::new()).await.is_err(), "a second response was sent");
				let late = sent.send_update(1, Vec::new()).await;
				check!(late.is_err() && sent.write_handle().send_update(1, Vec::new()).await.is_err(), "an update was sent to a request that has its response");
				p.open = None;
			}
		},
		7 | 8 => {
			let Some(limits) = limits else { return Ok(false) };
			let (from, to, limit) = if op == 7 { (&p.b, &mut p.a, limits.back) } else { (&p.a, &mut p.b, limits.forth) };
			let most = if op == 7 { limit } else { limit + 1 };
			check!(from.stream(1, vec![0; most + 1]).await.is_err(), "a message that is too large was sent");
			from.stream(1, vec![5; limit]).await.map_err(e)?;
			match to.recv().await.map_err(e)? {
				ReceivedMessage::Stream(m) => check!(m.body.bytes() == vec![5; limit], "a message of the largest size was changed"),
				m => return Err(format!("received {m:?} instead of a large stream message")),
			}
		},
		9 => {
			let files: Vec<_> = ["first", "second"][..1 + n % 2].iter().map(|x| std::fs::File::create(scratch().join(x)).expect("create a file")).collect();
			let Some(body) = B::with_files(&files) else { return Ok(false) };
			let expected: Vec<_> = files.iter().map(identity).collect();
			p.a.stream(service, body).await.map_err(e)?;
			match p.b.recv().await.map_err(e)? {
				ReceivedMessage::Stream(m) => check!(m.body.bytes() == [1, 2] && m.body.files() == expected, "received {m:?} instead of a message with {} files", files.len()),
				m => return Err(format!("received {m:?} instead of a message with files")),
			}
		},
		_ => return Ok(false),
	}
	Ok(true)
}

/// The largest bodies. What the first side sends may be one byte too large for the second one.
#[derive(Clone, Copy)]
struct Limits {
	forth: usize,
	back: usize,
}

const ENDS: usize = 6;

/// The end of the connection.
async fn end<B: Bytes>(p: Pair<B>, how: usize, limits: Option<Limits>) -> Res {
	let Pair { a, mut b, open } = p;
	let mut kept = None;
	match (how, limits) {
		(5, None) => return Ok(()),
		(5, Some(limits)) => {
			a.stream(1, vec![0; limits.forth + 1]).await.map_err(|e| e.to_string())?;
			kept = Some(a);
		},
		_ => a.end(how),
	}
	let mut ends = 0;
	loop {
		match b.recv().await {
			Ok(m) => return Err(format!("received {m:?} after the end")),
			Err(e) if how == 5 && ends == 0 => check!(!e.is_connection_aborted(), "a message that is too large was reported as {e}"),
			Err(e) => check!(e.is_connection_aborted(), "the end was reported as {e}"),
		}
		ends += 1;
		if ends == 2 {
			break;
		}
		// The two kinds of transports do not agree on whether the connection goes on after this.
		if how == 5 && kept.take().is_some() && open.is_none() {
			break;
		}
	}
	if let Some((mut sent, mut received)) = open {
		check!(received.recv_update().await.is_none() && sent.recv_update().await.is_none(), "received an update after the end");
		check!(sent.recv_response().await.is_err_and(|e| e.is_connection_aborted()), "received a response after the end");
	}
	Ok(())
}

fn run<F: Future<Output = Res>>(f: F) -> Res {
	let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("create runtime");
	rt.block_on(f)
}

/// All sequences of operations.
fn explore<B: Bytes, F: Future<Output = Res<(PeerHandle<B>, PeerHandle<B>)>>>(name: &str, depth: usize, limits: Option<Limits>, ends: usize, connect: impl Fn(usize) -> F) {
	let (mut executions, mut operations) = (0u64, 0u64);
	let mut sequence = vec![0usize; depth];
	loop {
		let mut useless = None;
		for variant in 0..ends.max(1) * 2 {
			let (how, split) = (variant / 2, variant % 2 == 1);
			let r = run(async {
				let (a, b) = connect(executions as usize).await?;
				let mut p = Pair { a: Side::new(a, split), b: Side::new(b, split), open: None };
				for (n, x) in sequence.iter().enumerate() {
					if !op(&mut p, *x, n, limits).await? {
						useless = Some(n);
						return Ok(());
					}
					operations += 1;
				}
				if ends > 0 {
					end(p, how, limits).await?;
				}
				Ok(())
			});
			if let Err(e) = r {
				println!("FAIL {name}: {}, end {how}, {}: {e}", sequence.iter().map(|x| NAMES[*x]).collect::<Vec<_>>().join(", "), if split { "split" } else { "whole" });
				std::process::exit(1);
			}
			if useless.is_some() {
				break;
			}
			executions += 1;
		}
		// The next sequence. Everything that starts with a useless operation is left out.
		let mut i = useless.unwrap_or(depth - 1);
		sequence[i + 1..].fill(0);
		loop {
			sequence[i] += 1;
			if sequence[i] < OPS {
				break;
			}
			sequence[i] = 0;
			if i == 0 {
				println!("{} {executions} {operations}", name.replace(' ', "-"));
				return;
			}
			i -= 1;
		}
	}
}

/// What needs no feature and no connection.
fn surface() {
	let r = (|| -> Res {
		for endian in ENDIANS {
			for kind in 0..6u32 {
				let Ok(message_type) = fizyr_rpc::MessageType::from_u32(kind) else {
					check!(kind == 5, "message type {kind} does not exist");
					continue;
				};
				check!(
					[message_type.is_request(), message_type.is_response(), message_type.is_requester_update(), message_type.is_responder_update(), message_type.is_stream()].iter().position(|x| *x) == Some(kind as usize),
					"message type {kind} is {message_type:?}"
				);
				let header = MessageHeader { message_type, request_id: 0x01020304, service_id: -2 };
				let mut buffer = [0; fizyr_rpc::HEADER_LEN as usize];
				header.encode(&mut buffer, endian);
				let big = [kind.to_be_bytes(), 0x01020304u32.to_be_bytes(), (-2i32).to_be_bytes()].concat();
				let little = [kind.to_le_bytes(), 0x01020304u32.to_le_bytes(), (-2i32).to_le_bytes()].concat();
				let is_big = match endian {
					Endian::BigEndian => true,
					Endian::LittleEndian => false,
					_ => cfg!(target_endian = "big"),
				};
				check!(buffer[..] == if is_big { big } else { little }[..], "{header:?} is encoded as {buffer:?}");
				check!(MessageHeader::decode(&buffer, endian).is_ok_and(|x| x == header), "{buffer:?} is not decoded");
			}
		}
		check!(fizyr_rpc::MAX_PAYLOAD_LEN == u32::MAX - fizyr_rpc::HEADER_LEN && fizyr_rpc::service_id::ERROR == -1, "the constants differ");
		let messages = [
			Message::request(1, 2, StreamBody::empty()), Message::response(1, 2, StreamBody::empty()), Message::requester_update(1, 2, StreamBody::empty()),
			Message::responder_update(1, 2, StreamBody::empty()), Message::stream(1, 2, StreamBody::empty()),
		];
		let headers = [MessageHeader::request(1, 2), MessageHeader::response(1, 2), MessageHeader::requester_update(1, 2), MessageHeader::responder_update(1, 2), MessageHeader::stream(1, 2)];
		for (n, (message, header)) in messages.iter().zip(headers).enumerate() {
			check!(message.header == header && header.message_type as usize == n && header.request_id == 1 && header.service_id == 2, "{message:?} has another header");
		}
		let error = Message::<StreamBody>::error_response(3, "e\u{fc}");
		check!(error.header == MessageHeader::error_response(3) && error.body.as_error() == Ok("e\u{fc}") && error.body.into_error().is_ok_and(|x| x == "e\u{fc}"), "the error response differs");
		let error = Message::<UnixBody>::error_response(3, "e\u{fc}");
		check!(error.body.as_error() == Ok("e\u{fc}") && error.body.into_error().is_ok_and(|x| x == "e\u{fc}"), "the error response differs");
		let boxed = || Box::new(std::io::Error::new(std::io::ErrorKind::Other, "boxed"));
		let aborted = || std::io::Error::from(std::io::ErrorKind::ConnectionAborted);
		let errors = [
			Error::io_error(aborted()), Error::from(aborted()), Error::remote_error("far".into()), Error::custom("own".into()), Error::message_too_short(3), Error::invalid_message_type(9), Error::payload_too_large(5, 4),
			Error::unexpected_service_id(6), Error::encode_failed(boxed()), Error::decode_failed(boxed()),
		];
		for (n, error) in errors.into_iter().enumerate() {
			check!(error.is_connection_aborted() == (n < 2) && error.is_remote_error() == (n == 2) && !error.is_unexpected_message_type(), "{error} is something else");
			check!(error.as_remote_error() == (n == 2).then_some("far"), "{error} is something else");
			let text = ["abort", "abort", "far", "own", "3", "9", "5", "6", "boxed", "boxed"][n];
			check!(error.to_string().contains(text), "{error} does not tell {text}");
			let other: RecvMessageError<StreamBody> = if n % 2 == 0 { RecvMessageError::Other(error) } else { error.into() };
			check!(other.is_connection_aborted() == (n < 2) && other.request_handle().is_none() && other.to_string().contains(text), "{other} is something else");
			let RecvMessageError::Other(error) = other else { return Err("the error is something else".into()) };
			check!(error.into_remote_error() == (n == 2).then(|| "far".to_string()), "the remote error differs");
		}
		Ok(())
	})();
	if let Err(e) = r {
		println!("FAIL without a connection: {e}");
		std::process::exit(1);
	}
	println!("surface 1 1");
}

const ENDIANS: [Endian; 3] = [Endian::LittleEndian, Endian::BigEndian, Endian::NativeEndian];

/// The peer of a listener and the one of its client. The listener is used in both ways.
macro_rules! listener {
	($listener:ty, $peer:ty, $config:expr, $address:expr, $make:expr, $info:expr) => {
		|n: usize| async move {
			let (address, mut listener): (_, $listener) = $make(n, $config(n, false)).await.map_err(|e: std::io::Error| format!("binding failed: {e}"))?;
			let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
			let server = tokio::spawn(async move {
				if n % 4 < 2 {
					tx.send(listener.accept().await).map_err(|_| ()).expect("send a peer");
				} else {
					let r = listener.run(move |peer, info| {
						tx.send(Ok((peer, info))).map_err(|_| ()).expect("send a peer");
						async {}
					});
					r.await.expect("run a listener");
				}
			});
			let (client, client_info) = <$peer>::connect($address(&address), $config(n, true)).await.map_err(|e| format!("connecting failed: {e}"))?;
			let (handle, info) = rx.recv().await.ok_or("there is no peer")?.map_err(|e| format!("accepting failed: {e}"))?;
			server.abort();
			$info(&client_info, &info)?;
			Ok((client, handle))
		}
	};
}

fn scratch() -> std::path::PathBuf {
	std::env::args().nth(2).expect("scratch directory").into()
}

const LIMITS: Limits = Limits { forth: 100, back: 60 };

fn stream_config(n: usize, first: bool) -> fizyr_rpc::StreamConfig {
	let mut x = fizyr_rpc::StreamConfig::default();
	(x.max_body_len_read, x.max_body_len_write) = if first { (60, 101) } else { (100, 60) };
	x.endian = ENDIANS[n / 4 % 3];
	x
}

fn unix_config(n: usize, first: bool) -> fizyr_rpc::UnixConfig {
	let mut x = fizyr_rpc::UnixConfig::default();
	(x.max_body_len_read, x.max_body_len_write) = if first { (60, 101) } else { (100, 60) };
	(x.max_fds_read, x.max_fds_write) = if first { (1, 2) } else { (2, 1) };
	x.endian = ENDIANS[n / 4 % 3];
	x
}

fn main() {
	let depth: usize = std::env::args().nth(1).and_then(|x| x.parse().ok()).expect("depth");
	surface();
	explore("no feature", depth, None, 0, |_| async {
		let (a, b) = Memory::pair();
		Ok((Peer::spawn(a), Peer::spawn(b)))
	});

	#[cfg(feature = "tcp")]
	{
		async fn make(_: usize, config: fizyr_rpc::StreamConfig) -> std::io::Result<(std::net::SocketAddr, fizyr_rpc::TcpListener)> {
			let socket = tokio::net::TcpListener::bind("127.0.0.1:0").await?;
			let address = socket.local_addr()?;
			Ok((address, fizyr_rpc::TcpListener::new(socket, config)))
		}
		fn info(a: &fizyr_rpc::transport::TcpStreamInfo, b: &fizyr_rpc::transport::TcpStreamInfo) -> Res {
			check!(a.local_address() == b.remote_address() && a.remote_address() == b.local_address(), "the addresses are {a:?} and {b:?}");
			Ok(())
		}
		explore("tcp", depth.min(3), Some(LIMITS), ENDS, listener!(fizyr_rpc::TcpListener, fizyr_rpc::TcpPeer, stream_config, |x: &std::net::SocketAddr| *x, make, info));
	}
	#[cfg(feature = "unix-stream")]
	{
		async fn make(_: usize, config: fizyr_rpc::StreamConfig) -> std::io::Result<(std::path::PathBuf, fizyr_rpc::UnixStreamListener)> {
			let path = scratch().join("stream");
			Ok((path.clone(), fizyr_rpc::UnixStreamListener::bind(&path, config).await?))
		}
		fn info(a: &fizyr_rpc::transport::UnixStreamInfo, b: &fizyr_rpc::transport::UnixStreamInfo) -> Res {
			let me = Some(std::process::id() as i32);
			check!(a.process_id() == me && b.process_id() == me && a.user_id() == b.user_id() && a.group_id() == b.group_id(), "the peers are {a:?} and {b:?}");
			Ok(())
		}
		explore("unix stream", depth.min(3), Some(LIMITS), ENDS, listener!(fizyr_rpc::UnixStreamListener, fizyr_rpc::UnixStreamPeer, stream_config, |x: &std::path::PathBuf| x.clone(), make, info));
		explore("unix stream pair", depth, Some(LIMITS), ENDS, |n| async move {
			let (a, b) = tokio::net::UnixStream::pair().map_err(|e| e.to_string())?;
			Ok((Peer::spawn(fizyr_rpc::UnixStreamTransport::new(a, stream_config(n, true))), fizyr_rpc::UnixStreamPeer::spawn(fizyr_rpc::UnixStreamTransport::new(b, stream_config(n, false)))))
		});
	}
	#[cfg(feature = "unix-seqpacket")]
	{
		async fn make(_: usize, config: fizyr_rpc::UnixConfig) -> std::io::Result<(std::path::PathBuf, fizyr_rpc::UnixSeqpacketListener)> {
			let path = scratch().join("seqpacket");
			Ok((path.clone(), fizyr_rpc::UnixSeqpacketListener::bind(&path, config).await?))
		}
		fn info(a: &fizyr_rpc::transport::UnixSeqpacketInfo, b: &fizyr_rpc::transport::UnixSeqpacketInfo) -> Res {
			let me = Some(std::process::id() as i32);
			check!(a.process_id() == me && b.process_id() == me && a.user_id() == b.user_id() && a.group_id() == b.group_id(), "the peers are {a:?} and {b:?}");
			Ok(())
		}
		explore("unix seqpacket", depth, Some(LIMITS), ENDS, listener!(fizyr_rpc::UnixSeqpacketListener, fizyr_rpc::UnixSeqpacketPeer, unix_config, |x: &std::path::PathBuf| x.clone(), make, info));
	}
	#[cfg(feature = "macros")]
	typed::main();
}

#[cfg(feature = "macros")]
mod typed {
	use super::*;

	mod number {
		fizyr_rpc::interface! {
			/// Numbers.
			pub interface Numbers {
				/// Count.
				service 1 count: u32 -> u32 {
					request_update 1 more: u32,
					response_update 1 sofar: u32,
				},
				service 2 empty: () -> (),
				stream 1 tick: u32,
			}
		}
	}

	/// Numbers as text.
	struct Text<B>(std::marker::PhantomData<B>);
	impl<B: Bytes> fizyr_rpc::format::Format for Text<B> {
		type Body = B;
	}
	impl<B: Bytes> fizyr_rpc::format::EncodeBody<u32> for Text<B> {
		fn encode_body(value: &u32) -> Result<B, Box<dyn std::error::Error + Send>> {
			Ok(B::from(value.to_string().into_bytes()))
		}
	}
	impl<B: Bytes> fizyr_rpc::format::DecodeBody<u32> for Text<B> {
		fn decode_body(body: B) -> Result<u32, Box<dyn std::error::Error + Send>> {
			let text = std::str::from_utf8(body.bytes()).map_err(|e| Box::new(e) as _);
			text.and_then(|x| x.parse().map_err(|e| Box::new(e) as _))
		}
	}
	impl<B: Bytes> fizyr_rpc::format::EncodeBody<()> for Text<B> {
		fn encode_body(_: &()) -> Result<B, Box<dyn std::error::Error + Send>> {
			Ok(B::empty())
		}
	}
	impl<B: Bytes> fizyr_rpc::format::DecodeBody<()> for Text<B> {
		fn decode_body(body: B) -> Result<(), Box<dyn std::error::Error + Send>> {
			Ok(())
		}
	}

	async fn exchange<B: Bytes>(a: PeerHandle<B>, b: PeerHandle<B>, order: usize) -> Res {
		let client = number::Client::<Text<B>>::from(a);
		let mut server = number::Server::<Text<B>>::from(b);
		for k in 0..3 {
			match (order / 3usize.pow(k)) % 3 {
				0 => {
					let mut sent = client.count(&7).await.map_err(|e| e.to_string())?;
					let Ok(number::ReceivedMessage::Request(number::ReceivedRequestHandle::Count(mut request, 7))) = server.recv_message().await else { return Err("the request does not arrive".into()) };
					sent.send_more_update(&8).await.map_err(|e| e.to_string())?;
					let Some(Ok(update)) = request.recv_update().await else { return Err("the update does not arrive".into()) };
					check!(update.as_more() == Some(&8), "another update arrives");
					request.send_sofar_update(&9).await.map_err(|e| e.to_string())?;
					let Some(Ok(update)) = sent.recv_update().await else { return Err("the update does not arrive".into()) };
					check!(update.as_sofar() == Some(&9), "another update arrives");
					request.send_response(&10).await.map_err(|e| e.to_string())?;
					let x = sent.recv_response().await.map_err(|e| e.to_string())?;
					check!(x == 10, "the response is {x}");
				},
				1 => {
					let (response, _) = (client.empty(), ());
					let mut response = Box::pin(response);
					let mut serve = Box::pin(async {
						let Ok(number::ReceivedMessage::Request(number::ReceivedRequestHandle::Empty(request, ()))) = server.recv_message().await else { return Err("the request does not arrive".to_string()) };
						request.send_error_response("no").await.map_err(|e| e.to_string())
					});
					let mut served = false;
					let r = std::future::poll_fn(|cx| {
						if !served {
							if let Poll::Ready(r) = serve.as_mut().poll(cx) {
								r?;
								served = true;
							}
						}
						response.as_mut().poll(cx).map(Ok::<_, String>)
					}).await?;
					drop(serve);
					check!(r.is_err_and(|e| e.as_remote_error() == Some("no")), "the error does not arrive");
				},
				_ => {
					client.send_tick(&11).await.map_err(|e| e.to_string())?;
					let Ok(number::ReceivedMessage::Stream(number::StreamMessage::Tick(11))) = server.recv_message().await else { return Err("the stream message does not arrive".into()) };
				},
			}
		}
		Ok(())
	}

	fn all<B: Bytes, F: Future<Output = Res<(PeerHandle<B>, PeerHandle<B>)>>>(name: &str, connect: impl Fn() -> F) {
		for order in 0..27 {
			let r = run(async {
				let (a, b) = connect().await?;
				exchange(a, b, order).await
			});
			if let Err(e) = r {
				println!("FAIL {name}: typed exchange {order}: {e}");
				std::process::exit(1);
			}
		}
		println!("{}-typed 27 81", name.replace(' ', "-"));
	}

	pub fn main() {
		all("no feature", || async {
			let (a, b) = Memory::pair();
			Ok((Peer::spawn(a), Peer::spawn(b)))
		});
		#[cfg(feature = "unix-stream")]
		all("unix stream", || async {
			let (a, b) = tokio::net::UnixStream::pair().map_err(|e| e.to_string())?;
			Ok((Peer::spawn(fizyr_rpc::UnixStreamTransport::new_default(a)), Peer::spawn(fizyr_rpc::UnixStreamTransport::new_default(b))))
		});
		#[cfg(feature = "unix-seqpacket")]
		all("unix seqpacket", || async {
			let path = scratch().join("typed");
			let mut listener = fizyr_rpc::UnixSeqpacketListener::bind(&path, Default::default()).await.map_err(|e| e.to_string())?;
			let server = tokio::spawn(async move { listener.accept().await });
			let (client, _) = fizyr_rpc::UnixSeqpacketPeer::connect(&path, Default::default()).await.map_err(|e| e.to_string())?;
			Ok((client, server.await.unwrap().map_err(|e| e.to_string())?.0))
		});
	}
}
