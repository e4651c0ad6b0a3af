//! Nobody is starved by somebody who never pauses (P31).
//!
//! Nothing here is measured in time: what has to happen must have happened by the time the flood has gone on for a
//! bounded number of messages.

use super::bytes::body;
use super::net::*;
use fizyr_rpc::transport::{Endian, Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{Message, MessageHeader, Peer, PeerHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, SentRequestHandle, StreamBody};
use mc::exec::Exec;
use mc::explore::{Ctx, Fail, Res};
use mc::mock::{new_error, Msg, NoConfig, NoInfo, REFUSED_READ};
use mc::real::*;
use mc::report::Check;
use mc::{check, fail};
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// How many messages of a flood may pass before something that has to happen did happen.
const BOUND: u64 = 3000;

const FLOODS: [&str; 8] = [
	"stream messages",
	"requests",
	"requests with an ID in use",
	"updates for a sent request",
	"updates for a received request",
	"updates for unknown requests",
	"messages that the transport rejects",
	"messages of all kinds",
];

#[derive(Default)]
struct State {
	kind: usize,
	sent_id: u32,
	received_id: u32,
	/// Messages that come before the flood.
	first: Vec<Msg>,
	flooding: bool,
	/// Number of messages of the flood that were read.
	count: u64,
	/// The flood pauses when it reaches this.
	alarm: u64,
	alarm_waker: Option<Waker>,
	read_waker: Option<Waker>,
	written: Vec<MessageHeader>,
	/// Number of messages written.
	writes: u64,
	write_limit: u64,
	write_pending: bool,
	/// Does every write have to wait once?
	slow: bool,
	/// Does the transport take part in the cooperative scheduling of tokio?
	cooperative: bool,
	dropped: bool,
}

#[derive(Clone, Default)]
struct Flood(Arc<Mutex<State>>);

impl Flood {
	fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
		f(&mut self.0.lock().unwrap())
	}
	fn transport(&self) -> FloodTransport {
		FloodTransport(self.clone())
	}
	fn start(&self) {
		let waker = self.with(|s| {
			s.flooding = true;
			s.read_waker.take()
		});
		if let Some(w) = waker {
			w.wake()
		}
	}
	fn count(&self) -> u64 {
		self.with(|s| s.count)
	}

	/// Something that has to happen while the flood goes on.
	async fn within<T>(&self, what: &str, fut: impl Future<Output = T>) -> Res<T> {
		let start = self.count();
		let mut fut = pin!(fut);
		std::future::poll_fn(|cx| {
			let waker = self.with(|s| {
				s.alarm = start + BOUND;
				s.alarm_waker = Some(cx.waker().clone());
				s.read_waker.take()
			});
			if let Some(w) = waker {
				w.wake()
			}
			let r = fut.as_mut().poll(cx);
			if self.count() - start >= BOUND {
				return Poll::Ready(Err(Fail(format!("{what} does not complete while {} messages arrive", self.count() - start))));
			}
			r.map(Ok)
		})
		.await
	}
}

struct FloodTransport(Flood);
struct FloodRead(Flood);
struct FloodWrite(Flood);

impl Drop for FloodTransport {
	fn drop(&mut self) {
		let waker = self.0.with(|s| {
			s.dropped = true;
			s.alarm_waker.take()
		});
		if let Some(w) = waker {
			w.wake()
		}
	}
}

impl Transport for FloodTransport {
	type Body = StreamBody;
	type Info = NoInfo;
	type Config = NoConfig;
	type ReadHalf<'a> = FloodRead;
	type WriteHalf<'a> = FloodWrite;
	fn split(&mut self) -> (FloodRead, FloodWrite) {
		(FloodRead(self.0.clone()), FloodWrite(self.0.clone()))
	}
	fn info(&self) -> std::io::Result<NoInfo> {
		Ok(NoInfo)
	}
}

/// Take part in the cooperative scheduling of tokio.
fn cooperate(cx: &mut Context) -> Poll<()> {
	pin!(tokio::task::consume_budget()).poll(cx)
}

impl TransportReadHalf for FloodRead {
	type Body = StreamBody;
	fn poll_read_msg(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message<StreamBody>, TransportError>> {
		if self.0.with(|s| s.cooperative) && cooperate(cx).is_pending() {
			return Poll::Pending;
		}
		let mut waker = None;
		let result = self.0.with(|s| {
			if !s.first.is_empty() {
				let m = s.first.remove(0);
				return Poll::Ready(Ok(Message::new(m.header, m.body.into())));
			}
			if !s.flooding || s.count >= s.alarm {
				s.read_waker = Some(cx.waker().clone());
				return Poll::Pending;
			}
			let n = s.count as u32;
			s.count += 1;
			if s.count >= s.alarm {
				waker = s.alarm_waker.take();
			}
			let kind = if s.kind == 7 { n as usize % 7 } else { s.kind };
			let header = match kind {
				0 => MessageHeader::stream(0, n as i32),
				1 => MessageHeader::request(1000 + n, n as i32),
				2 => MessageHeader::request(s.received_id, n as i32),
				3 => MessageHeader::responder_update(s.sent_id, n as i32),
				4 => MessageHeader::requester_update(s.received_id, n as i32),
				5 => MessageHeader::responder_update(s.sent_id.wrapping_sub(1000), n as i32),
				_ => return Poll::Ready(Err(new_error(REFUSED_READ, false))),
			};
			Poll::Ready(Ok(Message::new(header, Vec::new().into())))
		});
		if let Some(w) = waker {
			w.wake()
		}
		result
	}
}

impl TransportWriteHalf for FloodWrite {
	type Body = StreamBody;
	fn poll_write_msg(self: Pin<&mut Self>, cx: &mut Context, header: &MessageHeader, _: &StreamBody) -> Poll<Result<(), TransportError>> {
		if self.0.with(|s| s.cooperative) && cooperate(cx).is_pending() {
			return Poll::Pending;
		}
		self.0.with(|s| {
			if s.slow && !s.write_pending {
				s.write_pending = true;
				cx.waker().wake_by_ref();
				return Poll::Pending;
			}
			if s.write_limit > 0 && s.writes >= s.write_limit {
				// Never woken: the flood of the application has gone on for too long.
				return Poll::Pending;
			}
			s.write_pending = false;
			s.writes += 1;
			if s.written.len() < 100_000 {
				s.written.push(*header);
			}
			Poll::Ready(Ok(()))
		})
	}
}

/// How tasks are run.
const SCHEDULERS: [&str; 4] = [
	"the application is polled first",
	"the connection is polled first",
	"tasks of tokio",
	"tasks of tokio with a cooperative transport",
];

/// Run an application next to the task of its connection.
fn run(scheduler: usize, flood: &Flood, app: impl AsyncFnOnce(PeerHandle<StreamBody>) -> Res) -> Res {
	flood.with(|s| s.cooperative = scheduler == 3);
	let (peer, handle) = Peer::new(flood.transport());
	if scheduler >= 2 {
		return block_on(async {
			tokio::spawn(peer.run());
			must("the application", app(handle)).await?
		});
	}
	// Nothing of the application is 'static, so its task is polled here.
	let mut exec = Exec::new();
	let task = exec.spawn("peer", peer.run());
	let woken = Arc::new(Woken(AtomicBool::new(true)));
	let waker = Waker::from(woken.clone());
	let mut app = pin!(app(handle));
	let mut polls = 0u64;
	let mut turn = scheduler;
	loop {
		let app_ready = woken.0.load(Ordering::Relaxed);
		let peer_ready = exec.is_ready(task);
		if !app_ready && !peer_ready {
			fail!("nothing happens any more, but the application is not done");
		}
		polls += 1;
		check!(polls < 1_000_000, "the application is not done after {polls} polls");
		// Tasks take turns.
		if (turn == 0 && app_ready) || !peer_ready {
			woken.0.store(false, Ordering::Relaxed);
			if let Poll::Ready(x) = app.as_mut().poll(&mut Context::from_waker(&waker)) {
				return x;
			}
			turn = 1;
		} else {
			exec.poll(task);
			turn = 0;
		}
	}
}

struct Woken(AtomicBool);

impl std::task::Wake for Woken {
	fn wake(self: Arc<Self>) {
		self.0.store(true, Ordering::Relaxed)
	}
}

const OPS: [&str; 11] = [
	"receive a message",
	"send a stream message",
	"send a request",
	"send an update for the sent request",
	"send an update for the received request",
	"answer the received request",
	"receive an update of the sent request",
	"receive an update of the received request",
	"drop the read handle",
	"abandon a send",
	"receive many messages",
];

struct App {
	read: Option<fizyr_rpc::PeerReadHandle<StreamBody>>,
	write: PeerWriteHandle<StreamBody>,
	sent: SentRequestHandle<StreamBody>,
	received: ReceivedRequestHandle<StreamBody>,
	answered: bool,
	requests: Vec<SentRequestHandle<StreamBody>>,
	delivered: u64,
	streams: i64,
}

fn ok<T>(what: &str, r: Result<T, fizyr_rpc::Error>) -> Res<T> {
	r.map_err(|e| Fail(format!("{what}: {e}")))
}

impl App {
	/// Does the flood deliver anything by this operation?
	fn possible(&self, op: usize, kind: usize) -> bool {
		match op {
			0 | 10 => self.read.is_some() && (kind != 3 && (kind != 4 || self.answered)),
			4 | 5 => !self.answered,
			6 => kind == 3 || kind == 7,
			7 => !self.answered && (kind == 4 || kind == 7),
			8 => self.read.is_some(),
			_ => true,
		}
	}

	async fn receive(&mut self, flood: &Flood, kind: usize) -> Res {
		let Some(read) = &mut self.read else { return Ok(()) };
		let received = flood.within("recv_message", read.recv_message()).await?;
		self.delivered += 1;
		match received {
			Ok(ReceivedMessage::Stream(m)) => {
				check!(kind == 0 || kind == 7, "received {m:?}");
				check!(m.header.service_id as i64 > self.streams, "received stream message {} after {}", m.header.service_id, self.streams);
				check!(kind != 0 || m.header.service_id as i64 == self.streams + 1, "stream message {} is followed by {}", self.streams, m.header.service_id);
				self.streams = m.header.service_id as i64;
			},
			Ok(ReceivedMessage::Request(r, _)) => check!(r.request_id() >= 1000 || self.answered, "received {r:?}"),
			Err(e) => check!(!e.is_connection_aborted(), "the connection was closed"),
		}
		Ok(())
	}
}

/// A remote that sends without pause.
fn remote(ctx: &mut Ctx, depth: usize) -> Res {
	let kind = ctx.choose(FLOODS.len());
	let scheduler = ctx.choose(SCHEDULERS.len());
	let slow = ctx.choose(2) == 1;
	let flood = Flood::default();
	flood.with(|s| {
		s.kind = kind;
		s.slow = slow;
		s.received_id = 7;
		s.alarm = u64::MAX;
		s.first.push(Msg::new(MessageHeader::request(7, 1), body(2, 1)));
	});
	ctx.log(|| format!("a flood of {}; {}{}", FLOODS[kind], SCHEDULERS[scheduler], if slow { "; every write has to wait" } else { "" }));
	let f = flood.clone();
	run(scheduler, &flood, async |mut handle| {
		let flood = f;
		let ReceivedMessage::Request(received, _) = ok("recv_message", handle.recv_message().await)? else { fail!("no request") };
		let sent = ok("send_request", handle.send_request(3, body(1, 1)).await)?;
		flood.with(|s| s.sent_id = sent.request_id());
		let (read, write) = handle.split();
		let mut app = App { read: Some(read), write, sent, received, answered: false, requests: Vec::new(), delivered: 0, streams: -1 };
		flood.start();
		for _ in 0..depth {
			let ops: Vec<usize> = (0..OPS.len()).filter(|&op| app.possible(op, kind)).collect();
			let op = ops[ctx.choose(ops.len())];
			ctx.step();
			ctx.log(|| OPS[op].to_string());
			ctx.observe(&[op as u8]);
			match op {
				0 => app.receive(&flood, kind).await?,
				1 => ok("send_stream", flood.within("send_stream", app.write.send_stream(5, Vec::new())).await?)?,
				2 => {
					let r = ok("send_request", flood.within("send_request", app.write.send_request(5, Vec::new())).await?)?;
					app.requests.push(r);
				},
				3 => ok("send_update", flood.within("send_update of a sent request", app.sent.send_update(6, Vec::new())).await?)?,
				4 => ok("send_update", flood.within("send_update of a received request", app.received.send_update(6, Vec::new())).await?)?,
				5 => {
					ok("send_response", flood.within("send_response", app.received.send_response(6, Vec::new())).await?)?;
					app.answered = true;
				},
				6 => {
					let m = flood.within("recv_update of a sent request", app.sent.recv_update()).await?;
					check!(m.is_some(), "there is no update of a sent request");
				},
				7 => {
					let m = flood.within("recv_update of a received request", app.received.recv_update()).await?;
					check!(m.is_some(), "there is no update of a received request");
				},
				8 => app.read = None,
				9 => {
					let mut send = pin!(app.write.send_stream(9, Vec::new()));
					let _ = std::future::poll_fn(|cx| Poll::Ready(send.as_mut().poll(cx))).await;
				},
				_ => {
					// What arrives is not piled up for an application that keeps receiving.
					let mut least = u64::MAX;
					for _ in 0..1000 {
						app.receive(&flood, kind).await?;
						let count = if kind == 7 { flood.count() * 5 / 7 } else { flood.count() };
						least = least.min(count.saturating_sub(app.delivered));
					}
					check!(least < BOUND, "{least} messages pile up");
				},
			}
		}
		// The connection can be closed.
		let end = ctx.choose(3);
		ctx.step();
		ctx.log(|| ["close", "close with a close handle", "drop all handles"][end].into());
		let App { read, write, sent, received, .. } = app;
		match end {
			0 => write.close(),
			1 => write.close_handle().close(),
			_ => (),
		}
		let kept = Some((read, write)).filter(|_| end < 2);
		let gone = std::future::poll_fn(|_| if flood.with(|s| s.dropped) { Poll::Ready(()) } else { Poll::Pending });
		flood.within("closing the connection", gone).await?;
		drop((kept, sent, received));
		Ok(())
	})
}

const SENDS: [&str; 4] = ["stream messages", "updates for a sent request", "updates for a received request", "requests"];

/// An application that sends without pause, from a number of tasks at once.
fn local(ctx: &mut Ctx) -> Res {
	let kind = ctx.choose(SENDS.len());
	// Every task waits until its message is transmitted: without, an application can always send too much.
	let tasks = [1, 2, 7, 300][ctx.choose(4)];
	let scheduler = ctx.choose(SCHEDULERS.len());
	let slow = ctx.choose(2) == 1;
	let arrives = ctx.choose(5);
	let flood = Flood::default();
	flood.with(|s| {
		s.slow = slow;
		s.received_id = 7;
		s.alarm = u64::MAX;
		s.write_limit = 10 * BOUND;
		s.first.push(Msg::new(MessageHeader::request(7, 1), body(2, 1)));
	});
	ctx.log(|| format!("{tasks} tasks send {} without pause; {}{}", SENDS[kind], SCHEDULERS[scheduler], if slow { "; every write has to wait" } else { "" }));
	let f = flood.clone();
	run(scheduler, &flood, async |mut handle| {
		let flood = f;
		let ReceivedMessage::Request(mut received, _) = ok("recv_message", handle.recv_message().await)? else { fail!("no request") };
		let mut sent = ok("send_request", handle.send_request(3, body(1, 1)).await)?;
		let (mut read, write) = handle.split();
		let updates = sent.write_handle();
		let answers = received.write_handle();
		let (write, updates, answers) = (&write, &updates, &answers);
		let mut senders: Vec<Pin<Box<dyn Future<Output = Res> + '_>>> = Vec::new();
		for _ in 0..tasks {
			senders.push(Box::pin(async move {
				loop {
					match kind {
						0 => ok("send_stream", write.send_stream(1, Vec::new()).await)?,
						1 => ok("send_update", updates.send_update(1, Vec::new()).await)?,
						2 => ok("send_update", answers.send_update(1, Vec::new()).await)?,
						_ => {
							let request = ok("send_request", write.send_request(1, Vec::new()).await)?;
							drop(request)
						},
					}
				}
			}));
		}
		// The flood is under way when something arrives.
		for round in 0..3 {
			let wait = [0, 40, 1000][round];
			let start = flood.with(|s| s.writes);
			let mut arrived = None;
			let what = ["a stream message", "a request", "an update of the sent request", "an update of the received request", "an unknown update"][arrives];
			ctx.step();
			let mut receive: Pin<Box<dyn Future<Output = bool> + '_>> = match arrives {
				0 | 1 | 4 => Box::pin(async { read.recv_message().await.is_ok() == (arrives != 4) }),
				2 => Box::pin(async { sent.recv_update().await.is_some() }),
				_ => Box::pin(async { received.recv_update().await.is_some() }),
			};
			let id = updates.request_id();
			std::future::poll_fn(|cx| {
				for s in &mut senders {
					if let Poll::Ready(x) = s.as_mut().poll(cx) {
						return Poll::Ready(x);
					}
				}
				let writes = flood.with(|s| s.writes);
				if arrived.is_none() && writes >= start + wait {
					arrived = Some(writes);
					let header = match arrives {
						0 => MessageHeader::stream(0, 4),
						1 => MessageHeader::request(50 + round as u32, 4),
						2 => MessageHeader::responder_update(id, 4),
						3 => MessageHeader::requester_update(7, 4),
						_ => MessageHeader::requester_update(999, 4),
					};
					let waker = flood.with(|s| {
						s.first.push(Msg::new(header, Vec::new()));
						s.read_waker.take()
					});
					if let Some(w) = waker {
						w.wake()
					}
				}
				if let Poll::Ready(x) = receive.as_mut().poll(cx) {
					check_now(x, what)?;
					return Poll::Ready(Ok(()));
				}
				if let Some(a) = arrived {
					if writes > a + BOUND {
						return Poll::Ready(Err(Fail(format!("{what} is not received while {} messages are sent", writes - a))));
					}
				}
				Poll::Pending
			})
			.await?;
		}
		Ok(())
	})
}

fn check_now(x: bool, what: &str) -> Res {
	check!(x, "{what} is not received as such");
	Ok(())
}

// ---------------------------------------------------------------------------------------------------------------------
// Real sockets.

/// A thread that sends the same messages over and over again.
struct Flooder {
	stop: Arc<AtomicBool>,
	count: Arc<AtomicU64>,
	thread: Option<std::thread::JoinHandle<()>>,
}

impl Flooder {
	/// Messages are sent in large groups, to be faster than anybody can receive them.
	fn new<N: Net>(socket: N::Socket, messages: Vec<Vec<u8>>) -> Flooder {
		let stop = Arc::new(AtomicBool::new(false));
		let count = Arc::new(AtomicU64::new(0));
		let (stop_, count_) = (stop.clone(), count.clone());
		let fd = unsafe { std::os::fd::OwnedFd::from(std::os::fd::BorrowedFd::borrow_raw(N::fd(&socket)).try_clone_to_owned().expect("copy socket")) };
		let thread = std::thread::spawn(move || {
			use std::os::fd::AsRawFd;
			let fd = fd.as_raw_fd();
			let separate = N::NAME == Seqpacket::NAME;
			let data = messages.concat();
			let mut iov: Vec<libc::iovec> = messages.iter().map(|m| libc::iovec { iov_base: m.as_ptr() as *mut _, iov_len: m.len() }).collect();
			let mut group: Vec<libc::mmsghdr> = iov
				.iter_mut()
				.map(|v| {
					let mut m: libc::mmsghdr = unsafe { std::mem::zeroed() };
					m.msg_hdr.msg_iov = v;
					m.msg_hdr.msg_iovlen = 1;
					m
				})
				.collect();
			let mut at = 0;
			while !stop_.load(Ordering::Relaxed) {
				let n = if separate {
					unsafe { libc::sendmmsg(fd, group.as_mut_ptr(), group.len() as u32, libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) as isize }
				} else {
					unsafe { libc::send(fd, data[at..].as_ptr() as *const _, data.len() - at, libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) }
				};
				if n < 0 {
					if std::io::Error::last_os_error().kind() != std::io::ErrorKind::WouldBlock {
						return;
					}
					let mut p = libc::pollfd { fd, events: libc::POLLOUT, revents: 0 };
					unsafe { libc::poll(&mut p, 1, 10) };
				} else if separate {
					count_.fetch_add(n as u64, Ordering::Relaxed);
				} else {
					at += n as usize;
					if at == data.len() {
						at = 0;
						count_.fetch_add(messages.len() as u64, Ordering::Relaxed);
					}
				}
			}
			drop(messages);
		});
		drop(socket);
		Flooder { stop, count, thread: Some(thread) }
	}

	/// Clients connect without pause.
	fn clients<N: Net>(address: N::Address, how: usize) -> Flooder
	where
		N::Address: Send,
		N::Socket: Send,
	{
		let stop = Arc::new(AtomicBool::new(false));
		let count = Arc::new(AtomicU64::new(0));
		let (stop_, count_) = (stop.clone(), count.clone());
		let runtime = tokio::runtime::Handle::current();
		let thread = std::thread::spawn(move || {
			let _guard = runtime.enter();
			let mut open = std::collections::VecDeque::new();
			while !stop_.load(Ordering::Relaxed) {
				let Ok(socket) = N::connect_now(&address) else {
					std::thread::yield_now();
					continue;
				};
				count_.fetch_add(1, Ordering::Relaxed);
				match how {
					0 => N::abort(socket),
					1 => {
						N::send_raw(&socket, &[0xff; 40]);
						N::abort(socket)
					},
					_ => open.push_back(socket),
				}
				if open.len() > 50 {
					open.pop_front().map(N::abort);
				}
			}
		});
		Flooder { stop, count, thread: Some(thread) }
	}

	/// Something that has to happen while the flood goes on.
	async fn within<T>(&self, what: &str, bound: u64, fut: impl Future<Output = T>) -> Res<T> {
		let start = self.count.load(Ordering::Relaxed);
		let mut fut = pin!(fut);
		let mut poll_again = true;
		loop {
			let mut again = pin!(tokio::task::yield_now());
			let r = std::future::poll_fn(|cx| {
				if poll_again {
					if let Poll::Ready(x) = fut.as_mut().poll(cx) {
						return Poll::Ready(Some(x));
					}
					poll_again = false;
				}
				again.as_mut().poll(cx).map(|()| None)
			})
			.await;
			poll_again = true;
			if let Some(x) = r {
				return Ok(x);
			}
			let n = self.count.load(Ordering::Relaxed) - start;
			check!(n <= bound, "{what} does not complete while {n} messages arrive");
		}
	}
}

impl Drop for Flooder {
	fn drop(&mut self) {
		self.stop.store(true, Ordering::Relaxed);
		if let Some(t) = self.thread.take() {
			let _ = t.join();
		}
	}
}

/// A remote that sends without pause over a real connection.
fn real<N: Net>(ctx: &mut Ctx) -> Res {
	let kind = ctx.choose(3);
	let len = [0, 300, 4000][ctx.choose(3)];
	block_on(async {
		let (a, b) = N::pair().await;
		let header = |n: u32| match kind {
			0 => MessageHeader::stream(0, n as i32),
			1 => MessageHeader::request(n, n as i32),
			_ => MessageHeader::responder_update(n, 1),
		};
		// No more than what is on the way, and some more for slow machines.
		let bound = 16_000_000 / (len as u64 + 28) + 50_000;
		let per_group = (60_000 / (len + 16)).clamp(8, 1000) as u32;
		let endian = Endian::LittleEndian;
		let messages = (0..per_group)
			.map(|n| {
				let m = Msg::new(header(n), body(len, n as u8));
				let frame = mc::pipe::encode_frame(&m, endian);
				if N::NAME == Seqpacket::NAME { frame[4..].to_vec() } else { frame }
			})
			.collect();
		ctx.log(|| format!("a flood of {} with bodies of {len} bytes", ["stream messages", "requests", "updates for unknown requests"][kind]));
		let mut peer = Peer::spawn(N::transport(a, Config::new(4096, 4096, endian)));
		let flood = Flooder::new::<N>(b, messages);
		// The flood starts.
		flood.within("recv_message", u64::MAX, peer.recv_message()).await?.ok();
		for n in 0..2 {
			ctx.step();
			ctx.log(|| format!("round {n}"));
			for _ in 0..200 {
				let r = flood.within("recv_message", bound, peer.recv_message()).await?;
				match (kind, r) {
					(0, Ok(ReceivedMessage::Stream(m))) => check!(m.body.bytes() == body(len, m.header.service_id as u8), "received {m:?}"),
					(1, Ok(ReceivedMessage::Request(_, b))) => check!(b.bytes().len() == len, "received a body of {} bytes", b.bytes().len()),
					(1 | 2, Err(e)) => check!(!e.is_connection_aborted(), "the connection was closed"),
					(_, m) => fail!("received {m:?}"),
				}
			}
		}
		// The other end reads nothing, but this fits.
		ctx.step();
		let r = flood.within("send_stream", bound, peer.send_stream(1, body(3, 1))).await?;
		check!(r.is_ok(), "send_stream fails: {r:?}");
		let r = flood.within("send_request", bound, peer.send_request(1, body(3, 1))).await?;
		check!(r.is_ok(), "send_request fails: {r:?}");
		let (mut read, write) = peer.split();
		write.close();
		let end = async {
			loop {
				match read.recv_message().await {
					Err(e) if e.is_connection_aborted() => break,
					_ => tokio::task::consume_budget().await,
				}
			}
		};
		flood.within("closing the connection", bound, end).await?;
		Ok(())
	})
}

/// A listener that clients connect to without pause.
fn listener<N: Net>(ctx: &mut Ctx) -> Res
where
	N::Address: Send,
	N::Socket: Send,
{
	const BOUND: u64 = 6000;
	let how = ctx.choose(3);
	block_on(async {
		let dir = Scratch::new();
		let config = Config::new(100, 100, Endian::LittleEndian);
		let (mut listener, address) = N::listen(N::address(&dir.0), config).await.expect("bind");
		let server = tokio::spawn(async move {
			let _ = listener
				.run(|mut peer, _| async move {
					loop {
						match peer.recv_message().await {
							Ok(ReceivedMessage::Request(request, _)) => drop(request.send_response(1, vec![1]).await),
							Err(e) if e.is_connection_aborted() => return,
							_ => (),
						}
					}
				})
				.await;
		});
		let (client, _) = must("connecting", N::connect_peer(address.clone(), config)).await?.expect("connect");
		ctx.log(|| format!("clients connect without pause, and {}", ["disconnect at once", "send nonsense and disconnect", "stay for a while"][how]));
		let flood = Flooder::clients::<N>(address.clone(), how);
		for n in 0..6 {
			ctx.step();
			ctx.log(|| format!("request {n}"));
			// The flood is under way.
			while flood.count.load(Ordering::Relaxed) < 40 * (n + 1) {
				tokio::task::yield_now().await;
			}
			let exchange = async {
				let mut sent = ok("send_request", client.send_request(1, vec![2]).await)?;
				ok("recv_response", sent.recv_response().await)?;
				Ok::<(), Fail>(())
			};
			flood.within("a request of a client", BOUND, exchange).await??;
		}
		drop(flood);
		drop(client);
		server.abort();
		let _ = server.await;
		Ok(())
	})
}

pub fn p31(c: &mut Check) {
	let depth = c.bound(3, 4);
	c.run(&format!("a remote that sends without pause, sequences of {depth} operations"), move |ctx: &mut Ctx| remote(ctx, depth));
	c.run("an application that sends without pause", local);
	c.run_opts("a remote that sends without pause over a Unix stream", opts(), real::<Stream>);
	c.run_opts("a remote that sends without pause over a Unix seqpacket connection", opts(), real::<Seqpacket>);
	c.run_opts("a remote that sends without pause over TCP", opts(), real::<Tcp>);
	c.run_opts("clients that connect without pause to a Unix stream listener", opts(), listener::<Stream>);
	c.run_opts("clients that connect without pause to a Unix seqpacket listener", opts(), listener::<Seqpacket>);
	c.run_opts("clients that connect without pause to a TCP listener", opts(), listener::<Tcp>);
}
