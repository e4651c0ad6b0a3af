//! Connections and servers that live forever: nothing accumulates (P26), and nothing happens without a reason (P27).

use super::bytes::body;
use super::listen::{client_config, server_config};
use super::net::*;
use fizyr_rpc::transport::Endian;
use fizyr_rpc::{MessageHeader, Peer, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, ReceivedRequestWriteHandle, SentRequestHandle, StreamBody};
use mc::exec::{Exec, TaskId};
use mc::explore::{Ctx, Options, Res};
use mc::mock::{In, Link, MockTransport, Msg, Write};
use mc::real::*;
use mc::report::Check;
use mc::seq::{drive, Got};
use mc::{check, fail};
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

// ---------------------------------------------------------------------------------------------------------------------
// P26

/// What is in use: blocks and bytes of memory, tasks, file descriptors.
type Usage = [i64; 4];
const USED: [&str; 4] = ["blocks of memory", "bytes of memory", "tasks", "file descriptors"];

fn memory() -> Usage {
	let (blocks, bytes) = mc::alloc::in_use();
	[blocks, bytes, 0, 0]
}

/// The smallest usage in a number of rounds.
///
/// Channels allocate room for many messages at once, so what is in use goes up and down.
async fn least(round: &mut impl AsyncFnMut() -> Res<Usage>, rounds: usize) -> Res<Usage> {
	let mut least = [i64::MAX; 4];
	for _ in 0..rounds {
		let now = round().await?;
		for (x, y) in least.iter_mut().zip(now) {
			*x = y.min(*x);
		}
	}
	Ok(least)
}

fn grows(a: &Usage, b: &Usage) -> bool {
	a.iter().zip(b).any(|(a, b)| b > a)
}

/// Repeat a round until it is clear whether what is in use keeps growing.
async fn no_growth(round: &mut impl AsyncFnMut() -> Res<Usage>) -> Res {
	const N: usize = 34;
	least(round, N).await?;
	let first = least(round, N).await?;
	let second = least(round, N).await?;
	if grows(&first, &second) {
		// It may still be the growth of a container to its final size: look much further.
		let mut before = second;
		for n in [4, 16] {
			least(round, n * N).await?;
			let now = least(round, n * N).await?;
			if !grows(&before, &now) {
				return Ok(());
			}
			before = now;
		}
		let more: Vec<String> = (0..4).filter(|&i| before[i] > first[i]).map(|i| format!("{} more {}", before[i] - first[i], USED[i])).collect();
		fail!("what is in use grows with every round: {} after {} more rounds", more.join(", "), N + 40 * N);
	}
	Ok(())
}

/// The same without anything to wait for.
fn no_growth_now(round: impl FnMut() -> Res) -> Res {
	let mut round = round;
	let mut round = async || {
		round()?;
		Ok(memory())
	};
	let future = pin!(no_growth(&mut round));
	match future.poll(&mut Context::from_waker(std::task::Waker::noop())) {
		Poll::Ready(x) => x,
		Poll::Pending => unreachable!(),
	}
}

const OPS: [&str; 22] = [
	"a request arrives and is received",
	"an update for the received request arrives",
	"receive an update of the received request",
	"answer the received request",
	"send an update for the received request",
	"replace the handle of the received request by a write handle",
	"send a request",
	"send a request that the transport refuses",
	"send a request that is abandoned while it is written",
	"an update for the sent request arrives",
	"the response arrives",
	"receive a message of the sent request",
	"drop the handle of the sent request",
	"make and drop other handles",
	"messages for unknown requests arrive",
	"a request with an ID in use arrives, and a message that the transport rejects",
	"stream messages in both directions",
	"a request arrives and nobody receives it yet",
	"send a stream message that is refused and one that is abandoned",
	"send a request that is abandoned before it is written",
	"send an update, a response and a stream message that are abandoned before they are written",
	"send a request, an update and a stream message that are abandoned and then refused",
];

struct Incoming {
	id: u32,
	handle: Option<ReceivedRequestHandle<StreamBody>>,
	write: Option<ReceivedRequestWriteHandle<StreamBody>>,
	open: bool,
}

struct Outgoing {
	id: u32,
	handle: Option<SentRequestHandle<StreamBody>>,
	open: bool,
}

struct Endless {
	exec: Exec,
	link: Link,
	task: TaskId,
	read: Option<PeerReadHandle<StreamBody>>,
	write: PeerWriteHandle<StreamBody>,
	next_id: u32,
	incoming: Vec<Incoming>,
	outgoing: Vec<Outgoing>,
}

impl Endless {
	fn new(reading: bool) -> Self {
		let link = Link::new();
		let (peer, handle) = Peer::<MockTransport>::new(link.transport());
		let mut exec = Exec::new();
		let task = exec.spawn("peer", peer.run());
		let (read, write) = handle.split();
		Self { exec, link, task, read: reading.then_some(read), write, next_id: 1, incoming: Vec::new(), outgoing: Vec::new() }
	}

	/// Open requests in both directions that stay open for ever.
	fn stand(&mut self) -> Res<(SentRequestHandle<StreamBody>, Option<ReceivedRequestHandle<StreamBody>>)> {
		let Got::Ready(Ok(sent)) = drive(&mut self.exec, self.write.send_request(1, vec![1]))? else { fail!("a request could not be sent") };
		self.arrive(MessageHeader::responder_update(sent.request_id(), 1))?;
		let mut received = None;
		if self.read.is_some() {
			self.arrive(MessageHeader::request(0x7000_0000, 1))?;
			self.receive()?;
			received = self.incoming.pop().and_then(|r| r.handle);
			check!(received.is_some(), "a request could not be received");
			self.arrive(MessageHeader::requester_update(0x7000_0000, 1))?;
		}
		Ok((sent, received))
	}

	fn arrive(&mut self, header: MessageHeader) -> Res {
		self.link.push(In::Msg(Msg::new(header, vec![1, 2, 3])));
		self.rest()
	}

	fn rest(&mut self) -> Res {
		check!(self.exec.settle(10_000), "livelock: tasks never come to rest");
		Ok(())
	}

	/// Receive one message of the peer.
	fn receive(&mut self) -> Res<bool> {
		let Some(read) = &mut self.read else { return Ok(false) };
		match drive(&mut self.exec, read.recv_message())? {
			Got::Pending => Ok(false),
			Got::Ready(Ok(ReceivedMessage::Request(handle, _))) => {
				let id = handle.request_id();
				self.incoming.push(Incoming { id, handle: Some(handle), write: None, open: true });
				Ok(true)
			},
			Got::Ready(Ok(ReceivedMessage::Stream(_))) => Ok(true),
			Got::Ready(Err(e)) => {
				check!(!self.exec.is_done(self.task), "the peer stopped: {e}");
				Ok(true)
			},
		}
	}

	/// Send something that waits in the transport, and abandon it.
	fn abandon<T>(&mut self, what: impl FnOnce(&PeerWriteHandle<StreamBody>) -> Pin<Box<dyn Future<Output = T> + '_>>) -> Res {
		self.link.set_credit(Some(0));
		{
			let mut future = what(&self.write);
			let mut cx = Context::from_waker(std::task::Waker::noop());
			for _ in 0..2 {
				if future.as_mut().poll(&mut cx).is_ready() {
					break;
				}
				check!(self.exec.settle(10_000), "livelock: tasks never come to rest");
			}
		}
		self.link.set_credit(None);
		self.rest()
	}

	/// Start something and abandon it before the peer gets to see it.
	fn regret<T>(&self, future: impl Future<Output = T>) {
		let mut future = pin!(future);
		let _ = future.as_mut().poll(&mut Context::from_waker(std::task::Waker::noop()));
	}

	fn sent_id(&mut self) -> Option<u32> {
		self.link.with(|s| s.wire.last().filter(|m| m.header.message_type.is_request()).map(|m| m.header.request_id))
	}

	fn step(&mut self, op: usize) -> Res {
		let last = self.incoming.len().wrapping_sub(1);
		let exec = &mut self.exec;
		match op {
			0 | 17 => {
				let id = self.next_id;
				self.next_id = self.next_id.wrapping_add(1);
				self.arrive(MessageHeader::request(id, 5))?;
				if op == 0 {
					self.receive()?;
				}
			},
			1 => {
				if let Some(id) = self.incoming.get(last).map(|r| r.id) {
					self.arrive(MessageHeader::requester_update(id, 6))?;
				}
			},
			2 => {
				if let Some(h) = self.incoming.get_mut(last).and_then(|r| r.handle.as_mut()) {
					drop(drive(exec, h.recv_update())?);
				}
			},
			3 => {
				if let Some(r) = self.incoming.get_mut(last) {
					if let Some(h) = &r.handle {
						drop(drive(exec, h.send_response(7, vec![1]))?);
					} else if let Some(h) = &r.write {
						drop(drive(exec, h.send_response(7, vec![1]))?);
					}
					r.open = false;
				}
			},
			4 => {
				if let Some(h) = self.incoming.get(last).and_then(|r| r.handle.as_ref()) {
					drop(drive(exec, h.send_update(8, vec![1]))?);
				}
			},
			5 => {
				if let Some(r) = self.incoming.get_mut(last) {
					if let Some(h) = r.handle.take() {
						r.write = Some(h.write_handle());
					}
				}
			},
			6 | 7 => {
				if op == 7 {
					self.link.plan(Write::Refuse);
				}
				match drive(exec, self.write.send_request(9, vec![1, 2]))? {
					Got::Ready(Ok(h)) => self.outgoing.push(Outgoing { id: h.request_id(), handle: Some(h), open: true }),
					Got::Ready(Err(e)) => check!(op == 7, "sending a request failed: {e}"),
					Got::Pending => fail!("sending a request does not complete"),
				}
			},
			8 => {
				self.link.with(|s| s.wire.clear());
				self.abandon(|w| Box::pin(w.send_request(10, vec![1, 2])))?;
				if let Some(id) = self.sent_id() {
					self.outgoing.push(Outgoing { id, handle: None, open: true });
				}
			},
			9 => {
				if let Some(id) = self.outgoing.last().map(|r| r.id) {
					self.arrive(MessageHeader::responder_update(id, 11))?;
				}
			},
			10 => {
				if let Some(r) = self.outgoing.last_mut() {
					r.open = false;
					let id = r.id;
					self.arrive(MessageHeader::response(id, 12))?;
				}
			},
			11 => {
				if let Some(h) = self.outgoing.last_mut().and_then(|r| r.handle.as_mut()) {
					drop(drive(exec, h.recv_response())?);
					drop(drive(exec, h.recv_update())?);
				}
			},
			12 => {
				if let Some(r) = self.outgoing.last_mut() {
					r.handle = None;
				}
			},
			13 => {
				let other = self.write.clone();
				let closers = (other.close_handle(), self.read.as_ref().map(|r| r.close_handle()));
				let a = self.outgoing.last().and_then(|r| r.handle.as_ref()).map(|h| h.write_handle());
				let b = self.incoming.get(last).and_then(|r| r.handle.as_ref()).map(|h| h.write_handle());
				drop(drive(exec, other.send_stream(1, vec![]))?);
				drop((a, b, closers, other));
			},
			14 => {
				self.arrive(MessageHeader::response(0x4000_0000 + self.next_id, 1))?;
				self.arrive(MessageHeader::responder_update(0x4000_0000 + self.next_id, 1))?;
				self.arrive(MessageHeader::requester_update(0x4000_0000 + self.next_id, 1))?;
				self.next_id = self.next_id.wrapping_add(1);
			},
			15 => {
				if let Some(id) = self.incoming.iter().find(|r| r.open && (r.handle.is_some() || r.write.is_some())).map(|r| r.id) {
					self.arrive(MessageHeader::request(id, 5))?;
				}
				self.link.push(In::Refused);
			},
			16 => {
				self.arrive(MessageHeader::stream(0, 1))?;
				drop(drive(&mut self.exec, self.write.send_stream(2, vec![5; 9]))?);
			},
			19 => {
				self.link.with(|s| s.wire.clear());
				self.regret(self.write.send_request(10, vec![1, 2]));
				self.rest()?;
				if let Some(id) = self.sent_id() {
					self.outgoing.push(Outgoing { id, handle: None, open: true });
				}
			},
			20 => {
				if let Some(h) = self.outgoing.last().and_then(|r| r.handle.as_ref()) {
					self.regret(h.send_update(8, vec![1]));
				}
				if let Some(r) = self.incoming.get(last) {
					let write = r.handle.as_ref().map(|h| h.write_handle()).or(r.write.clone());
					if let Some(h) = write.filter(|_| r.open) {
						self.link.with(|s| s.wire.clear());
						self.regret(h.send_update(8, vec![1]));
						self.regret(h.send_response(7, vec![1]));
						drop(h);
						self.rest()?;
						// It is not known whether the response is still sent.
						let answered = self.link.with(|s| s.wire.iter().any(|m| m.header.message_type.is_response()));
						if answered {
							self.incoming[last].open = false;
						}
					}
				}
				self.regret(self.write.send_stream(4, vec![1, 2]));
			},
			21 => {
				self.regret(self.write.send_request(10, vec![1, 2]));
				self.link.plan(Write::Refuse);
				self.rest()?;
				if let Some(h) = self.outgoing.last().and_then(|r| r.handle.as_ref()) {
					self.regret(h.send_update(8, vec![1]));
					self.link.plan(Write::Refuse);
				}
				self.rest()?;
				self.regret(self.write.send_stream(4, vec![1, 2]));
				self.link.plan(Write::Refuse);
				self.rest()?;
				self.link.with(|s| s.plan.clear());
			},
			_ => {
				self.link.plan(Write::Refuse);
				drop(drive(exec, self.write.send_stream(3, vec![5; 9]))?);
				self.abandon(|w| Box::pin(w.send_stream(4, vec![1, 2])))?;
			},
		}
		self.rest()
	}

	/// Bring everything to an end: all requests are answered, all messages received, all handles dropped.
	fn finish(&mut self, order: usize) -> Res {
		if order == 1 {
			for r in &mut self.outgoing {
				r.handle = None;
			}
			self.rest()?;
		}
		for i in 0..self.outgoing.len() {
			if self.outgoing[i].open {
				let id = self.outgoing[i].id;
				self.arrive(MessageHeader::response(id, 13))?;
			}
			if let Some(mut h) = self.outgoing[i].handle.take() {
				if order == 0 {
					while let Got::Ready(Some(_)) = drive(&mut self.exec, h.recv_update())? {}
					drop(drive(&mut self.exec, h.recv_response())?);
				}
			}
		}
		self.outgoing = Vec::new();
		let mut received = 0;
		while self.receive()? {
			received += 1;
			check!(received < 10_000, "there are always more messages");
		}
		for r in std::mem::take(&mut self.incoming) {
			if r.open {
				let result = match (&r.handle, &r.write) {
					(Some(h), _) => drive(&mut self.exec, h.send_response(14, vec![1]))?,
					(_, Some(h)) => drive(&mut self.exec, h.send_response(14, vec![1]))?,
					_ => unreachable!(),
				};
				check!(matches!(result, Got::Ready(Ok(()))), "a request could not be answered");
			}
			drop(r);
			self.rest()?;
		}
		self.rest()?;
		check!(!self.exec.is_done(self.task), "the peer stopped");
		self.link.with(|s| {
			if let Some(m) = s.misuse.take() {
				fail!("{m}");
			}
			s.wire = Vec::new();
			s.history = Vec::new();
			s.incoming = Default::default();
			s.plan = Default::default();
			Ok(())
		})
	}
}

pub fn p26(c: &mut Check) {
	let depth = c.bound(3, 4);
	c.run(&format!("a connection, every sequence of {depth} operations repeated"), |ctx: &mut Ctx| {
		let reading = ctx.choose(2) == 0;
		let order = ctx.choose(2);
		let stand = ctx.choose(2) == 1;
		let ops: Vec<usize> = (0..depth).map(|_| ctx.choose(OPS.len())).collect();
		ctx.step();
		ctx.log(|| format!("each round: {:?}, then finish everything in order {order}; the read handle is {}, other open requests: {stand}", ops.iter().map(|&x| OPS[x]).collect::<Vec<_>>(), if reading { "kept" } else { "dropped" }));
		let mut world = Endless::new(reading);
		let mut rounds = 0u32;
		let _standing = if stand { Some(world.stand()?) } else { None };
		let result = no_growth_now(|| {
			rounds += 1;
			for &op in &ops {
				world.step(op)?;
			}
			world.finish(order)
		});
		ctx.observe(&[reading as u8, order as u8, stand as u8, rounds as u8]);
		result
	});
	connections::<Stream>(c);
	connections::<Seqpacket>(c);
	connections::<Tcp>(c);
	servers::<Stream>(c);
	servers::<Seqpacket>(c);
	servers::<Tcp>(c);
	c.assumptions.push("Growth is judged after 34 rounds, and confirmed by up to 1400 more.".into());
}

fn tasks() -> i64 {
	tokio::runtime::Handle::current().metrics().num_alive_tasks() as i64
}

fn descriptors() -> i64 {
	std::fs::read_dir("/proc/self/fd").map_or(0, |x| x.count() as i64)
}

type Ends<B> = (PeerReadHandle<B>, PeerWriteHandle<B>);

async fn next<B: Bytes>(read: &mut PeerReadHandle<B>) -> Res<ReceivedMessage<B>> {
	match must("recv_message", read.recv_message()).await? {
		Ok(x) => Ok(x),
		Err(e) => fail!("recv_message failed: {e}"),
	}
}

async fn next_request<B: Bytes>(read: &mut PeerReadHandle<B>) -> Res<ReceivedRequestHandle<B>> {
	match next(read).await? {
		ReceivedMessage::Request(x, _) => Ok(x),
		x => fail!("received {x:?} instead of a request"),
	}
}

const TALKS: [&str; 11] = [
	"a stream message",
	"a request, its response",
	"a request, an update in each direction, its response",
	"a request whose handle is dropped before the response",
	"a request with unread updates and an error response",
	"messages that are too large",
	"receives that are cancelled",
	"requests in both directions",
	"a second connection",
	"messages with file descriptors",
	"messages with too many file descriptors",
];

/// A conversation that leaves nothing open.
async fn talk<N: Net>(kind: usize, a: &mut Ends<N::B>, b: &mut Ends<N::B>) -> Res {
	match kind {
		0 => {
			send_ok("sending", a.1.send_stream(1, data::<N::B>(60, 1))).await?;
			next(&mut b.0).await?;
		},
		1 => {
			let mut sent = send_ok("sending", a.1.send_request(1, data::<N::B>(3, 1))).await?;
			let received = next_request(&mut b.0).await?;
			send_ok("answering", received.send_response(1, data::<N::B>(7, 1))).await?;
			send_ok("receiving the response", sent.recv_response()).await?;
		},
		2 => {
			let mut sent = send_ok("sending", a.1.send_request(1, data::<N::B>(3, 1))).await?;
			let mut received = next_request(&mut b.0).await?;
			send_ok("sending an update", sent.send_update(2, data::<N::B>(0, 1))).await?;
			send_ok("sending an update", received.send_update(3, data::<N::B>(9, 1))).await?;
			check!(must("receiving an update", sent.recv_update()).await?.is_some(), "no update");
			check!(must("receiving an update", received.recv_update()).await?.is_some(), "no update");
			send_ok("answering", received.send_response(1, data::<N::B>(7, 1))).await?;
			send_ok("receiving the response", sent.recv_response()).await?;
		},
		3 => {
			let sent = send_ok("sending", a.1.send_request(1, data::<N::B>(3, 1))).await?;
			let received = next_request(&mut b.0).await?;
			drop(sent);
			send_ok("answering", received.send_response(1, data::<N::B>(7, 1))).await?;
		},
		4 => {
			let sent = send_ok("sending", a.1.send_request(1, data::<N::B>(3, 1))).await?;
			let received = next_request(&mut b.0).await?;
			send_ok("sending an update", sent.send_update(2, data::<N::B>(0, 1))).await?;
			send_ok("sending an update", received.send_update(3, data::<N::B>(9, 1))).await?;
			settle().await;
			send_ok("answering", received.send_error_response("error")).await?;
		},
		5 => {
			check!(must("sending", a.1.send_stream(1, data::<N::B>(101, 1))).await?.is_err(), "a message that is too large was sent");
			check!(must("sending", a.1.send_request(1, data::<N::B>(200, 1))).await?.is_err(), "a message that is too large was sent");
			if N::NAME == Seqpacket::NAME {
				send_ok("sending", a.1.send_stream(1, data::<N::B>(90, 1))).await?;
				check!(must("recv_message", b.0.recv_message()).await?.is_err(), "a message that is too large was received");
			}
		},
		6 => {
			check!(try_now(pin!(a.0.recv_message())).await.is_none(), "received something");
			let mut sent = send_ok("sending", a.1.send_request(1, data::<N::B>(3, 1))).await?;
			check!(try_now(pin!(sent.recv_response())).await.is_none(), "received something");
			let mut received = next_request(&mut b.0).await?;
			check!(try_now(pin!(received.recv_update())).await.is_none(), "received something");
			send_ok("answering", received.send_response(1, data::<N::B>(7, 1))).await?;
			drop(try_now(pin!(sent.recv_response())).await);
		},
		7 => {
			let mut x = send_ok("sending", a.1.send_request(1, data::<N::B>(3, 1))).await?;
			let mut y = send_ok("sending", b.1.send_request(1, data::<N::B>(3, 1))).await?;
			let to_b = next_request(&mut b.0).await?;
			let to_a = next_request(&mut a.0).await?;
			send_ok("answering", to_b.send_response(1, data::<N::B>(7, 1))).await?;
			send_ok("answering", to_a.send_response(1, data::<N::B>(7, 1))).await?;
			send_ok("receiving the response", x.recv_response()).await?;
			send_ok("receiving the response", y.recv_response()).await?;
		},
		9 => {
			let with = |n| N::B::with_fds(body(5, 1), n).unwrap();
			send_ok("sending", a.1.send_stream(1, with(2))).await?;
			next(&mut b.0).await?;
			let mut sent = send_ok("sending", a.1.send_request(1, with(1))).await?;
			let received = next_request(&mut b.0).await?;
			send_ok("sending an update", sent.send_update(2, with(2))).await?;
			send_ok("sending an update", received.send_update(3, with(1))).await?;
			settle().await;
			check!(must("receiving an update", sent.recv_update()).await?.is_some(), "no update");
			send_ok("answering", received.send_response(1, with(2))).await?;
			send_ok("receiving the response", sent.recv_response()).await?;
		},
		10 => {
			let with = |n| N::B::with_fds(body(5, 1), n).unwrap();
			check!(must("sending", a.1.send_stream(1, with(4))).await?.is_err(), "a message with too many file descriptors was sent");
			check!(must("sending", a.1.send_request(1, with(5))).await?.is_err(), "a message with too many file descriptors was sent");
			send_ok("sending", a.1.send_stream(1, with(3))).await?;
			check!(must("recv_message", b.0.recv_message()).await?.is_err(), "a message with too many file descriptors was received");
		},
		_ => {
			let (x, y) = peers::<N>(client_config(), client_config()).await;
			let _open = send_ok("sending", x.send_request(1, data::<N::B>(3, 1))).await?;
			send_ok("sending", y.send_stream(1, data::<N::B>(3, 1))).await?;
			settle().await;
			drop(y);
		},
	}
	Ok(())
}

fn connections<N: Net>(c: &mut Check) {
	let depth = c.bound(2, 3);
	c.run_opts(&format!("{}: every sequence of {depth} conversations repeated", N::NAME), Options { threads: 1, ..opts() }, |ctx: &mut Ctx| {
		let talks = if N::B::with_fds(Vec::new(), 0).is_some() { TALKS.len() } else { TALKS.len() - 2 };
		let kinds: Vec<usize> = (0..depth).map(|_| ctx.choose(talks)).collect();
		let twice = ctx.choose(2) == 1;
		let stand = ctx.choose(2) == 1;
		block_on(async {
			ctx.step();
			ctx.log(|| format!("each round: {:?}, the other way around too: {twice}, other open requests: {stand}", kinds.iter().map(|&x| TALKS[x]).collect::<Vec<_>>()));
			let config = Config::new(64, 100, server_config().endian);
			let (a, b) = peers::<N>(config, config).await;
			let (mut a, mut b) = (a.split(), b.split());
			let mut standing = Vec::new();
			if stand {
				standing.push((send_ok("sending a request", a.1.send_request(1, data::<N::B>(3, 1))).await?, next_request(&mut b.0).await?));
				standing.push((send_ok("sending a request", b.1.send_request(1, data::<N::B>(3, 1))).await?, next_request(&mut a.0).await?));
			}
			settle().await;
			let peers = tasks();
			let result = no_growth(&mut async || {
				for &kind in &kinds {
					talk::<N>(kind, &mut a, &mut b).await?;
					if twice {
						talk::<N>(kind, &mut b, &mut a).await?;
					}
				}
				settle().await;
				until("the tasks of a connection that ended are still there", || tasks() <= peers).await?;
				// Errors and messages that are left.
				while try_now(pin!(a.0.recv_message())).await.is_some() {}
				while try_now(pin!(b.0.recv_message())).await.is_some() {}
				let m = memory();
				Ok([m[0], m[1], tasks(), descriptors()])
			})
			.await;
			ctx.observe(&kinds.iter().map(|x| *x as u8).collect::<Vec<_>>());
			result
		})
	});
}

const VISITS: [&str; 6] = [
	"a client connects, exchanges messages and leaves",
	"a client connects and leaves at once",
	"a client connects, sends garbage and stays until it is disconnected",
	"a client connects, sends a request and leaves without waiting",
	"a client is disconnected by the server",
	"two clients at the same time",
];

async fn visit<N: Net>(kind: usize, address: &N::Address) -> Res {
	let connect = || N::connect_now(address).map(|s| N::transport(s, client_config())).map_err(|e| format!("connecting failed: {e}"));
	match kind {
		0 | 5 => {
			let mut a = Peer::spawn(connect()?);
			let b = if kind == 5 { Some(Peer::spawn(connect()?)) } else { None };
			let mut sent = send_ok("sending", a.send_request(1, data::<N::B>(3, 1))).await?;
			send_ok("receiving the response", sent.recv_response()).await?;
			if let Some(b) = b {
				let mut sent = send_ok("sending", b.send_request(1, data::<N::B>(3, 1))).await?;
				send_ok("receiving the response", sent.recv_response()).await?;
			}
			drop(a.close_handle());
			drop(try_now(pin!(a.recv_message())).await);
		},
		1 => N::abort(N::connect_now(address).map_err(|e| format!("connecting failed: {e}"))?),
		2 => {
			let s = N::connect_now(address).map_err(|e| format!("connecting failed: {e}"))?;
			N::send_raw(&s, &[0xff; 40]);
			let mut peer = Peer::spawn(N::transport(s, client_config()));
			check!(must("recv_message", peer.recv_message()).await?.is_err(), "received something");
		},
		3 => {
			let peer = Peer::spawn(connect()?);
			send_ok("sending", peer.send_request(1, data::<N::B>(3, 1))).await?;
		},
		_ => {
			let mut peer = Peer::spawn(connect()?);
			send_ok("sending", peer.send_stream(9, data::<N::B>(3, 1))).await?;
			check!(must("recv_message", peer.recv_message()).await?.is_err(), "received something");
		},
	}
	Ok(())
}

fn servers<N: Net>(c: &mut Check) {
	let depth = c.bound(1, 2);
	c.run_opts(&format!("{}: a server, every sequence of {depth} visits repeated", N::NAME), Options { threads: 1, ..opts() }, |ctx: &mut Ctx| {
		let kinds: Vec<usize> = (0..depth).map(|_| ctx.choose(VISITS.len())).collect();
		let own_loop = ctx.choose(2) == 1;
		let residents = ctx.choose(3);
		block_on(async {
			ctx.step();
			ctx.log(|| format!("each round: {:?}, with an accept loop of its own: {own_loop}, other clients that stay: {residents}", kinds.iter().map(|&x| VISITS[x]).collect::<Vec<_>>()));
			let dir = Scratch::new();
			let (mut listener, address) = N::listen(N::address(&dir.0), server_config()).await.expect("bind");
			let handler = |mut peer: fizyr_rpc::PeerHandle<N::B>| async move {
				loop {
					match peer.recv_message().await {
						Ok(ReceivedMessage::Request(request, b)) => {
							let _ = request.send_response(1, b).await;
						},
						Ok(ReceivedMessage::Stream(m)) if m.header.service_id == 9 => return,
						Ok(ReceivedMessage::Stream(_)) => (),
						Err(_) => return,
					}
				}
			};
			let mut server: Pin<Box<dyn Future<Output = std::io::Result<()>>>> = Box::pin(async move {
				if own_loop {
					loop {
						let (peer, _) = listener.accept().await?;
						tokio::spawn(handler(peer));
					}
				} else {
					listener.run(|peer, _| handler(peer)).await
				}
			});
			let mut stay = Vec::new();
			let rounds = async {
				for _ in 0..residents {
					let peer = Peer::spawn(N::transport(N::connect_now(&address).map_err(|e| format!("connecting failed: {e}"))?, client_config()));
					let mut sent = send_ok("sending", peer.send_request(1, data::<N::B>(3, 1))).await?;
					send_ok("receiving the response", sent.recv_response()).await?;
					stay.push(peer);
				}
				settle().await;
				let before = tasks();
				no_growth(&mut async || {
					for &kind in &kinds {
						visit::<N>(kind, &address).await?;
					}
					settle().await;
					until("the tasks of clients that left are still there", || tasks() <= before).await?;
					let m = memory();
					Ok([m[0], m[1], tasks(), descriptors()])
				})
				.await
			};
			let mut rounds = pin!(rounds);
			// The server is not a task of its own, so that its memory counts.
			let result = std::future::poll_fn(|cx| {
				if let Poll::Ready(r) = server.as_mut().poll(cx) {
					return Poll::Ready(Err(format!("the server ended: {r:?}").into()));
				}
				rounds.as_mut().poll(cx)
			})
			.await;
			ctx.observe(&kinds.iter().map(|x| *x as u8).collect::<Vec<_>>());
			result
		})
	});
}

// ---------------------------------------------------------------------------------------------------------------------
// P27

/// Counts how often something is polled.
struct Counted<F> {
	inner: Pin<Box<F>>,
	polls: Arc<AtomicU64>,
}

impl<F: Future> Future for Counted<F> {
	type Output = F::Output;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<F::Output> {
		self.polls.fetch_add(1, Ordering::Relaxed);
		self.inner.as_mut().poll(cx)
	}
}

/// There must be a time in which nothing is polled.
async fn comes_to_rest(polls: &AtomicU64, when: &str) -> Res {
	for i in 0..100 {
		settle().await;
		let before = polls.load(Ordering::Relaxed);
		settle().await;
		if i > 2 {
			tokio::time::sleep(Duration::from_millis(1)).await;
		}
		settle().await;
		if polls.load(Ordering::Relaxed) == before {
			return Ok(());
		}
	}
	fail!("busy waiting: nothing happens {when}, but something is polled again and again")
}

const EVENTS: [&str; 13] = [
	"a message arrives",
	"a request arrives",
	"a message arrives in part",
	"send a message",
	"send a request",
	"receive",
	"send more than fits until it has to wait",
	"the remote takes everything",
	"drop the read handle",
	"drop the write handle",
	"the connection ends",
	"wait for messages",
	"updates for open requests and a response arrive",
];

fn idle<N: Net>(c: &mut Check) {
	let depth = c.bound(4, 5);
	c.run_opts(&format!("{}: sequences of {depth} events", N::NAME), opts(), |ctx: &mut Ctx| {
		let stream = N::NAME != Seqpacket::NAME;
		block_on(async {
			let (a, b) = N::pair().await;
			let config = Config::new(1 << 17, 1 << 17, Endian::LittleEndian);
			let (peer, handle) = Peer::<N::T>::new(N::transport(a, config));
			let polls = Arc::new(AtomicU64::new(0));
			let count = |polls: &Arc<AtomicU64>| polls.clone();
			tokio::spawn(Counted { inner: Box::pin(peer.run()), polls: count(&polls) });
			let (read, write) = handle.split();
			let (mut read, mut write) = (Some(read), Some(write));
			let mut kept = Vec::new();
			let mut requests = Vec::new();
			let mut ids = 1;
			let mut torn = false;
			let mut sent = Vec::new();
			let mut waiting: Vec<tokio::task::JoinHandle<()>> = Vec::new();
			let frame = |kind: u32, id: u32, len: usize| {
				let mut x = Vec::new();
				if stream {
					x.extend((12 + len as u32).to_le_bytes());
				}
				x.extend(kind.to_le_bytes());
				x.extend(id.to_le_bytes());
				x.extend(1i32.to_le_bytes());
				x.extend(body(len, 1));
				x
			};
			comes_to_rest(&polls, "on a new connection").await?;
			for _ in 0..depth {
				ctx.step();
				let op = ctx.choose(EVENTS.len());
				ctx.log(|| EVENTS[op].into());
				match op {
					// A frame after a part of another one is garbage, which is fine too.
					0 => N::send_raw(&b, &frame(4, 0, 30)),
					1 => {
						N::send_raw(&b, &frame(0, ids, 5));
						ids += 1;
					},
					2 => {
						let f = frame(4, 0, 30);
						N::send_raw(&b, &f[..if torn { 20 } else { 9 }]);
						torn = true;
					},
					3 => {
						if let Some(w) = &write {
							let _ = try_now(pin!(w.send_stream(1, data::<N::B>(9, 1)))).await;
						}
					},
					4 => {
						if let Some(w) = &write {
							if let Some(Ok(x)) = try_now(pin!(w.send_request(requests.len() as i32 + 2, data::<N::B>(9, 1)))).await {
								sent.push(x.request_id());
								requests.push(x);
							}
						}
					},
					5 => {
						if let Some(r) = &mut read {
							let got = try_now(pin!(r.recv_message())).await;
							ctx.observe(&[got.is_some() as u8]);
							if let Some(Ok(ReceivedMessage::Request(request, _))) = got {
								kept.push(request);
							}
						}
					},
					6 => {
						if let Some(w) = write.clone() {
							let future = async move { while w.send_stream(1, data::<N::B>(100_000, 1)).await.is_ok() {} };
							waiting.push(tokio::spawn(Counted { inner: Box::pin(future), polls: count(&polls) }));
						}
					},
					7 => {
						for _ in 0..if waiting.is_empty() { 1 } else { 3 } {
							let mut buffer = vec![0u8; 1 << 18];
							while unsafe { libc::recv(N::fd(&b), buffer.as_mut_ptr() as *mut _, buffer.len(), libc::MSG_DONTWAIT) } > 0 {}
							settle().await;
						}
					},
					8 => read = None,
					9 => write = None,
					10 => unsafe {
						libc::shutdown(N::fd(&b), libc::SHUT_WR);
					},
					12 => {
						N::send_raw(&b, &frame(2, ids - 1, 3));
						for (i, id) in std::mem::take(&mut sent).into_iter().enumerate() {
							N::send_raw(&b, &frame(3, id, 0));
							if i % 2 == 0 {
								N::send_raw(&b, &frame(1, id, 7));
							}
						}
					},
					_ => {
						if let Some(mut r) = read.take() {
							let future = async move { while r.recv_message().await.is_ok() {} };
							waiting.push(tokio::spawn(Counted { inner: Box::pin(future), polls: count(&polls) }));
						}
						for mut x in std::mem::take(&mut requests) {
							let future = async move {
								while x.recv_update().await.is_some() {}
								let _ = x.recv_response().await;
							};
							waiting.push(tokio::spawn(Counted { inner: Box::pin(future), polls: count(&polls) }));
						}
						for mut x in std::mem::take(&mut kept) {
							let future = async move { while x.recv_update().await.is_some() {} };
							waiting.push(tokio::spawn(Counted { inner: Box::pin(future), polls: count(&polls) }));
						}
					},
				}
				comes_to_rest(&polls, &format!("after this: {}", EVENTS[op])).await?;
			}
			for w in waiting {
				w.abort();
			}
			Ok(())
		})
	});
	c.run_opts(&format!("{}: a listener", N::NAME), opts(), |ctx: &mut Ctx| {
		let run = ctx.choose(2) == 1;
		block_on(async {
			let dir = Scratch::new();
			let (mut listener, address) = N::listen(N::address(&dir.0), server_config()).await.expect("bind");
			let polls = Arc::new(AtomicU64::new(0));
			let counter = polls.clone();
			let inner = polls.clone();
			let server = async move {
				let mut handler = move |mut peer: fizyr_rpc::PeerHandle<N::B>| Counted { inner: Box::pin(async move { while peer.recv_message().await.is_ok() {} }), polls: inner.clone() };
				if run {
					let _ = listener.run(move |peer, _| handler(peer)).await;
				} else {
					while let Ok((peer, _)) = listener.accept().await {
						tokio::spawn(handler(peer));
					}
				}
			};
			let mut server = pin!(Counted { inner: Box::pin(server), polls: counter });
			let mut sockets = Vec::new();
			for _ in 0..4 {
				ctx.step();
				let op = ctx.choose(4);
				ctx.log(|| ["a client connects", "a client connects and is gone at once", "a client leaves", "a client sends garbage"][op].into());
				match op {
					0 => sockets.push(N::connect_now(&address).map_err(|e| format!("connecting failed: {e}"))?),
					1 => N::abort(N::connect_now(&address).map_err(|e| format!("connecting failed: {e}"))?),
					2 => drop(sockets.pop()),
					_ => {
						if let Some(s) = sockets.last() {
							N::send_raw(s, &[0xff; 40]);
						}
					},
				}
				ctx.observe(&[op as u8]);
				let rest = comes_to_rest(&polls, "at a listener");
				let mut rest = pin!(rest);
				// The server is polled only when it is woken: it has a waker of its own.
				let woken = Arc::new(Woken::default());
				std::future::poll_fn(|cx| {
					woken.set(cx.waker());
					if woken.take() {
						let waker = std::task::Waker::from(woken.clone());
						if server.as_mut().poll(&mut Context::from_waker(&waker)).is_ready() {
							return Poll::Ready(Err("the server ended".into()));
						}
					}
					rest.as_mut().poll(cx)
				})
				.await?;
			}
			Ok(())
		})
	});
}

/// A waker that remembers that it was used.
struct Woken(Mutex<(bool, Option<std::task::Waker>)>);

impl Default for Woken {
	fn default() -> Self {
		Woken(Mutex::new((true, None)))
	}
}

impl Woken {
	fn set(&self, waker: &std::task::Waker) {
		self.0.lock().unwrap().1 = Some(waker.clone());
	}
	fn take(&self) -> bool {
		std::mem::take(&mut self.0.lock().unwrap().0)
	}
}

impl std::task::Wake for Woken {
	fn wake(self: Arc<Self>) {
		let mut x = self.0.lock().unwrap();
		x.0 = true;
		if let Some(w) = &x.1 {
			w.wake_by_ref()
		}
	}
}

pub fn p27(c: &mut Check) {
	idle::<Stream>(c);
	idle::<Seqpacket>(c);
	idle::<Tcp>(c);
	super::wrappers::at_rest(c);
}
