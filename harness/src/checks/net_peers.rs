//! Two peers over every built-in transport.

use super::bytes::{body, ENDIANS};
use super::net::*;
use fizyr_rpc::transport::Endian;
use fizyr_rpc::{MessageHeader, MessageType, Peer, PeerHandle, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, SentRequestHandle};
use mc::explore::{Ctx, Res};
use mc::mock::Msg;
use mc::pipe::{encode_frame, encode_header};
use mc::real::*;
use mc::report::Check;
use mc::{check, fail};
use std::collections::VecDeque;
use std::os::fd::RawFd;
use std::pin::pin;

#[derive(Debug, Clone, PartialEq)]
struct Item {
	service: i32,
	body: Vec<u8>,
	response: bool,
}

#[derive(Debug, Clone, PartialEq)]
enum Incoming {
	Stream(Item),
	Request(usize, Item),
}

/// A request and the messages for it that were sent but not received yet.
struct Request {
	owner: usize,
	id: u32,
	to_owner: VecDeque<Item>,
	to_other: VecDeque<Item>,
	responded: bool,
	taken: bool,
}

struct Side<B> {
	read: Option<PeerReadHandle<B>>,
	write: Option<PeerWriteHandle<B>>,
	inbox: VecDeque<Incoming>,
}

struct World<B> {
	sides: Vec<Side<B>>,
	requests: Vec<Request>,
	sent: Vec<Option<SentRequestHandle<B>>>,
	received: Vec<Option<ReceivedRequestHandle<B>>>,
	counter: usize,
}

const LENGTHS: [usize; 8] = [0, 3, 4096, 1, 17, 4095, 2, 255];

impl<B: Bytes> World<B> {
	fn new(a: PeerHandle<B>, b: PeerHandle<B>) -> Self {
		let sides = [a, b].into_iter().map(|x| {
			let (read, write) = x.split();
			Side { read: Some(read), write: Some(write), inbox: VecDeque::new() }
		});
		World { sides: sides.collect(), requests: vec![], sent: vec![], received: vec![], counter: 0 }
	}

	fn item(&mut self) -> (Item, B) {
		let n = self.counter;
		self.counter += 1;
		let service = [5, -7, i32::MAX, 0, i32::MIN, 1, 9, -2][n % 8];
		let b = body(LENGTHS[n % 8], n as u8);
		(Item { service, body: b.clone(), response: false }, B::from(b))
	}

	/// Receive on one side, where `expected` tells what has to come.
	async fn recv_message(&mut self, x: usize, ended: bool) -> Res {
		let side = &mut self.sides[x];
		let read = side.read.as_mut().unwrap();
		let Some(expected) = side.inbox.pop_front() else {
			if ended {
				match must("recv_message after the end", read.recv_message()).await? {
					Ok(m) => fail!("received {m:?} after the end"),
					Err(e) => check!(e.is_connection_aborted(), "the end of the connection was reported as {e}"),
				}
			} else if let Some(m) = try_now(pin!(read.recv_message())).await {
				fail!("received {m:?} but nothing was sent");
			}
			return Ok(());
		};
		let m = match must("recv_message", read.recv_message()).await? {
			Ok(m) => m,
			Err(e) => fail!("recv_message failed with {e} instead of returning {expected:?}"),
		};
		match (expected, m) {
			(Incoming::Stream(e), ReceivedMessage::Stream(m)) => {
				check!(m.header.service_id == e.service && m.body.bytes() == e.body, "received {m:?} instead of {e:?}");
			},
			(Incoming::Request(r, e), ReceivedMessage::Request(handle, b)) => {
				check!(handle.service_id() == e.service && b.bytes() == e.body, "received {handle:?} instead of {e:?}");
				check!(handle.request_id() == self.requests[r].id, "received request ID {} instead of {}", handle.request_id(), self.requests[r].id);
				self.received[r] = Some(handle);
			},
			(e, m) => fail!("received {m:?} instead of {e:?}"),
		}
		Ok(())
	}

	async fn recv_update_sent(&mut self, r: usize, ended: bool) -> Res {
		let q = &mut self.requests[r];
		let h = self.sent[r].as_mut().unwrap();
		match q.to_owner.front() {
			Some(x) if !x.response => {
				let e = q.to_owner.pop_front().unwrap();
				match must("recv_update", h.recv_update()).await? {
					Some(m) => check!(m.header.service_id == e.service && m.body.bytes() == e.body && m.header.request_id == q.id, "received {m:?} instead of {e:?}"),
					None => fail!("received no update instead of {e:?}"),
				}
			},
			None if !q.taken && !ended => {
				if let Some(m) = try_now(pin!(h.recv_update())).await {
					fail!("received update {m:?} but nothing was sent");
				}
			},
			_ => {
				if let Some(m) = must("recv_update", h.recv_update()).await? {
					fail!("received update {m:?} but the response is next or was received, or the connection ended");
				}
			},
		}
		Ok(())
	}

	async fn recv_response(&mut self, r: usize, ended: bool) -> Res {
		let q = &mut self.requests[r];
		let h = self.sent[r].as_mut().unwrap();
		match q.to_owner.front() {
			Some(x) if x.response => {
				let e = q.to_owner.pop_front().unwrap();
				q.taken = true;
				match must("recv_response", h.recv_response()).await? {
					Ok(m) => check!(m.header.service_id == e.service && m.body.bytes() == e.body && m.header.request_id == q.id, "received {m:?} instead of {e:?}"),
					Err(x) => fail!("receiving the response failed with {x} instead of returning {e:?}"),
				}
			},
			Some(_) => match must("recv_response", h.recv_response()).await? {
				Ok(m) => fail!("received the response {m:?} but an update is next"),
				Err(x) => check!(x.is_unexpected_message_type(), "receiving the response failed with {x} but an update is next"),
			},
			None if q.taken || ended => match must("recv_response", h.recv_response()).await? {
				Ok(m) => fail!("received the response {m:?} again or after the end"),
				Err(x) => check!(q.taken || x.is_connection_aborted(), "the end of the connection was reported as {x}"),
			},
			None => {
				if let Some(m) = try_now(pin!(h.recv_response())).await {
					fail!("received response {m:?} but nothing was sent");
				}
			},
		}
		Ok(())
	}

	async fn recv_update_received(&mut self, r: usize, ended: bool) -> Res {
		let q = &mut self.requests[r];
		let h = self.received[r].as_mut().unwrap();
		if let Some(e) = q.to_other.pop_front() {
			match must("recv_update", h.recv_update()).await? {
				Some(m) => check!(m.header.service_id == e.service && m.body.bytes() == e.body && m.header.request_id == q.id, "received {m:?} instead of {e:?}"),
				None => fail!("received no update instead of {e:?}"),
			}
		} else if q.responded || ended {
			if let Some(m) = must("recv_update", h.recv_update()).await? {
				fail!("received update {m:?} after the response or the end");
			}
		} else if let Some(m) = try_now(pin!(h.recv_update())).await {
			fail!("received update {m:?} but nothing was sent");
		}
		Ok(())
	}

	/// Receive everything that is left on one side.
	async fn drain(&mut self, x: usize, ended: bool) -> Res {
		while self.sides[x].read.is_some() && !self.sides[x].inbox.is_empty() {
			self.recv_message(x, ended).await?;
		}
		if self.sides[x].read.is_some() {
			self.recv_message(x, ended).await?;
		}
		for r in 0..self.requests.len() {
			if self.requests[r].owner == x {
				if self.sent[r].is_some() {
					while self.requests[r].to_owner.front().is_some_and(|m| !m.response) {
						self.recv_update_sent(r, ended).await?;
					}
					self.recv_update_sent(r, ended).await?;
					self.recv_response(r, ended).await?;
					self.recv_response(r, ended).await?;
				}
			} else if self.received[r].is_some() {
				while !self.requests[r].to_other.is_empty() {
					self.recv_update_received(r, ended).await?;
				}
				self.recv_update_received(r, ended).await?;
			}
		}
		Ok(())
	}

	/// All sends of one side must fail.
	async fn sends_fail(&mut self, x: usize) -> Res {
		if let Some(w) = &self.sides[x].write {
			let r = must("send_stream after the end", w.send_stream(1, Vec::new())).await?;
			check!(r.is_err(), "a stream message was sent after the end");
			let r = must("send_request after the end", w.send_request(1, Vec::new())).await?;
			check!(r.is_err(), "a request was sent after the end");
		}
		for r in 0..self.requests.len() {
			if self.requests[r].owner == x {
				if let Some(h) = &self.sent[r] {
					check!(must("send_update after the end", h.send_update(1, Vec::new())).await?.is_err(), "an update was sent after the end");
				}
			} else if let Some(h) = &self.received[r] {
				check!(must("send_update after the end", h.send_update(1, Vec::new())).await?.is_err(), "an update was sent after the end");
				check!(must("send_response after the end", h.send_response(1, Vec::new())).await?.is_err(), "a response was sent after the end");
			}
		}
		Ok(())
	}
}

async fn history<N: Net>(ctx: &mut Ctx, depth: usize, max_requests: usize, connected: bool) -> Res {
	let endian = ENDIANS[ctx.choose(3)];
	let c = Config::new(4096, 4096, endian);
	let (a, b) = if connected {
		// One has connected to a listener, the other was accepted by it.
		let dir = Scratch::new();
		let (mut listener, address) = N::listen(N::address(&dir.0), c).await.expect("bind");
		let (a, _) = must("connect", N::connect_peer(address, c)).await?.expect("connect");
		let (b, _) = must("accept", listener.accept()).await?.expect("accept");
		(a, b)
	} else {
		peers::<N>(c, c).await
	};
	let mut w = World::new(a, b);
	for _ in 0..depth {
		ctx.step();
		let mut ops: Vec<(usize, usize, usize)> = Vec::new();
		for x in 0..2 {
			ops.push((0, x, 0));
			if w.requests.len() < max_requests {
				ops.push((1, x, 0));
			}
			ops.push((2, x, 0));
			for (r, q) in w.requests.iter().enumerate() {
				if q.owner == x {
					// Whether the response was processed already can not be seen until it is received.
					if !q.responded || q.taken {
						ops.push((3, x, r));
					}
					ops.push((4, x, r));
					ops.push((5, x, r));
				} else if w.received[r].is_some() {
					ops.push((6, x, r));
					ops.push((7, x, r));
					ops.push((8, x, r));
				}
			}
		}
		let (op, x, r) = ops[ctx.choose(ops.len())];
		let names = ["send_stream", "send_request", "recv_message", "sent.send_update", "sent.recv_update", "sent.recv_response", "received.send_update", "received.recv_update", "received.send_response"];
		ctx.log(|| format!("{}: {} (request {r})", ["a", "b"][x], names[op]));
		let y = 1 - x;
		match op {
			0 => {
				let (item, b) = w.item();
				send_ok("send_stream", w.sides[x].write.as_ref().unwrap().send_stream(item.service, b)).await?;
				w.sides[y].inbox.push_back(Incoming::Stream(item));
			},
			1 => {
				let (item, b) = w.item();
				let h = send_ok("send_request", w.sides[x].write.as_ref().unwrap().send_request(item.service, b)).await?;
				check!(h.service_id() == item.service, "the handle has service ID {}", h.service_id());
				for q in w.requests.iter() {
					check!(q.owner != x || q.taken || q.id != h.request_id(), "request ID {} is used twice", q.id);
				}
				w.requests.push(Request { owner: x, id: h.request_id(), to_owner: VecDeque::new(), to_other: VecDeque::new(), responded: false, taken: false });
				w.sent.push(Some(h));
				w.received.push(None);
				w.sides[y].inbox.push_back(Incoming::Request(w.requests.len() - 1, item));
			},
			2 => w.recv_message(x, false).await?,
			3 => {
				let (item, b) = w.item();
				let result = must("send_update", w.sent[r].as_ref().unwrap().send_update(item.service, b)).await?;
				let q = &mut w.requests[r];
				if q.taken {
					check!(result.is_err(), "an update was sent after the response was received");
				} else {
					if let Err(e) = result {
						fail!("send_update failed: {e}");
					}
					q.to_other.push_back(item);
				}
			},
			4 => w.recv_update_sent(r, false).await?,
			5 => w.recv_response(r, false).await?,
			6 | 8 => {
				let (mut item, b) = w.item();
				item.response = op == 8;
				let h = w.received[r].as_ref().unwrap();
				let result = if op == 8 { must("send_response", h.send_response(item.service, b)).await? } else { must("send_update", h.send_update(item.service, b)).await? };
				let q = &mut w.requests[r];
				if q.responded {
					check!(result.is_err(), "a message was sent after the response");
				} else {
					if let Err(e) = result {
						fail!("{} failed: {e}", names[op]);
					}
					q.responded = op == 8;
					q.to_owner.push_back(item);
				}
			},
			_ => w.recv_update_received(r, false).await?,
		}
		settle().await;
		let q: Vec<u8> = w.requests.iter().flat_map(|q| [q.owner as u8, q.to_owner.len() as u8, q.to_other.len() as u8, q.responded as u8, q.taken as u8]).collect();
		ctx.observe(&q);
		ctx.observe(&[w.sides[0].inbox.len() as u8, w.sides[1].inbox.len() as u8]);
	}
	// The end.
	let end = ctx.choose(5);
	if end == 0 {
		ctx.log(|| "receive what is left".into());
		w.drain(0, false).await?;
		w.drain(1, false).await?;
		return Ok(());
	}
	let x = (end - 1) % 2;
	if end < 3 {
		ctx.log(|| format!("{} closes the connection", ["a", "b"][x]));
		w.sides[x].write.as_ref().unwrap().close();
	} else {
		ctx.log(|| format!("{} drops its handles", ["a", "b"][x]));
		w.sides[x].read = None;
		w.sides[x].write = None;
	}
	settle().await;
	// The end has to be known everywhere before sends can be expected to fail.
	for y in [1 - x, x] {
		w.drain(y, true).await?;
		w.sends_fail(y).await?;
	}
	Ok(())
}

/// Many requests of both sides are open at the same time.
async fn many_requests<N: Net>(ctx: &mut Ctx, sizes: &[usize]) -> Res {
	let n = sizes[ctx.choose(sizes.len())];
	let updates = [0, 1, 30][ctx.choose(3)];
	let order = ctx.choose(3);
	let end = ctx.choose(3);
	let c = Config::new(4096, 4096, ENDIANS[0]);
	let (a, b) = peers::<N>(c, c).await;
	let mut w = World::new(a, b);
	ctx.log(|| format!("{n} requests of each side, {updates} updates, answered in order {order}, end {end}"));
	for _ in 0..n {
		for x in 0..2 {
			let (item, b) = w.item();
			let h = send_ok("send_request", w.sides[x].write.as_ref().unwrap().send_request(item.service, b)).await?;
			for q in w.requests.iter() {
				check!(q.owner != x || q.id != h.request_id(), "request ID {} is used twice", q.id);
			}
			w.requests.push(Request { owner: x, id: h.request_id(), to_owner: VecDeque::new(), to_other: VecDeque::new(), responded: false, taken: false });
			w.sent.push(Some(h));
			w.received.push(None);
			w.sides[1 - x].inbox.push_back(Incoming::Request(w.requests.len() - 1, item));
			let (item, b) = w.item();
			send_ok("send_stream", w.sides[x].write.as_ref().unwrap().send_stream(item.service, b)).await?;
			w.sides[1 - x].inbox.push_back(Incoming::Stream(item));
		}
		ctx.step();
	}
	for x in 0..2 {
		while !w.sides[x].inbox.is_empty() {
			w.recv_message(x, false).await?;
		}
	}
	for _ in 0..updates {
		for r in 0..w.requests.len() {
			let (item, b) = w.item();
			send_ok("send_update", w.sent[r].as_ref().unwrap().send_update(item.service, b)).await?;
			w.requests[r].to_other.push_back(item);
			let (item, b) = w.item();
			send_ok("send_update", w.received[r].as_ref().unwrap().send_update(item.service, b)).await?;
			w.requests[r].to_owner.push_back(item);
		}
		ctx.step();
	}
	let total = w.requests.len();
	if order < 2 {
		for r in 0..total {
			let r = if order == 0 { r } else { total - 1 - r };
			let (mut item, b) = w.item();
			item.response = true;
			send_ok("send_response", w.received[r].as_ref().unwrap().send_response(item.service, b)).await?;
			w.requests[r].to_owner.push_back(item);
			w.requests[r].responded = true;
		}
	}
	if end == 0 {
		w.drain(0, false).await?;
		return w.drain(1, false).await;
	}
	// Everything that was sent before has arrived when these have.
	for x in 0..2 {
		let (item, b) = w.item();
		send_ok("send_stream", w.sides[x].write.as_ref().unwrap().send_stream(item.service, b)).await?;
		w.sides[1 - x].inbox.push_back(Incoming::Stream(item));
		w.recv_message(1 - x, false).await?;
	}
	if end == 1 {
		w.sides[0].write.as_ref().unwrap().close();
	} else {
		w.sides[0].read = None;
		w.sides[0].write = None;
	}
	settle().await;
	for y in [1, 0] {
		w.drain(y, true).await?;
		w.sends_fail(y).await?;
	}
	Ok(())
}

/// The remote sends messages and closes the connection while something is left that it did not read.
async fn closed_by_remote<N: Net>(ctx: &mut Ctx, depth: usize) -> Res {
	let c = Config::new(64, 64, ENDIANS[0]);
	let (a, remote) = N::pair().await;
	let mut peer = Peer::spawn(N::transport(a, c));
	let mut sent = send_ok("send_request", peer.send_request(5, data::<N::B>(3, 1))).await?;
	// How much the remote does not read.
	let unread = ctx.choose(4);
	let read_first = ctx.choose(2) == 1;
	let early = ctx.choose(2) == 1;
	let finish = ctx.choose(2);
	ctx.log(|| format!("{unread} messages are not read, half of the messages is received early: {early}"));
	settle().await;
	if read_first || unread == 0 {
		drain_socket(N::fd(&remote));
	}
	for i in 1..unread {
		if i == 1 {
			send_ok("send_stream", peer.send_stream(5, data::<N::B>(3, 2))).await?;
		} else {
			send_ok("send_update", sent.send_update(5, data::<N::B>(3, 2))).await?;
		}
	}
	settle().await;
	let mut streams = VecDeque::new();
	let mut updates = VecDeque::new();
	let mut response = None;
	for i in 0..depth {
		let id = sent.request_id();
		let header = match ctx.choose(4) {
			0 => break,
			1 => MessageHeader::stream(0, i as i32),
			_ if response.is_some() => break,
			2 => MessageHeader::responder_update(id, i as i32),
			_ => MessageHeader::response(id, i as i32),
		};
		ctx.step();
		let m = Msg::new(header, body(i + 3, 9));
		ctx.log(|| format!("the remote sends {}", m.short()));
		N::send_raw(&remote, &if N::NAME == Seqpacket::NAME { encode_header(&m, ENDIANS[0]).into_iter().chain(m.body.iter().copied()).collect() } else { encode_frame(&m, ENDIANS[0]) });
		match m.header.message_type {
			MessageType::Stream => streams.push_back(m),
			MessageType::ResponderUpdate => updates.push_back(m),
			_ => response = Some(m),
		}
		if early && i == 0 {
			settle().await;
		}
	}
	// The end of the connection.
	if finish == 0 {
		drop(remote);
	} else {
		unsafe { libc::shutdown(N::fd(&remote), libc::SHUT_WR) };
		drop(remote);
	}
	let total = streams.len() + updates.len() + response.is_some() as usize;
	ctx.observe(&[unread as u8, total as u8]);
	for m in streams {
		match must("recv_message", peer.recv_message()).await? {
			Ok(ReceivedMessage::Stream(x)) => check!(x.header == m.header && x.body.bytes() == m.body, "received {x:?} instead of {}", m.short()),
			Ok(x) => fail!("received {x:?} instead of {}", m.short()),
			Err(e) => fail!("{} was sent before the connection was closed, but is not received: {e}", m.short()),
		}
	}
	for m in updates {
		match must("recv_update", sent.recv_update()).await? {
			Some(x) => check!(x.header == m.header && x.body.bytes() == m.body, "received {x:?} instead of {}", m.short()),
			None => fail!("{} was sent before the connection was closed, but is not received", m.short()),
		}
	}
	if let Some(m) = response {
		match must("recv_response", sent.recv_response()).await? {
			Ok(x) => check!(x.header == m.header && x.body.bytes() == m.body, "received {x:?} instead of {}", m.short()),
			Err(e) => fail!("{} was sent before the connection was closed, but is not received: {e}", m.short()),
		}
	}
	check!(must("recv_update", sent.recv_update()).await?.is_none(), "received an update after the end");
	if let Ok(x) = must("recv_response", sent.recv_response()).await? {
		fail!("received {x:?} after the end");
	}
	for i in 0..3 {
		match must("recv_message", peer.recv_message()).await? {
			Ok(x) => fail!("received {x:?} after the end"),
			Err(e) => check!(i == 0 || e.is_connection_aborted(), "receiving after the end gives: {e}"),
		}
	}
	settle().await;
	check!(must("send_stream", peer.send_stream(1, data::<N::B>(1, 1))).await?.is_err(), "sending after the end succeeds");
	Ok(())
}

fn drain_socket(fd: RawFd) {
	let mut buffer = [0u8; 1000];
	while unsafe { libc::recv(fd, buffer.as_mut_ptr() as *mut _, buffer.len(), libc::MSG_DONTWAIT) } > 0 {}
}

/// Messages that arrived before the end of a connection.
pub fn p11(c: &mut Check) {
	fn one<N: Net>(c: &mut Check, depth: usize) {
		c.run_opts(&format!("{}: closed with unread data after up to {depth} messages", N::NAME), opts(), |ctx: &mut Ctx| block_on(closed_by_remote::<N>(ctx, depth)));
	}
	let depth = c.bound(3, 5);
	one::<Stream>(c, depth);
	one::<Seqpacket>(c, depth);
	one::<Tcp>(c, c.bound(2, 4));
}

pub fn p25(c: &mut Check) {
	fn many<N: Net>(c: &mut Check, sizes: &'static [usize]) {
		c.run_opts(&format!("{}: many requests", N::NAME), opts(), |ctx: &mut Ctx| block_on(many_requests::<N>(ctx, sizes)));
	}
	let sizes = &[1usize, 12, 40, 70, 300][..c.bound(3, 5)];
	many::<Stream>(c, sizes);
	many::<Seqpacket>(c, sizes);
	many::<Tcp>(c, sizes);
	fn one<N: Net>(c: &mut Check, depth: usize, max_requests: usize) {
		c.run_opts(&format!("{}: histories of {depth} operations, at most {max_requests} requests", N::NAME), opts(), |ctx: &mut Ctx| block_on(history::<N>(ctx, depth, max_requests, false)));
	}
	fn connected<N: Net>(c: &mut Check, depth: usize, max_requests: usize) {
		c.run_opts(&format!("{}: histories of {depth} operations, at most {max_requests} requests, with a client and a listener", N::NAME), opts(), |ctx: &mut Ctx| block_on(history::<N>(ctx, depth, max_requests, true)));
	}
	let depth = c.bound(4, 5);
	one::<Stream>(c, depth, 2);
	one::<Seqpacket>(c, depth, 2);
	one::<Tcp>(c, c.bound(3, 5), 2);
	let depth = c.bound(5, 6);
	one::<Stream>(c, depth, 1);
	one::<Seqpacket>(c, depth, 1);
	one::<Tcp>(c, c.bound(4, 5), 1);
	let depth = c.bound(3, 4);
	connected::<Stream>(c, depth, 2);
	connected::<Seqpacket>(c, depth, 2);
	connected::<Tcp>(c, 3, 2);
	p11(c);
	c.assumptions.push("Data sent over a local socket is available to the other end at once.".into());
}

/// The limits and byte order of the configuration reach the right direction of the transport.
pub fn p03(c: &mut Check) {
	fn one<N: Net>(c: &mut Check) {
		c.run_opts(&format!("{}: configured limits of both peers", N::NAME), opts(), |ctx: &mut Ctx| {
			let limits = [0u32, 3, 7];
			let ar = limits[ctx.choose(3)];
			let aw = limits[ctx.choose(3)];
			let endian = ENDIANS[ctx.choose(3)];
			let connected = ctx.choose(3);
			let from_a = ctx.choose(2) == 0;
			let len = [0usize, 1, 3, 4, 7, 8][ctx.choose(6)];
			block_on(async {
				let large = Config::new(100, 100, endian);
				let limited = Config::new(ar, aw, endian);
				// The limited peer has a socket of a pair, has connected itself, or was accepted by a listener.
				let dir = Scratch::new();
				let (a, b) = match connected {
					0 => peers::<N>(limited, large).await,
					1 => {
						let (mut listener, address) = N::listen(N::address(&dir.0), large).await.expect("bind");
						let (a, _) = must("connect", N::connect_peer(address, limited)).await?.expect("connect");
						let (b, _) = must("accept", listener.accept()).await?.expect("accept");
						(a, b)
					},
					_ => {
						let (mut listener, address) = N::listen(N::address(&dir.0), limited).await.expect("bind");
						let (b, _) = must("connect", N::connect_peer(address, large)).await?.expect("connect");
						let (a, _) = must("accept", listener.accept()).await?.expect("accept");
						(a, b)
					},
				};
				let (mut ra, wa) = a.split();
				let (mut rb, wb) = b.split();
				ctx.step();
				ctx.log(|| format!("peer with limits read={ar} write={aw} {} {len} bytes", if from_a { "sends" } else { "receives" }));
				let (w, r, limit) = if from_a { (&wa, &mut rb, aw) } else { (&wb, &mut ra, ar) };
				let fits = len <= limit as usize;
				let result = must("send_stream", w.send_stream(4, data::<N::B>(len, 1))).await?;
				ctx.observe(&[fits as u8, result.is_ok() as u8, from_a as u8]);
				if from_a && !fits {
					check!(result.is_err(), "sent {len} bytes with a limit of {limit}");
					// Nothing was transmitted and the connection is usable.
					check!(try_now(pin!(r.recv_message())).await.is_none(), "something was received");
					send_ok("sending a small message after a refused one", w.send_stream(5, Vec::new())).await?;
					match must("recv_message", r.recv_message()).await? {
						Ok(ReceivedMessage::Stream(m)) => check!(m.header.service_id == 5 && m.body.bytes().is_empty(), "received {m:?}"),
						m => fail!("received {m:?}"),
					}
				} else {
					if let Err(e) = result {
						fail!("sending {len} bytes failed: {e}");
					}
					match must("recv_message", r.recv_message()).await? {
						Ok(ReceivedMessage::Stream(m)) => {
							check!(fits, "received {len} bytes with a limit of {limit}");
							check!(m.header.service_id == 4 && m.body.bytes() == body(len, 1), "received {m:?}");
						},
						Err(e) => {
							check!(!fits, "receiving {len} bytes with limit {limit} failed: {e}");
							check!(!e.is_connection_aborted(), "a message that is too large was reported as a closed connection");
						},
						m => fail!("received {m:?}"),
					}
				}
				Ok(())
			})
		});
	}
	one::<Stream>(c);
	one::<Seqpacket>(c);
	one::<Tcp>(c);
}

pub fn texts() -> Vec<String> {
	let chars = ['\0', 'x', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\n', '"'];
	let mut out = vec![String::new()];
	for a in chars {
		out.push(a.to_string());
		for b in chars {
			out.push(format!("{a}{b}"));
		}
	}
	out.push("x".repeat(4096));
	out.push("é".repeat(2048));
	for n in [5000, 10_000, 65_536, 70_000] {
		out.push("x".repeat(n));
		out.push(format!("x{}", "é😀".repeat(n / 6)));
	}
	out.push("the device is on fire: π ≈ 3.14159 😀".into());
	out
}

/// Error responses over every transport.
pub fn p24(c: &mut Check) {
	fn one<N: Net>(c: &mut Check) {
		let texts = texts();
		let texts = &texts;
		c.run_opts(&format!("{}: error responses", N::NAME), opts(), |ctx: &mut Ctx| {
			let text = &texts[ctx.choose(texts.len())];
			let via = ctx.choose(2);
			let updates = ctx.choose(2);
			block_on(async {
				let config = Config::new(100_000, 100_000, Endian::LittleEndian);
				let (a, mut b) = peers::<N>(config, config).await;
				ctx.step();
				ctx.log(|| format!("error response {text:?} after {updates} updates, by {}", ["handle", "write handle"][via]));
				let mut sent = send_ok("send_request", a.send_request(3, Vec::new())).await?;
				let mut received = match must("recv_message", b.recv_message()).await? {
					Ok(ReceivedMessage::Request(r, _)) => r,
					m => fail!("received {m:?}"),
				};
				for _ in 0..updates {
					send_ok("send_update", received.send_update(4, Vec::new())).await?;
				}
				if via == 0 {
					send_ok("send_error_response", received.send_error_response(text)).await?;
				} else {
					send_ok("send_error_response", received.write_handle().send_error_response(text)).await?;
				}
				for _ in 0..updates {
					check!(must("recv_update", sent.recv_update()).await?.is_some(), "an update got lost");
				}
				let m = send_ok("recv_response", sent.recv_response()).await?;
				ctx.observe(m.body.bytes());
				check!(m.header.service_id == -1, "the service ID is {}", m.header.service_id);
				check!(m.header.message_type.is_response() && m.header.request_id == sent.request_id(), "received {m:?}");
				check!(m.body.bytes() == text.as_bytes(), "the body is {:?}", m.body.bytes());
				use fizyr_rpc::Body;
				check!(m.body.as_error() == Ok(text.as_str()), "the error text is {:?}", m.body.as_error());
				check!(m.body.into_error().as_ref() == Ok(text), "the error text is not {text:?}");
				// The request is closed on both sides.
				check!(must("recv_response", sent.recv_response()).await?.is_err(), "a second response was received");
				check!(must("send_update", sent.send_update(1, Vec::new())).await?.is_err(), "the requester sent an update after the error response");
				check!(must("send_update", received.send_update(1, Vec::new())).await?.is_err(), "an update was sent after the error response");
				check!(must("send_response", received.send_response(1, Vec::new())).await?.is_err(), "a response was sent after the error response");
				check!(must("send_error_response", received.send_error_response(text)).await?.is_err(), "a second error response was sent");
				check!(must("recv_update", received.recv_update()).await?.is_none(), "an update was received");
				Ok(())
			})
		});
	}
	one::<Stream>(c);
	one::<Seqpacket>(c);
	one::<Tcp>(c);
}

/// The grammar of RFC 3629.
fn is_utf8(b: &[u8]) -> bool {
	let tail = |x: Option<&u8>, lo: u8, hi: u8| x.is_some_and(|x| (lo..=hi).contains(x));
	let mut i = 0;
	while i < b.len() {
		let (n, lo, hi) = match b[i] {
			0x00..=0x7f => (1, 0, 0),
			0xc2..=0xdf => (2, 0x80, 0xbf),
			0xe0 => (3, 0xa0, 0xbf),
			0xe1..=0xec | 0xee..=0xef => (3, 0x80, 0xbf),
			0xed => (3, 0x80, 0x9f),
			0xf0 => (4, 0x90, 0xbf),
			0xf1..=0xf3 => (4, 0x80, 0xbf),
			0xf4 => (4, 0x80, 0x8f),
			_ => return false,
		};
		if n >= 2 && !tail(b.get(i + 1), lo, hi) {
			return false;
		}
		for k in 2..n {
			if !tail(b.get(i + k), 0x80, 0xbf) {
				return false;
			}
		}
		i += n;
	}
	true
}

fn check_error_body<B: Bytes>(b: &[u8]) -> Res {
	let valid = is_utf8(b);
	let body = B::from(b.to_vec());
	match body.as_error() {
		Ok(x) => check!(valid && x.as_bytes() == b, "as_error of {b:?} is {x:?}"),
		Err(_) => check!(!valid, "as_error of {b:?} fails"),
	}
	match body.into_error() {
		Ok(x) => check!(valid && x.as_bytes() == b, "into_error of {b:?} is {x:?}"),
		Err(_) => check!(!valid, "into_error of {b:?} fails"),
	}
	if valid {
		let x = B::from_error(std::str::from_utf8(b).expect("valid"));
		check!(x.bytes() == b, "from_error makes {:?} of {b:?}", x.bytes());
	}
	Ok(())
}

/// Error texts as message bodies: every short byte string.
pub fn p24_bodies(c: &mut Check) {
	fn one<B: Bytes>(c: &mut Check, name: &str) {
		let max = 3;
		c.run(&format!("{name}: every error body of at most {max} bytes"), |ctx: &mut Ctx| {
			let len = ctx.choose(max + 1);
			let mut b: Vec<u8> = (0..len.min(2)).map(|_| ctx.choose(256) as u8).collect();
			ctx.observe(&[is_utf8(&b) as u8, len as u8]);
			if len < 3 {
				ctx.step();
				return check_error_body::<B>(&b);
			}
			b.push(0);
			for x in 0..=255 {
				ctx.step();
				b[2] = x;
				check_error_body::<B>(&b)?;
			}
			Ok(())
		});
		c.run(&format!("{name}: error bodies of 4 and 5 bytes with boundary values"), |ctx: &mut Ctx| {
			let a = [0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xef, 0xff, 0x41][ctx.choose(8)];
			let s = ctx.choose(256) as u8;
			let edge = [0x7f, 0x80, 0x8f, 0x90, 0xa0, 0xbf, 0xc0, 0xff];
			for c in edge {
				for d in edge {
					ctx.step();
					check_error_body::<B>(&[a, s, c, d])?;
					check_error_body::<B>(&[0x78, a, s, c, d])?;
					check_error_body::<B>(&[a, s, c, d, 0x78])?;
				}
			}
			Ok(())
		});
	}
	one::<fizyr_rpc::StreamBody>(c, "stream body");
	one::<fizyr_rpc::UnixBody>(c, "unix body");
	c.run("message constructors for error responses", |ctx: &mut Ctx| {
		let texts = texts();
		let text = &texts[ctx.choose(texts.len())];
		let id = [0, 1, 0x80000000, u32::MAX][ctx.choose(4)];
		let m = fizyr_rpc::Message::<fizyr_rpc::StreamBody>::error_response(id, text);
		ctx.observe(text.as_bytes());
		check!(m.header.service_id == -1 && m.header.request_id == id && m.header.message_type.is_response(), "header {:?}", m.header);
		check!(m.body.bytes() == text.as_bytes(), "body {:?}", m.body);
		let m = fizyr_rpc::Message::<fizyr_rpc::UnixBody>::error_response(id, text);
		check!(m.body.bytes() == text.as_bytes() && m.body.fds.is_empty(), "body {:?}", m.body.bytes());
		check!(m.header == fizyr_rpc::MessageHeader::error_response(id) && m.header.service_id == -1 && m.header.request_id == id && m.header.message_type.is_response(), "header {:?}", m.header);
		Ok(())
	});
}
