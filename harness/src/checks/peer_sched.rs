//! Checks that explore schedules of concurrent applications on one peer.

use fizyr_rpc::MessageType::{self, *};
use fizyr_rpc::{MessageHeader, Peer, PeerHandle, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, SentRequestHandle, StreamBody};
use mc::explore::{Ctx, Options, Res};
use mc::hooks::SetNextId;
use mc::mock::{In, Link, MockTransport, Msg, Write};
use mc::rec::{Outcome, PBody, Rec};
use mc::report::Check;
use mc::sched::{yield_now, Event, Sched, Scope};
use mc::{check, fail};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::rc::Rc;

const MAX_STEPS: usize = 4000;

/// One peer over a mock transport, and a scheduler.
pub struct Setup {
	pub sched: Scope,
	pub link: Link,
	pub rec: Rec,
	pub peer: usize,
	pub handle: Option<PeerHandle<StreamBody>>,
}

pub fn setup(ctx: &mut Ctx) -> Setup {
	let sched = Sched::with_policies(ctx, false);
	let link = Link::new();
	let (peer, handle) = Peer::<MockTransport>::new(link.transport());
	let id = sched.spawn("peer", peer.run());
	let rec = Rec::new(sched.handle());
	Setup { sched, link, rec, peer: id, handle: Some(handle) }
}

impl Setup {
	/// Run a future to completion in the default schedule, without exploring anything.
	pub fn quiet<T: 'static>(&self, fut: impl Future<Output = T> + 'static) -> T {
		let out = Rc::new(RefCell::new(None));
		let slot = out.clone();
		self.sched.spawn("setup", async move {
			let x = fut.await;
			*slot.borrow_mut() = Some(x);
		});
		self.settle();
		let x = out.borrow_mut().take();
		x.expect("setup completes")
	}

	pub fn settle(&self) {
		for _ in 0..10_000 {
			match self.sched.ready().first() {
				Some(&i) => self.sched.poll(i),
				None => return,
			}
		}
		panic!("setup does not come to rest");
	}

	pub fn open_received(&mut self, id: u32) -> ReceivedRequestHandle<StreamBody> {
		self.link.push(In::Msg(Msg::new(MessageHeader::request(id, 100), "in")));
		let mut h = self.handle.take().unwrap();
		let (h, r) = self.quiet(async move {
			let r = h.recv_message().await;
			(h, r)
		});
		self.handle = Some(h);
		match r {
			Ok(ReceivedMessage::Request(r, _)) => r,
			x => panic!("setup: {x:?}"),
		}
	}

	pub fn open_sent(&mut self) -> SentRequestHandle<StreamBody> {
		let h = self.handle.take().unwrap();
		let (h, r) = self.quiet(async move {
			let r = h.send_request(100, "setup").await;
			(h, r)
		});
		self.handle = Some(h);
		// Forget that this was transmitted.
		self.link.with(|s| s.wire.clear());
		r.expect("setup: request")
	}

	pub fn split(&mut self) -> (PeerReadHandle<StreamBody>, PeerWriteHandle<StreamBody>) {
		self.handle.take().unwrap().split()
	}

	pub fn spawn(&self, name: &str, fut: impl Future<Output = ()> + 'static) -> usize {
		self.sched.spawn(name, fut)
	}

	/// Explore.
	pub fn run(&self, preemptive: bool) -> Res {
		self.sched.set_preemptive(preemptive);
		let link = self.link.clone();
		let r = self.sched.run(MAX_STEPS, || match link.misuse() {
			Some(m) => fail!("transport misused: {m}"),
			None => Ok(()),
		});
		self.sched.set_preemptive(false);
		r
	}

	/// Block all writes, and let another task allow them one by one.
	pub fn throttle(&self, grants: usize) {
		self.link.set_credit(Some(0));
		let link = self.link.clone();
		self.spawn("drain", async move {
			for _ in 0..grants {
				yield_now().await;
				link.grant(1);
			}
			link.set_credit(None);
		});
	}

	/// Everything but the peer itself finished.
	pub fn all_finished(&self) -> Res {
		for (id, name) in self.sched.unfinished() {
			check!(id == self.peer, "{name} never finishes");
		}
		Ok(())
	}
}

/// Check the history of received requests: updates and responses are transmitted only while the request is open,
/// and messages of one request (marked `g<n>` in the body) only for that request.
fn check_received_history(link: &Link) -> Res {
	let mut open: BTreeMap<u32, bool> = BTreeMap::new();
	let mut generation: BTreeMap<u32, u32> = BTreeMap::new();
	for (incoming, m) in link.with(|s| s.history.clone()) {
		let id = m.header.request_id;
		match (incoming, m.header.message_type) {
			(true, Request) => {
				let o = open.entry(id).or_insert(false);
				if !*o {
					*o = true;
					*generation.entry(id).or_default() += 1;
				}
			},
			(false, Response | ResponderUpdate) => {
				let o = open.entry(id).or_insert(false);
				check!(*o, "{} was transmitted although request {id} is not open (any more)", m.short());
				if let Some(g) = gen_of(&m.body) {
					check!(g == generation[&id], "{} was transmitted for a later request with the same ID", m.short());
				}
				if m.header.message_type == Response {
					*o = false;
				}
			},
			_ => (),
		}
	}
	Ok(())
}

/// Check the history of sent requests: messages of one request (marked `g<n>`) are not transmitted for a later one with the same ID,
/// and IDs of open requests are not used again.
fn check_sent_history(link: &Link, abandoned: &[u32]) -> Res {
	let mut generation: BTreeMap<u32, u32> = BTreeMap::new();
	let mut open: BTreeMap<u32, bool> = BTreeMap::new();
	for (incoming, m) in link.with(|s| s.history.clone()) {
		let id = m.header.request_id;
		match (incoming, m.header.message_type) {
			(false, Request) => {
				check!(!open.get(&id).copied().unwrap_or(false) || abandoned.contains(&id), "request ID {id} was used for a new request while it was in use");
				open.insert(id, true);
				*generation.entry(id).or_default() += 1;
			},
			(true, Response) => {
				open.insert(id, false);
			},
			(false, RequesterUpdate) => {
				let g = generation.get(&id).copied().unwrap_or(0);
				check!(g > 0, "{} was transmitted for a request that does not exist", m.short());
				if let Some(x) = gen_of(&m.body) {
					check!(x == g, "{} was transmitted for a later request with the same ID", m.short());
				}
			},
			_ => (),
		}
	}
	Ok(())
}

fn gen_of(body: &[u8]) -> Option<u32> {
	match body {
		[b'g', d, ..] if d.is_ascii_digit() => Some((d - b'0') as u32),
		_ => None,
	}
}

macro_rules! send {
	($rec:expr, $kind:expr, $id:expr, $handle:expr, update, $sid:expr, $body:expr) => {{
		let fut = $handle.send_update($sid, PBody($body.to_string().into_bytes()));
		$rec.send(format!("send_update({})", $body), $kind, $id, $sid, $body.to_string(), fut).await
	}};
	($rec:expr, $id:expr, $handle:expr, response, $sid:expr, $body:expr) => {{
		let fut = $handle.send_response($sid, PBody($body.to_string().into_bytes()));
		$rec.send(format!("send_response({})", $body), MessageType::Response, $id, $sid, $body.to_string(), fut).await
	}};
	($rec:expr, $id:expr, $handle:expr, error, $body:expr) => {{
		let text = $body.to_string();
		let fut = $handle.send_error_response(&text);
		$rec.send(format!("send_error_response({})", $body), MessageType::Response, $id, -1, $body.to_string(), fut).await
	}};
	($rec:expr, $handle:expr, stream, $sid:expr, $body:expr) => {{
		let fut = $handle.send_stream($sid, PBody($body.to_string().into_bytes()));
		$rec.send(format!("send_stream({})", $body), MessageType::Stream, Some(0), $sid, $body.to_string(), fut).await
	}};
	($rec:expr, $handle:expr, request, $sid:expr, $body:expr) => {{
		let fut = $handle.send_request($sid, PBody($body.to_string().into_bytes()));
		$rec.send(format!("send_request({})", $body), MessageType::Request, None, $sid, $body.to_string(), fut).await
	}};
}

fn opts(budget: u32) -> Options {
	Options { budget, ..Options::default() }
}

/// Wait until a message is on the wire that satisfies the condition, and return it.
async fn on_wire(link: Link, cond: impl Fn(&Msg) -> bool) -> Msg {
	loop {
		if let Some(m) = link.wire().into_iter().find(|m| cond(m)) {
			return m;
		}
		link.written().wait().await;
	}
}

// ---------------------------------------------------------------- P09

/// Several threads answer the same request.
fn p09_responders(ctx: &mut Ctx, preemptive: bool, refuse: bool) -> Res {
	let blocked = ctx.choose(2) == 1;
	let again = ctx.choose(2) == 1;
	let mut s = setup(ctx);
	let h = s.open_received(3);
	let (w1, w2) = (h.write_handle(), h.write_handle());
	if refuse {
		let n = s.sched.ctx(|c| c.choose(4));
		for _ in 0..n {
			s.link.plan(Write::Accept);
		}
		s.link.plan(Write::Refuse);
	}
	let rec = s.rec.clone();
	s.spawn("A", async move {
		let _ = send!(rec, ResponderUpdate, Some(3), h, update, 1, "g1 update A");
		let _ = send!(rec, Some(3), h, response, 2, "g1 response A");
		let _ = send!(rec, ResponderUpdate, Some(3), h, update, 1, "g1 late update A");
	});
	let rec = s.rec.clone();
	s.spawn("B", async move {
		let _ = send!(rec, Some(3), w1, response, 3, "g1 response B");
		let _ = send!(rec, ResponderUpdate, Some(3), w1, update, 1, "g1 late update B");
	});
	let rec = s.rec.clone();
	s.spawn("C", async move {
		let _ = send!(rec, ResponderUpdate, Some(3), w2, update, 1, "g1 update C");
		let _ = send!(rec, Some(3), w2, error, "g1 error C");
	});
	if again {
		let link = s.link.clone();
		s.spawn("remote", async move {
			on_wire(link.clone(), |m| m.header.message_type == Response).await;
			link.push(In::Msg(Msg::new(MessageHeader::request(3, 101), "in2")));
		});
		let mut handle = s.handle.take().unwrap();
		let rec = s.rec.clone();
		s.spawn("receiver", async move {
			if let Ok(ReceivedMessage::Request(h2, _)) = handle.recv_message().await {
				let _ = send!(rec, ResponderUpdate, Some(3), h2, update, 1, "g2 update");
				let _ = send!(rec, Some(3), h2, response, 1, "g2 response");
			}
			// Keep the connection alive.
			let _ = handle.recv_message().await;
		});
	}
	if blocked {
		s.throttle(4);
	}
	s.run(preemptive)?;
	s.rec.all_complete()?;
	let wire = s.link.wire();
	s.rec.check_wire(&wire)?;
	check_received_history(&s.link)?;
	let responses = s.rec.ops.borrow().iter().filter(|o| o.outcome == Outcome::Ok && o.msg.as_ref().is_some_and(|m| m.0 == Response && m.2.starts_with(b"g1"))).count();
	check!(responses == 1, "{responses} responses for one request report success");
	if again && !refuse {
		check!(s.rec.ok("send_response(g2 response)"), "the second request with the same ID could not be answered");
	}
	Ok(())
}

/// Updates for a sent request race with its response, and with the re-use of its ID.
fn p09_requester(ctx: &mut Ctx, preemptive: bool) -> Res {
	let blocked = ctx.choose(2) == 1;
	let mut s = setup(ctx);
	let mut h = s.open_sent();
	let id = h.request_id();
	let w = h.write_handle();
	let handle = s.handle.take().unwrap();
	let rec = s.rec.clone();
	let answered = Rc::new(Cell::new(false));
	let seen = answered.clone();
	s.spawn("A", async move {
		let r = rec.op("recv_response", h.recv_response()).await;
		if r.is_err() {
			rec.sched.fail("the response did not arrive".into());
			return;
		}
		seen.set(true);
		let late = send!(rec, RequesterUpdate, Some(id), h, update, 1, "g1 late update A");
		if late.is_ok() {
			rec.sched.fail("an update was accepted after the response was received".into());
		}
		if !mc::hooks::HOOKS {
			return std::future::pending::<()>().await;
		}
		// Let the ID counter wrap around.
		handle.set_next_id(id);
		if let Ok(h2) = send!(rec, handle, request, 5, "g2 request") {
			let _ = send!(rec, RequesterUpdate, None, h2, update, 1, "g2 update");
			std::future::pending::<()>().await;
		}
	});
	for (name, w) in [("B", w.clone()), ("C", w)] {
		let rec = s.rec.clone();
		let answered = answered.clone();
		s.spawn(name, async move {
			for body in ["g1 update 1", "g1 update 2"] {
				let body = format!("{body} {name}");
				let late = answered.get();
				let r = send!(rec, RequesterUpdate, Some(id), w, update, 1, body);
				if late && r.is_ok() {
					rec.sched.fail("an update was accepted after the response was received".into());
				}
			}
		});
	}
	let link = s.link.clone();
	s.spawn("remote", async move {
		yield_now().await;
		link.push(In::Msg(Msg::new(MessageHeader::response(id, 9), "answer")));
	});
	if blocked {
		s.throttle(3);
	}
	s.run(preemptive)?;
	s.rec.all_complete()?;
	s.rec.check_wire(&s.link.wire())?;
	check_sent_history(&s.link, &[])?;
	if !mc::hooks::HOOKS {
		return Ok(());
	}
	check!(s.rec.ok("send_request(g2 request)"), "the ID of the finished request can not be used again");
	check!(s.rec.ok("send_update(g2 update)"), "an update for the new request fails");
	Ok(())
}

pub fn p09(c: &mut Check) {
	let (b, p) = (c.bound(4, 6), c.bound(3, 4));
	c.run_opts("threads answer one request", opts(b), |ctx| p09_responders(ctx, false, false));
	c.run_opts("threads answer one request, preemptive", opts(p), |ctx| p09_responders(ctx, true, false));
	c.run_opts("updates race with the response", opts(b), |ctx| p09_requester(ctx, false));
	c.run_opts("updates race with the response, preemptive", opts(p), |ctx| p09_requester(ctx, true));
}

// ---------------------------------------------------------------- P08

fn p08_requesters(ctx: &mut Ctx, preemptive: bool) -> Res {
	let start = [0u32, u32::MAX, u32::MAX - 1][ctx.choose(3)];
	let refuse = ctx.choose(4);
	let mut s = setup(ctx);
	let handle = s.handle.take().unwrap();
	handle.set_next_id(start);
	s.settle();
	let (read, w1) = handle.split();
	for _ in 0..refuse {
		s.link.plan(Write::Accept);
	}
	if refuse > 0 {
		s.link.plan(Write::Refuse);
	}
	for (name, w) in [("A", w1.clone()), ("B", w1.clone()), ("C", w1.clone())] {
		let rec = s.rec.clone();
		s.spawn(name, async move {
			for i in 0..2 {
				let body = format!("{name}{i}");
				if let Ok(mut h) = send!(rec, w, request, i, body) {
					// Let the counter return to the same value.
					w.set_next_id(start);
					let r = rec.op(format!("recv_response {body}"), h.recv_response()).await;
					match r {
						Ok(m) if m.body.data == body.as_bytes() => (),
						Ok(m) => rec.sched.fail(format!("request {body} got the response for {:?}", m.body.data)),
						Err(e) => rec.sched.fail(format!("no response: {e}")),
					}
				}
			}
		});
	}
	// The remote answers requests in the order in which they were sent, echoing their bodies.
	let link = s.link.clone();
	s.spawn("remote", async move {
		let mut n = 0;
		loop {
			let requests: Vec<Msg> = link.wire().into_iter().filter(|m| m.header.message_type == Request).collect();
			if n < requests.len() {
				let m = &requests[n];
				n += 1;
				yield_now().await;
				link.push(In::Msg(Msg::new(MessageHeader::response(m.header.request_id, 0), m.body.clone())));
			} else {
				link.written().wait().await;
			}
		}
	});
	s.run(preemptive)?;
	s.rec.all_complete()?;
	s.rec.check_wire(&s.link.wire())?;
	check_sent_history(&s.link, &[])?;
	drop((read, w1));
	Ok(())
}

pub fn p08(c: &mut Check) {
	let (b, p) = (c.bound(3, 4), c.bound(2, 3));
	c.run_opts("threads send requests", opts(b), |ctx| p08_requesters(ctx, false));
	c.run_opts("threads send requests, preemptive", opts(p), |ctx| p08_requesters(ctx, true));
}

// ---------------------------------------------------------------- P10

fn p10_sends(ctx: &mut Ctx, preemptive: bool) -> Res {
	let blocked = ctx.choose(2) == 1;
	let fate = ctx.choose(3);
	let at = if fate == 0 { 0 } else { ctx.choose(7) };
	let mut s = setup(ctx);
	let r = s.open_received(8);
	let q = s.open_sent();
	let qid = q.request_id();
	for _ in 0..at {
		s.link.plan(Write::Accept);
	}
	match fate {
		1 => s.link.plan(Write::Refuse),
		2 => s.link.plan(Write::Break),
		_ => (),
	}
	let (read, w1) = s.split();
	let w2 = w1.clone();
	let w3 = w1.clone();
	let rec = s.rec.clone();
	s.spawn("A", async move {
		let _ = send!(rec, w1, stream, 1, "stream 1");
		if let Ok(h) = send!(rec, w1, request, 2, "request 1") {
			let id = h.request_id();
			let _ = send!(rec, RequesterUpdate, Some(id), h, update, 3, "update on request 1");
		}
		drop(w1);
	});
	let rec = s.rec.clone();
	s.spawn("B", async move {
		let _ = send!(rec, RequesterUpdate, Some(qid), q, update, 4, "update on q");
		let _ = send!(rec, w2, stream, -7, "stream 2");
	});
	let rec = s.rec.clone();
	s.spawn("C", async move {
		let _ = send!(rec, ResponderUpdate, Some(8), r, update, 5, "update on r");
		let _ = send!(rec, Some(8), r, response, 6, "response on r");
	});
	if blocked {
		s.throttle(5);
	}
	s.run(preemptive)?;
	s.all_finished()?;
	s.rec.all_complete()?;
	let wire = s.link.wire();
	s.rec.check_wire(&wire)?;
	let failed = s.rec.ops.borrow().iter().filter(|o| o.outcome != Outcome::Ok).count();
	match fate {
		0 => check!(failed == 0, "{failed} sends failed although the transport accepted everything"),
		1 => check!(failed <= 1, "{failed} sends failed although the transport refused only one message"),
		_ => (),
	}
	if fate == 2 && s.link.with(|x| x.broken_write) {
		check!(s.sched.is_done(s.peer), "the peer does not stop after a broken write");
	}
	drop((read, w3));
	Ok(())
}

pub fn p10(c: &mut Check) {
	let (b, p) = (c.bound(4, 5), c.bound(3, 4));
	c.run_opts("threads send everything", opts(b), |ctx| p10_sends(ctx, false));
	c.run_opts("threads send everything, preemptive", opts(p), |ctx| p10_sends(ctx, true));
}

// ---------------------------------------------------------------- P11

const ENDS: [&str; 7] = ["remote closes", "read fails", "closed locally", "task dropped", "write fails", "closed with read handle", "read fails while a write is blocked"];

fn p11_end(ctx: &mut Ctx, preemptive: bool) -> Res {
	let end = ctx.choose(ENDS.len());
	ctx.log(|| format!("end: {}", ENDS[end]));
	let mut s = setup(ctx);
	let mut r = s.open_received(8);
	let mut q = s.open_sent();
	let (qid, rw, qw) = (q.request_id(), r.write_handle(), q.write_handle());
	let closer = s.handle.as_ref().unwrap().close_handle();
	let (mut read, write) = s.split();
	let (w2, w3) = (write.clone(), write.clone());
	let received: Rc<RefCell<Vec<String>>> = Default::default();
	// Receive until the end, and then some more.
	let rec = s.rec.clone();
	let log = received.clone();
	let keep_read: Rc<RefCell<Option<PeerReadHandle<StreamBody>>>> = Default::default();
	let back = keep_read.clone();
	s.spawn("receive messages", async move {
		let mut errors = 0;
		while errors < 3 {
			match rec.op("recv_message", read.recv_message()).await {
				Ok(ReceivedMessage::Stream(m)) => {
					if errors > 0 {
						rec.sched.fail("a message is delivered after the error for the end of the connection".into());
					}
					log.borrow_mut().push(String::from_utf8(m.body.data).unwrap())
				},
				Ok(x) => rec.sched.fail(format!("unexpected {x:?}")),
				Err(e) => {
					errors += 1;
					if errors >= 2 && !e.is_connection_aborted() {
						rec.sched.fail(format!("error {e:?} after the end of the connection, expected an aborted connection"));
					}
				},
			}
		}
		*back.borrow_mut() = Some(read);
	});
	let rec = s.rec.clone();
	let log = received.clone();
	s.spawn("receive on sent request", async move {
		while let Some(m) = rec.op("recv_update (sent)", q.recv_update()).await {
			log.borrow_mut().push(String::from_utf8(m.body.data).unwrap());
		}
		match rec.op("recv_response", q.recv_response()).await {
			Ok(_) => rec.sched.fail("a response that was never sent".into()),
			Err(e) if e.is_connection_aborted() => (),
			Err(e) => rec.sched.fail(format!("recv_response: {e:?}, expected an aborted connection")),
		}
	});
	let rec = s.rec.clone();
	let log = received.clone();
	s.spawn("receive on received request", async move {
		while let Some(m) = rec.op("recv_update (received)", r.recv_update()).await {
			log.borrow_mut().push(String::from_utf8(m.body.data).unwrap());
		}
		if send!(rec, ResponderUpdate, Some(8), r, update, 5, "late update on r").is_ok() {
			rec.sched.fail("a send succeeds after the end of the connection".into());
		}
	});
	let rec = s.rec.clone();
	s.spawn("send", async move {
		let _ = send!(rec, w2, stream, 1, "stream 1");
		let _ = send!(rec, RequesterUpdate, Some(qid), qw, update, 3, "update on q");
	});
	let rec = s.rec.clone();
	s.spawn("request", async move {
		if let Ok(mut h) = send!(rec, w3, request, 2, "request 1") {
			if rec.op("recv_response (request 1)", h.recv_response()).await.is_ok() {
				rec.sched.fail("a response that was never sent".into());
			}
		}
		let _ = send!(rec, Some(8), rw, response, 4, "response on r");
	});
	// The remote sends something and then the connection ends.
	let link = s.link.clone();
	let sched = s.sched.handle();
	let peer = s.peer;
	let close_with_read = end == 5;
	if end == 4 {
		let n = s.sched.ctx(|c| c.choose(3));
		for _ in 0..n {
			link.plan(Write::Accept);
		}
		link.plan(Write::Break);
	}
	if end == 6 {
		link.set_credit(Some(1));
	}
	let write4 = write.clone();
	s.spawn("remote", async move {
		link.push(In::Msg(Msg::new(MessageHeader::stream(0, 1), "in stream")));
		link.push(In::Msg(Msg::new(MessageHeader::responder_update(qid, 1), "in responder update")));
		yield_now().await;
		link.push(In::Msg(Msg::new(MessageHeader::requester_update(8, 1), "in requester update")));
		match end {
			0 => link.push(In::Eof),
			1 => link.push(In::Broken),
			2 => closer.close(),
			3 => sched.cancel(peer),
			4 => (),
			6 => {
				link.push(In::Eof);
				yield_now().await;
				// The blocked write fails or succeeds.
				let broken = sched.ctx(|c| c.choose(2)) == 1;
				if broken {
					link.with(|s| s.broken_write = true);
				}
				link.set_credit(None);
			},
			_ => {
				if close_with_read {
					write4.close();
				}
			},
		}
	});
	s.run(preemptive)?;
	s.rec.all_complete()?;
	s.all_finished()?;
	check!(s.sched.is_done(s.peer), "the peer does not stop");
	check!(s.link.dropped(), "the transport is not released");
	s.rec.check_wire(&s.link.wire())?;
	let mut got = received.borrow().clone();
	got.sort();
	let all = ["in requester update", "in responder update", "in stream"];
	let mut deduped = got.clone();
	deduped.dedup();
	check!(got == deduped, "messages were delivered more than once: {got:?}");
	check!(got.iter().all(|x| all.contains(&x.as_str())), "unexpected messages: {got:?}");
	if end <= 1 {
		// Everything that came before the end must be delivered, unless the request was answered before the update arrived.
		let answered = s.rec.ok("send_response(response on r)");
		for x in all {
			check!(got.iter().any(|g| g == x) || (answered && x == "in requester update"), "{x:?} came before the end of the connection but was not delivered");
		}
	}
	// Everything afterwards fails too.
	let rec = Rec::new(s.sched.handle());
	let r2 = rec.clone();
	s.quiet(async move {
		let _ = send!(r2, write, stream, 1, "post stream");
		let _ = send!(r2, write, request, 1, "post request");
		let w = write.clone();
		let _ = send!(r2, w, stream, 1, "post stream 2");
	});
	for o in rec.ops.borrow().iter() {
		check!(matches!(o.outcome, Outcome::Err { .. }), "{}: {:?} after the end of the connection", o.label, o.outcome);
	}
	Ok(())
}

pub fn p11(c: &mut Check) {
	let (b, p) = (c.bound(4, 5), c.bound(3, 4));
	c.run_opts("pending operations when the connection ends", opts(b), |ctx| p11_end(ctx, false));
	c.run_opts("pending operations when the connection ends, preemptive", opts(p), |ctx| p11_end(ctx, true));
}

// ---------------------------------------------------------------- P12

fn p12_handles(ctx: &mut Ctx, preemptive: bool) -> Res {
	let with_requests = ctx.choose(2) == 1;
	let blocked = ctx.choose(2) == 1;
	let mut s = setup(ctx);
	let requests = with_requests.then(|| (s.open_received(8), s.open_sent()));
	let closer = s.handle.as_ref().unwrap().close_handle();
	let live = Rc::new(Cell::new(4i32));
	let (read, w1) = s.split();
	let (w2, w3) = (w1.clone(), w1.clone());
	let done: Rc<dyn Fn() -> bool> = {
		let (sched, peer) = (s.sched.handle(), s.peer);
		Rc::new(move || sched.is_done(peer))
	};
	for (name, w) in [("A", w1), ("B", w2)] {
		let rec = s.rec.clone();
		let live = live.clone();
		s.spawn(name, async move {
			let w2 = w.clone();
			live.set(live.get() + 1);
			live.set(live.get() - 1);
			drop(w);
			yield_now().await;
			let body = format!("stream {name}");
			if send!(rec, w2, stream, 1, body).is_err() {
				rec.sched.fail("a send fails although the write handle exists and nobody closed the connection".into());
			}
			let w3 = w2.clone();
			live.set(live.get() + 1);
			live.set(live.get() - 1);
			drop(w2);
			yield_now().await;
			live.set(live.get() - 1);
			drop(w3);
		});
	}
	let l = live.clone();
	s.spawn("C", async move {
		let c2 = closer.clone();
		drop(closer);
		l.set(l.get() - 1);
		drop(w3);
		yield_now().await;
		drop(c2);
	});
	let l = live.clone();
	s.spawn("R", async move {
		yield_now().await;
		l.set(l.get() - 1);
		drop(read);
	});
	if blocked {
		s.throttle(2);
	}
	let sched = s.sched.handle();
	sched.set_preemptive(preemptive);
	let l = live.clone();
	s.sched.run(MAX_STEPS, || {
		check!(!(done() && l.get() > 0), "the peer stopped although {} handles exist", l.get());
		Ok(())
	})?;
	sched.set_preemptive(false);
	s.rec.all_complete()?;
	s.all_finished()?;
	check!(live.get() == 0, "harness: wrong count");
	check!(s.sched.is_done(s.peer), "the peer keeps running although all its handles are gone");
	check!(s.link.dropped(), "the transport is not released");
	s.rec.check_wire(&s.link.wire())?;
	drop(requests);
	Ok(())
}

pub fn p12(c: &mut Check) {
	let (b, p) = (c.bound(4, 5), c.bound(3, 4));
	c.run_opts("threads clone and drop handles", opts(b), |ctx| p12_handles(ctx, false));
	c.run_opts("threads clone and drop handles, preemptive", opts(p), |ctx| p12_handles(ctx, true));
}

// ---------------------------------------------------------------- P13

fn p13_drop_read(ctx: &mut Ctx, preemptive: bool) -> Res {
	let blocked = ctx.choose(2) == 1;
	let receive = ctx.choose(2);
	let mut s = setup(ctx);
	let old = s.open_received(50);
	let mut q = s.open_sent();
	let qid = q.request_id();
	let (mut read, write) = s.split();
	let dropped_at = Rc::new(Cell::new(u64::MAX));
	let received: Rc<RefCell<Vec<String>>> = Default::default();
	let pushed: Rc<RefCell<Vec<(u32, String, u64)>>> = Default::default();
	let (rec, d, r) = (s.rec.clone(), dropped_at.clone(), received.clone());
	s.spawn("reader", async move {
		let mut handles = Vec::new();
		for _ in 0..receive {
			if let Ok(ReceivedMessage::Request(h, b)) = read.recv_message().await {
				r.borrow_mut().push(String::from_utf8(b.data).unwrap());
				handles.push(h);
			}
		}
		drop(read);
		d.set(rec.sched.tick());
		for h in handles {
			let id = h.request_id();
			let body = format!("answer to {id}");
			let _ = send!(rec, Some(id), h, response, 4, body);
		}
	});
	let (link, p, sched) = (s.link.clone(), pushed.clone(), s.sched.handle());
	s.spawn("remote", async move {
		for (id, body) in [(1, "one"), (2, "two"), (1, "three")] {
			if body == "three" {
				on_wire(link.clone(), |m| m.header == MessageHeader::error_response(1) || (m.header.message_type == Response && m.header.request_id == 1)).await;
			}
			p.borrow_mut().push((id, body.into(), sched.tick()));
			link.push(In::Msg(Msg::new(MessageHeader::request(id, 10), body)));
			link.push(In::Msg(Msg::new(MessageHeader::stream(0, 10), "ignored")));
			yield_now().await;
		}
	});
	let rec = s.rec.clone();
	let link = s.link.clone();
	s.spawn("writer", async move {
		if send!(rec, Some(50), old, response, 4, "answer to old").is_err() {
			rec.sched.fail("a request received earlier can not be answered".into());
		}
		if send!(rec, RequesterUpdate, Some(qid), q, update, 4, "update on q").is_err() {
			rec.sched.fail("an update for a sent request fails".into());
		}
		link.push(In::Msg(Msg::new(MessageHeader::response(qid, 0), "answer to q")));
		match rec.op("recv_response", q.recv_response()).await {
			Ok(m) if m.body.data == b"answer to q" => (),
			x => rec.sched.fail(format!("the response for a sent request is {x:?}")),
		}
		if send!(rec, write, stream, 4, "stream").is_err() {
			rec.sched.fail("a stream message can not be sent".into());
		}
		// Keep the connection alive.
		std::future::pending::<()>().await;
		drop(write);
	});
	if blocked {
		s.throttle(4);
	}
	s.run(preemptive)?;
	check!(!s.sched.is_done(s.peer), "the peer stopped although a write handle exists");
	s.rec.all_complete()?;
	let wire = s.link.wire();
	s.rec.check_wire(&wire)?;
	check_received_history(&s.link)?;
	for id in [1u32, 2] {
		let pushes: Vec<_> = pushed.borrow().iter().filter(|p| p.0 == id).cloned().collect();
		let answers = wire.iter().filter(|m| m.header.request_id == id && m.header.message_type == Response).count();
		let must = pushes.iter().filter(|p| p.2 > dropped_at.get() || received.borrow().contains(&p.1)).count();
		check!(answers >= must && answers <= pushes.len(), "request {id} arrived {} times, {must} of them had to be answered, but there were {answers} answers", pushes.len());
	}
	check!(wire.iter().all(|m| m.header.request_id <= 2 || m.header.request_id == 50 || m.header.request_id == qid), "an answer for a request that never arrived");
	Ok(())
}

pub fn p13(c: &mut Check) {
	let (b, p) = (c.bound(4, 5), c.bound(3, 4));
	c.run_opts("read handle dropped by another thread", opts(b), |ctx| p13_drop_read(ctx, false));
	c.run_opts("read handle dropped by another thread, preemptive", opts(p), |ctx| p13_drop_read(ctx, true));
}

// ---------------------------------------------------------------- P07

fn p07_threads(ctx: &mut Ctx, preemptive: bool) -> Res {
	let mut s = setup(ctx);
	let (mut read, write) = s.split();
	let finished = Rc::new(Cell::new(0));
	for name in ["A", "B"] {
		let (rec, w, finished) = (s.rec.clone(), write.clone(), finished.clone());
		s.spawn(name, async move {
			let body = format!("{name}");
			let Ok(mut h) = send!(rec, w, request, 1, body) else {
				rec.sched.fail("request not sent".into());
				return;
			};
			let mut got = Vec::new();
			while let Some(m) = rec.op(format!("recv_update {name}"), h.recv_update()).await {
				got.push(String::from_utf8(m.body.data).unwrap());
			}
			match rec.op(format!("recv_response {name}"), h.recv_response()).await {
				Ok(m) => got.push(String::from_utf8(m.body.data).unwrap()),
				Err(e) => got.push(format!("{e}")),
			}
			let want = [format!("{name} update 1"), format!("{name} update 2"), format!("{name} response")];
			if got != want {
				rec.sched.fail(format!("request {name} received {got:?} instead of {want:?}"));
			}
			finished.set(finished.get() + 1);
		});
	}
	let link = s.link.clone();
	s.spawn("remote", async move {
		let a = on_wire(link.clone(), |m| m.body == b"A").await.header.request_id;
		let b = on_wire(link.clone(), |m| m.body == b"B").await.header.request_id;
		for (i, id, text) in [(0, a, "A update 1"), (0, b, "B update 1"), (2, 7, "received 7"), (2, a, "received a"), (0, b, "B update 2"), (3, a, "requester update a"), (1, b, "B response"), (0, a, "A update 2"), (3, 7, "requester update 7"), (4, 0, "stream"), (1, a, "A response"), (3, a, "requester update 2 a")] {
			let header = match i {
				0 => MessageHeader::responder_update(id, 1),
				1 => MessageHeader::response(id, 1),
				2 => MessageHeader::request(id, 1),
				3 => MessageHeader::requester_update(id, 1),
				_ => MessageHeader::stream(id, 1),
			};
			link.push(In::Msg(Msg::new(header, text)));
			yield_now().await;
		}
	});
	let rec = s.rec.clone();
	let f = finished.clone();
	s.spawn("receiver", async move {
		let mut got = Vec::new();
		let mut handles = Vec::new();
		for _ in 0..3 {
			match rec.op("recv_message", read.recv_message()).await {
				Ok(ReceivedMessage::Request(h, b)) => {
					got.push(String::from_utf8(b.data).unwrap());
					handles.push(h);
				},
				Ok(ReceivedMessage::Stream(m)) => got.push(String::from_utf8(m.body.data).unwrap()),
				Err(e) => got.push(format!("{e}")),
			}
		}
		if got != ["received 7", "received a", "stream"] {
			rec.sched.fail(format!("received {got:?}"));
			return;
		}
		let mut updates = Vec::new();
		for (i, n) in [(0, 1), (1, 2)] {
			for _ in 0..n {
				match rec.op("recv_update (received)", handles[i].recv_update()).await {
					Some(m) => updates.push(String::from_utf8(m.body.data).unwrap()),
					None => updates.push("none".into()),
				}
			}
		}
		if updates != ["requester update 7", "requester update a", "requester update 2 a"] {
			rec.sched.fail(format!("received updates {updates:?}"));
		}
		f.set(f.get() + 1);
	});
	s.run(preemptive)?;
	s.rec.all_complete()?;
	check!(finished.get() == 3, "not everything was received");
	s.rec.check_wire(&s.link.wire())?;
	Ok(())
}

pub fn p07(c: &mut Check) {
	let (b, p) = (c.bound(3, 4), c.bound(2, 3));
	c.run_opts("threads receive concurrently", opts(b), |ctx| p07_threads(ctx, false));
	c.run_opts("threads receive concurrently, preemptive", opts(p), |ctx| p07_threads(ctx, true));
}

// ---------------------------------------------------------------- P15

fn p15_cancel(ctx: &mut Ctx, preemptive: bool) -> Res {
	let victim = ctx.choose(6);
	let blocked = ctx.choose(3);
	let refuse = ctx.choose(2) == 1;
	let mut s = setup(ctx);
	let mut r = s.open_received(8);
	let rw = r.write_handle();
	let q = s.open_sent();
	let qid = q.request_id();
	let (rw_after, q_after) = (r.write_handle(), q.write_handle());
	let (mut read, write) = s.split();
	if refuse {
		let n = s.sched.ctx(|c| c.choose(4));
		for _ in 0..n {
			s.link.plan(Write::Accept);
		}
		s.link.plan(Write::Refuse);
	}
	let (rec, w) = (s.rec.clone(), write.clone());
	let names = ["request", "stream", "requester update", "responder update", "response", "error response"];
	let v = s.spawn(&format!("victim ({})", names[victim]), async move {
		match victim {
			0 => drop(send!(rec, w, request, 1, "victim")),
			1 => drop(send!(rec, w, stream, 1, "victim")),
			2 => drop(send!(rec, RequesterUpdate, Some(qid), q, update, 1, "victim")),
			3 => drop(send!(rec, ResponderUpdate, Some(8), rw, update, 1, "victim")),
			4 => drop(send!(rec, Some(8), rw, response, 1, "victim")),
			_ => drop(send!(rec, Some(8), rw, error, "victim")),
		}
	});
	let (rec, w) = (s.rec.clone(), write.clone());
	let by_done = Rc::new(Cell::new(false));
	let b = by_done.clone();
	let link = s.link.clone();
	s.spawn("bystander", async move {
		let _ = send!(rec, w, stream, 2, "bystander 1");
		if let Ok(mut h) = send!(rec, w, request, 3, "bystander request") {
			let id = h.request_id();
			// A late response for the abandoned request comes first.
			if let Some(m) = link.wire().into_iter().find(|m| m.body == b"victim" && m.header.message_type == Request) {
				link.push(In::Msg(Msg::new(MessageHeader::response(m.header.request_id, 0), "late response")));
			}
			link.push(In::Msg(Msg::new(MessageHeader::responder_update(id, 0), "bystander update")));
			link.push(In::Msg(Msg::new(MessageHeader::response(id, 0), "bystander response")));
			match rec.op("recv_update", h.recv_update()).await {
				Some(m) if m.body.data == b"bystander update" => (),
				x => rec.sched.fail(format!("bystander received {x:?} instead of its update")),
			}
			match rec.op("recv_response", h.recv_response()).await {
				Ok(m) if m.body.data == b"bystander response" => (),
				x => rec.sched.fail(format!("bystander received {x:?} instead of its response")),
			}
		} else if !refuse {
			rec.sched.fail("a send of a bystander fails".into());
		}
		b.set(true);
	});
	let (link, rec) = (s.link.clone(), s.rec.clone());
	s.spawn("receiver", async move {
		link.push(In::Msg(Msg::new(MessageHeader::requester_update(8, 0), "update 1")));
		match rec.op("recv_update (received)", r.recv_update()).await {
			Some(m) if m.body.data == b"update 1" => (),
			// The request may have been answered before.
			None if victim >= 4 => (),
			x => rec.sched.fail(format!("received {x:?} instead of update 1")),
		}
	});
	let sched = s.sched.handle();
	s.spawn("canceller", async move {
		yield_now().await;
		sched.cancel(v);
	});
	match blocked {
		1 => s.throttle(3),
		// The victim's write is blocked for long.
		2 => {
			s.link.set_credit(Some(0));
			let link = s.link.clone();
			s.spawn("drain", async move {
				for _ in 0..3 {
					yield_now().await;
				}
				link.set_credit(None);
			});
		},
		_ => (),
	}
	s.run(preemptive)?;
	s.rec.all_complete()?;
	check!(by_done.get(), "the bystander never finishes");
	check!(!s.sched.is_done(s.peer), "the peer stopped");
	s.rec.check_wire(&s.link.wire())?;
	check_received_history(&s.link)?;
	// Everything still works.
	let rec = Rec::new(s.sched.handle());
	let (r2, w, link) = (rec.clone(), write.clone(), s.link.clone());
	s.quiet(async move {
		let _ = send!(r2, w, stream, 1, "post stream");
		if let Ok(mut h) = send!(r2, w, request, 1, "post request") {
			link.push(In::Msg(Msg::new(MessageHeader::response(h.request_id(), 0), "post response")));
			let _ = r2.op("post response", h.recv_response()).await;
		}
		link.push(In::Msg(Msg::new(MessageHeader::stream(0, 77), "post in")));
		let mut n = 0;
		// A late response may be reported as an error.
		loop {
			match read.recv_message().await {
				Ok(ReceivedMessage::Stream(m)) if m.header.service_id == 77 => break,
				Err(_) if n < 2 => n += 1,
				x => {
					r2.sched.fail(format!("received {x:?}"));
					break;
				},
			}
		}
	});
	if let Some(e) = s.sched.failure() {
		fail!("{e}");
	}
	for o in rec.ops.borrow().iter() {
		let planned = s.link.with(|s| s.plan.is_empty());
		check!(o.outcome == Outcome::Ok || (refuse && !planned) || refuse, "{}: {:?} after a cancelled send", o.label, o.outcome);
	}
	// The request of the cancelled message is open exactly if it was not answered.
	s.link.with(|s| s.plan.clear());
	let answered = s.link.wire().iter().any(|m| m.header.message_type == Response && m.header.request_id == 8);
	check!(!answered || victim >= 4, "a response was transmitted that nobody sent");
	let before = s.link.wire().len();
	let (update, response) = s.quiet(async move { (q_after.send_update(6, "post update").await.is_ok(), rw_after.send_response(6, "post response").await.is_ok()) });
	check!(update, "an update can not be sent after a send was cancelled");
	check!(response != answered, "after a cancelled send: response transmitted {answered}, but sending another one succeeds: {response}");
	let after = &s.link.wire()[before..];
	let expect: Vec<_> = [(RequesterUpdate, qid)].into_iter().chain(response.then_some((Response, 8))).collect();
	check!(after.iter().map(|m| (m.header.message_type, m.header.request_id)).eq(expect), "transmitted {after:?}");
	Ok(())
}

/// Many requests whose senders give up. Their IDs are free afterwards.
fn p15_abandoned(ctx: &mut Ctx) -> Res {
	let n = [1usize, 2, 99, 100, 101, 150][ctx.choose(6)];
	let mode = ctx.choose(3);
	// The transport can refuse the request, also after its sender gave up.
	let refusal = if mode < 2 { ctx.choose(2 + mode) } else { 0 };
	let refuse = refusal > 0;
	let late = refusal == 2 || mode == 0;
	let answer = mode == 2 || ctx.choose(2) == 1;
	let start = [0u32, u32::MAX - 60][ctx.choose(2)];
	let mut s = setup(ctx);
	let (mut read, write) = s.split();
	write.set_next_id(start);
	s.settle();
	for i in 0..n {
		let w = write.clone();
		let body = format!("abandoned {i}");
		let v = s.sched.spawn("victim", async move { drop(w.send_request(1, body).await) });
		match mode {
			// Before the peer looks at it.
			0 => s.sched.poll(v),
			// While it is being written.
			1 => {
				s.link.set_credit(Some(0));
				if refuse && !late {
					s.link.plan(Write::Refuse);
				}
				s.sched.poll(v);
				s.settle();
			},
			// After it was written.
			_ => {
				s.sched.poll(v);
				s.sched.poll(s.peer);
			},
		}
		s.sched.ctx(|c| c.step());
		s.sched.cancel(v);
		if refuse && late {
			s.link.plan(Write::Refuse);
		}
		s.link.set_credit(None);
		s.settle();
		s.link.with(|s| s.plan.clear());
		check!(!s.sched.is_done(s.peer), "the peer stopped");
	}
	let wire = s.link.wire();
	check!(wire.iter().all(|m| m.body.starts_with(b"abandoned")), "something else was transmitted");
	check!(wire.len() <= n, "{} messages were transmitted for {n} requests", wire.len());
	if mode > 0 && !refuse {
		check!(wire.len() == n, "a request whose write had begun was not transmitted");
	}
	if refuse {
		check!(wire.is_empty(), "a refused request was transmitted");
	}
	if answer {
		// They may be reported as unexpected.
		for m in &wire {
			s.link.push(In::Msg(Msg::new(MessageHeader::response(m.header.request_id, 0), "late")));
			s.settle();
		}
	}
	write.set_next_id(start);
	s.settle();
	let link = s.link.clone();
	let w = write.clone();
	let result = s.quiet(async move {
		for i in 0..3 {
			let mut h = match w.send_request(2, format!("new {i}")).await {
				Ok(h) => h,
				Err(e) => return Err(format!("a request can not be sent any more after others were abandoned: {e}")),
			};
			link.push(In::Msg(Msg::new(MessageHeader::response(h.request_id(), 3), format!("answer {i}"))));
			match h.recv_response().await {
				Ok(m) if m.body.data == format!("answer {i}").as_bytes() => (),
				x => return Err(format!("received {x:?} instead of answer {i}")),
			}
		}
		link.push(In::Msg(Msg::new(MessageHeader::stream(0, 77), "end")));
		let mut errors = 0;
		loop {
			match read.recv_message().await {
				Ok(ReceivedMessage::Stream(m)) if m.header.service_id == 77 => break,
				Err(_) if errors < n => errors += 1,
				x => return Err(format!("received {x:?}")),
			}
		}
		Ok(())
	});
	if let Err(e) = result {
		fail!("{e}");
	}
	Ok(())
}

/// A receive that is dropped after a number of polls.
async fn give_up_after<F: Future>(polls: usize, fut: F) -> Option<F::Output> {
	let mut fut = Box::pin(fut);
	let mut n = 0;
	std::future::poll_fn(|cx| {
		if n >= polls {
			return std::task::Poll::Ready(None);
		}
		n += 1;
		match fut.as_mut().poll(cx) {
			std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
			std::task::Poll::Pending if n >= polls => std::task::Poll::Ready(None),
			std::task::Poll::Pending => std::task::Poll::Pending,
		}
	})
	.await
}

/// Receives are cancelled at any point while messages arrive.
fn p15_receives(ctx: &mut Ctx, preemptive: bool) -> Res {
	const POLLS: usize = 4;
	// The first two attempts of every receive are cancelled after this many polls.
	let first = 1 + ctx.choose(POLLS);
	let second = ctx.choose(POLLS);
	let mut s = setup(ctx);
	let mut r = s.open_received(8);
	let mut q = s.open_sent();
	let qid = q.request_id();
	let (mut read, write) = s.split();
	let finished = Rc::new(Cell::new(0));
	macro_rules! receive {
		($fut:expr) => {{
			let mut x = give_up_after(first, $fut).await;
			if x.is_none() && second > 0 {
				x = give_up_after(second, $fut).await;
			}
			match x {
				Some(x) => x,
				None => $fut.await,
			}
		}};
	}
	let (sched, f) = (s.sched.handle(), finished.clone());
	s.spawn("messages", async move {
		for i in 0..3 {
			match receive!(read.recv_message()) {
				Ok(ReceivedMessage::Stream(m)) if m.header.service_id == i && i != 1 => (),
				Ok(ReceivedMessage::Request(h, b)) if i == 1 && h.request_id() == 9 && b.data == b"request" => (),
				x => sched.fail(format!("message {i}: received {x:?}")),
			}
		}
		f.set(f.get() + 1);
		std::future::pending::<()>().await;
		drop((read, write));
	});
	let (sched, f) = (s.sched.handle(), finished.clone());
	s.spawn("sent request", async move {
		for i in 0..2 {
			match receive!(q.recv_update()) {
				Some(m) if m.header.service_id == i => (),
				x => sched.fail(format!("update {i}: received {x:?}")),
			}
		}
		match receive!(q.recv_response()) {
			Ok(m) if m.header.service_id == 5 => (),
			x => sched.fail(format!("response: received {x:?}")),
		}
		f.set(f.get() + 1);
	});
	let (sched, f) = (s.sched.handle(), finished.clone());
	s.spawn("received request", async move {
		for i in 0..2 {
			match receive!(r.recv_update()) {
				Some(m) if m.header.service_id == i => (),
				x => sched.fail(format!("update {i} of the received request: received {x:?}")),
			}
		}
		f.set(f.get() + 1);
	});
	let link = s.link.clone();
	s.spawn("remote", async move {
		for (header, body) in [
			(MessageHeader::stream(0, 0), "stream"),
			(MessageHeader::responder_update(qid, 0), "update"),
			(MessageHeader::requester_update(8, 0), "update"),
			(MessageHeader::request(9, 0), "request"),
			(MessageHeader::responder_update(qid, 1), "update"),
			(MessageHeader::requester_update(8, 1), "update"),
			(MessageHeader::response(qid, 5), "response"),
			(MessageHeader::stream(0, 2), "stream"),
		] {
			link.push(In::Msg(Msg::new(header, body)));
			yield_now().await;
		}
	});
	s.run(preemptive)?;
	check!(finished.get() == 3, "a receive never completes after earlier attempts were cancelled");
	Ok(())
}

pub fn p15(c: &mut Check) {
	c.run("many abandoned requests", p15_abandoned);
	let (b, p) = (c.bound(3, 4), c.bound(2, 3));
	c.run_opts("receives cancelled after any number of polls", opts(b), |ctx| p15_receives(ctx, false));
	c.run_opts("receives cancelled after any number of polls, preemptive", opts(p), |ctx| p15_receives(ctx, true));
	let (b, p) = (c.bound(3, 4), c.bound(2, 3));
	c.run_opts("sends cancelled at any point", opts(b), |ctx| p15_cancel(ctx, false));
	c.run_opts("sends cancelled at any point, preemptive", opts(p), |ctx| p15_cancel(ctx, true));
}

// ---------------------------------------------------------------- P20

pub fn p20(c: &mut Check) {
	let (b, p) = (c.bound(3, 5), c.bound(2, 3));
	c.run_opts("threads answer one request, one message is refused", opts(b), |ctx| p09_responders(ctx, false, true));
	c.run_opts("threads answer one request, one message is refused, preemptive", opts(p), |ctx| p09_responders(ctx, true, true));
}

// ---------------------------------------------------------------- P14

struct Side {
	read: PeerReadHandle<StreamBody>,
	write: PeerWriteHandle<StreamBody>,
	link: Link,
}

/// Two peers that flood each other over a link with little buffer space.
fn p14_flood(ctx: &mut Ctx, capacity: usize, preemptive: bool, senders: usize) -> Res {
	let sched = Sched::with_policies(ctx, false);
	let (la, lb) = Link::pair(Some(capacity));
	let mut sides = Vec::new();
	for (name, link) in [("peer a", la), ("peer b", lb)] {
		let (peer, handle) = Peer::<MockTransport>::new(link.transport());
		sched.spawn(name, peer.run());
		let (read, write) = handle.split();
		sides.push(Side { read, write, link });
	}
	let rec = Rec::new(sched.handle());
	let sent = Event::new();
	let left = Rc::new(Cell::new(2 * senders));
	let finished = Rc::new(Cell::new(0));
	let n = 3;
	for (i, side) in sides.into_iter().enumerate() {
		let me = ["a", "b"][i];
		for k in 0..senders {
			let (rec, w, left, sent) = (rec.clone(), side.write.clone(), left.clone(), sent.clone());
			sched.spawn(format!("sender {me}{k}"), async move {
				for j in 0..n {
					let body = format!("{me}{k} {j}");
					if j == 1 {
						match send!(rec, w, request, 1, body) {
							Ok(h) => {
								let id = h.request_id();
								let body = format!("{me}{k} update");
								if send!(rec, RequesterUpdate, Some(id), h, update, 1, body).is_err() {
									rec.sched.fail("a send fails".into());
								}
							},
							Err(e) => rec.sched.fail(format!("a send fails: {e}")),
						}
					} else if send!(rec, w, stream, 1, body).is_err() {
						rec.sched.fail("a send fails".into());
					}
				}
				left.set(left.get() - 1);
				sent.notify();
			});
		}
		// Receive only after everything was sent.
		let (left, sent, finished, rec) = (left.clone(), sent.clone(), finished.clone(), rec.clone());
		let other = ["b", "a"][i];
		sched.spawn(format!("receiver {me}"), async move {
			let Side { mut read, write, link } = side;
			mc::sched::until(|| left.get() == 0, sent).await;
			let mut got: Vec<String> = Vec::new();
			let mut handles = Vec::new();
			for _ in 0..senders * n {
				match read.recv_message().await {
					Ok(ReceivedMessage::Request(mut h, b)) => {
						got.push(String::from_utf8(b.data).unwrap());
						match h.recv_update().await {
							Some(m) if m.body.data.starts_with(&got.last().unwrap().as_bytes()[..2]) => (),
							x => rec.sched.fail(format!("request received the update {x:?}")),
						}
						handles.push(h);
					},
					Ok(ReceivedMessage::Stream(m)) => got.push(String::from_utf8(m.body.data).unwrap()),
					Err(e) => {
						rec.sched.fail(format!("receive: {e}"));
						return;
					},
				}
			}
			for k in 0..senders {
				let mine: Vec<_> = got.iter().filter(|m| m.starts_with(&format!("{other}{k} "))).cloned().collect();
				let want: Vec<_> = (0..n).map(|j| format!("{other}{k} {j}")).collect();
				if mine != want {
					rec.sched.fail(format!("received {mine:?} instead of {want:?}"));
				}
			}
			finished.set(finished.get() + 1);
			// Keep the connection open until both are finished.
			if finished.get() < 2 {
				std::future::pending::<()>().await;
			}
			drop((write, link));
		});
	}
	sched.set_preemptive(preemptive);
	sched.run(MAX_STEPS, || Ok(()))?;
	sched.set_preemptive(false);
	rec.all_complete()?;
	check!(left.get() == 0, "senders never finish: deadlock");
	check!(finished.get() == 2, "not everything was received");
	Ok(())
}

/// One peer that can not write must still read.
fn p14_blocked_writer(ctx: &mut Ctx, preemptive: bool) -> Res {
	let mut s = setup(ctx);
	let mut q = s.open_sent();
	let qid = q.request_id();
	let (mut read, write) = s.split();
	s.link.set_credit(Some(0));
	let rec = s.rec.clone();
	s.spawn("sender", async move {
		let _ = send!(rec, write, stream, 1, "blocked 1");
		let _ = send!(rec, write, stream, 1, "blocked 2");
		std::future::pending::<()>().await;
	});
	let link = s.link.clone();
	s.spawn("remote", async move {
		// The remote reads only after everything it sent was taken.
		for i in 0..3 {
			link.push(In::Msg(Msg::new(MessageHeader::stream(0, i), "in")));
			link.push(In::Msg(Msg::new(MessageHeader::responder_update(qid, i), "update")));
			yield_now().await;
		}
		loop {
			if link.with(|s| s.incoming.is_empty()) {
				break;
			}
			link.taken().wait().await;
		}
		link.set_credit(None);
	});
	let rec = s.rec.clone();
	s.spawn("receiver", async move {
		for i in 0..3 {
			match rec.op("recv_message", read.recv_message()).await {
				Ok(ReceivedMessage::Stream(m)) if m.header.service_id == i => (),
				x => rec.sched.fail(format!("received {x:?}")),
			}
		}
		for _ in 0..3 {
			if rec.op("recv_update", q.recv_update()).await.is_none() {
				rec.sched.fail("no update".into());
			}
		}
		std::future::pending::<()>().await;
		drop(read);
	});
	s.run(preemptive)?;
	s.rec.all_complete()?;
	check!(s.rec.ok("send_stream(blocked 2)"), "the blocked sends do not complete");
	s.rec.check_wire(&s.link.wire())
}

pub fn p14(c: &mut Check) {
	let (b, p) = (c.bound(3, 4), c.bound(2, 3));
	c.run_opts("peers flood each other, capacity 1", opts(b), |ctx| p14_flood(ctx, 1, false, 1));
	c.run_opts("peers flood each other, capacity 1, preemptive", opts(p), |ctx| p14_flood(ctx, 1, true, 1));
	c.run_opts("peers with two senders each, capacity 2", opts(p), |ctx| p14_flood(ctx, 2, false, 2));
	c.run_opts("a blocked writer keeps reading", opts(b), |ctx| p14_blocked_writer(ctx, false));
	c.run_opts("a blocked writer keeps reading, preemptive", opts(p), |ctx| p14_blocked_writer(ctx, true));
}
