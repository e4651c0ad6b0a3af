//! Operation sequences on one real peer over a mock transport, compared step by step with a reference model.
//!
//! After every operation all tasks run until nothing can proceed any more. A receive that is pending then is
//! cancelled. Everything an application or the remote peer can observe is compared with the model.

use crate::exec::{Exec, TaskId};
use crate::explore::{Ctx, Fail, Res};
use crate::hooks::SetNextId;
use crate::mock::{In, Link, MockTransport, Msg, Write};
use crate::{check, fail};
use fizyr_rpc::{
	Error, MessageHeader, MessageType, Peer, PeerCloseHandle, PeerHandle, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle,
	ReceivedRequestWriteHandle, SentRequestHandle, SentRequestWriteHandle, StreamBody,
};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Op {
	// Local operations on the peer handles.
	SendReq,
	SendStream,
	Recv,
	DropWhole,
	DropRead,
	DropWrite,
	CloneWrite,
	CloseRead,
	CloseWrite,
	MakeCloser,
	UseCloser,
	DropCloser,
	// Operations on sent requests, by index.
	SUpd(usize),
	SRecvU(usize),
	SRecvR(usize),
	SDrop(usize),
	SWh(usize),
	SWhUpd(usize),
	SWhDrop(usize),
	// Operations on received requests, by index.
	RUpd(usize),
	RResp(usize),
	RErr(usize),
	RRecvU(usize),
	RDrop(usize),
	RWh(usize),
	RWhUpd(usize),
	RWhResp(usize),
	RWhErr(usize),
	RWhDrop(usize),
	// Incoming messages.
	/// A request with this ID.
	InReq(u32),
	InStream,
	/// Response to / update for the n-th sent request, whatever state it is in.
	InResp(usize),
	InRespUpd(usize),
	/// Update for a request with this ID.
	InReqUpd(u32),
	/// Messages with an ID that was never used.
	InRespUnknown,
	InRespUpdUnknown,
	InReqUpdUnknown,
	/// Response/responder update with the ID of a received request (wrong direction unless the ID is also that of a sent request).
	InRespId(u32),
	InRespUpdId(u32),
	InRefused,
	InEof,
	InBroken,
	/// Let the counter for request IDs jump to this value (as it does when it wraps around).
	Jump(u32),
	// Fate of the next write.
	PlanRefuse,
	PlanBreak,
}

/// A service ID that depends on a counter, with the extreme values.
fn service_id(n: u32) -> i32 {
	[7, -1, 0, i32::MIN, i32::MAX, 1, -2][n as usize % 7]
}

/// A body that is different for every message.
fn body(n: u32) -> Vec<u8> {
	match n % 5 {
		0 => format!("b{n}").into_bytes(),
		1 => vec![n as u8],
		2 => vec![0, n as u8, 0xff],
		3 => {
			let mut b = vec![n as u8; 40];
			b[0] = 0xfe;
			b
		},
		_ => vec![n as u8, (n >> 8) as u8, 0x80, 0],
	}
}

#[derive(Debug, Clone)]
enum Want {
	Exact(Msg),
	AnyBody(MessageHeader),
}

#[derive(Debug, Clone)]
enum MIn {
	Request(usize, Msg),
	Stream(Msg),
	Error { aborted: Option<bool> },
	/// An error may or may not be reported here.
	MaybeError,
}

struct MSent {
	id: u32,
	sid: i32,
	open: bool,
	queue: VecDeque<Msg>,
}

struct MRecv {
	id: u32,
	sid: i32,
	open: bool,
	queue: VecDeque<Msg>,
	/// The handle exists, either in the queue of incoming messages or at the application.
	alive: bool,
	/// The handle is at the application.
	received: bool,
}

struct Sent {
	h: Option<SentRequestHandle<StreamBody>>,
	wh: Vec<SentRequestWriteHandle<StreamBody>>,
}

struct Received {
	h: Option<ReceivedRequestHandle<StreamBody>>,
	wh: Vec<ReceivedRequestWriteHandle<StreamBody>>,
}

pub struct World {
	exec: Exec,
	link: Link,
	task: TaskId,
	whole: Option<PeerHandle<StreamBody>>,
	read: Option<PeerReadHandle<StreamBody>>,
	writes: Vec<PeerWriteHandle<StreamBody>>,
	closers: Vec<PeerCloseHandle<StreamBody>>,
	sent: Vec<Sent>,
	recv: Vec<Received>,
	// Model.
	m_sent: Vec<MSent>,
	m_recv: Vec<MRecv>,
	m_incoming: VecDeque<MIn>,
	m_wire: Vec<Want>,
	m_plan: VecDeque<Write>,
	running: bool,
	n: u32,
	in_epilogue: bool,
	/// Cancel every receive after this many polls, and then try again.
	cancel: usize,
	/// No limits for the number of handles.
	many: bool,
	/// How much of what was transmitted has been compared.
	compared: usize,
}

/// Result of a receive operation.
pub enum Got<T> {
	Pending,
	Ready(T),
}

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) {
		self.0.store(true, Ordering::Relaxed);
	}
}

const SETTLE_LIMIT: u64 = 20_000;

/// Drive a future and all tasks until nothing can proceed.
pub fn drive<F: Future>(exec: &mut Exec, fut: F) -> Res<Got<F::Output>> {
	let flag = Arc::new(Flag(AtomicBool::new(false)));
	let waker = Waker::from(flag.clone());
	let mut cx = Context::from_waker(&waker);
	let mut fut = pin!(fut);
	for _ in 0..1000 {
		flag.0.store(false, Ordering::Relaxed);
		if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) {
			check!(exec.settle(SETTLE_LIMIT), "livelock: tasks never come to rest");
			return Ok(Got::Ready(x));
		}
		check!(exec.settle(SETTLE_LIMIT), "livelock: tasks never come to rest");
		if !flag.0.load(Ordering::Relaxed) {
			return Ok(Got::Pending);
		}
	}
	fail!("livelock: an operation is woken again and again without completing");
}

/// Poll a future a few times and then drop it, if it is still pending.
fn give_up<F: Future>(exec: &mut Exec, polls: usize, fut: F) -> Res<Option<F::Output>> {
	let flag = Arc::new(Flag(AtomicBool::new(false)));
	let waker = Waker::from(flag.clone());
	let mut cx = Context::from_waker(&waker);
	{
		let mut fut = pin!(fut);
		for _ in 0..polls {
			if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) {
				return Ok(Some(x));
			}
		}
	}
	check!(exec.settle(SETTLE_LIMIT), "livelock: tasks never come to rest");
	Ok(None)
}

/// Perform a receive, after an attempt that is cancelled.
macro_rules! receive {
	($world:expr, $fut:expr) => {
		match give_up(&mut $world.exec, $world.cancel, $fut)? {
			Some(x) => Got::Ready(x),
			None => drive(&mut $world.exec, $fut)?,
		}
	};
}

fn show_err(e: &Error) -> String {
	format!("error {:?} (aborted={}, unexpected_type={})", e.to_string(), e.is_connection_aborted(), e.is_unexpected_message_type())
}

impl World {
	pub fn new() -> Self {
		let link = Link::new();
		let (peer, handle) = Peer::<MockTransport>::new(link.transport());
		let mut exec = Exec::new();
		let task = exec.spawn("peer", peer.run());
		Self {
			exec,
			link,
			task,
			whole: Some(handle),
			read: None,
			writes: Vec::new(),
			closers: Vec::new(),
			sent: Vec::new(),
			recv: Vec::new(),
			m_sent: Vec::new(),
			m_recv: Vec::new(),
			m_incoming: VecDeque::new(),
			m_wire: Vec::new(),
			m_plan: VecDeque::new(),
			running: true,
			n: 0,
			in_epilogue: false,
			cancel: 0,
			many: false,
			compared: 0,
		}
	}

	pub fn running(&self) -> bool {
		self.running
	}

	pub fn num_sent(&self) -> usize {
		self.sent.len()
	}

	pub fn num_recv(&self) -> usize {
		self.recv.len()
	}

	fn ensure_split(&mut self) {
		if let Some(h) = self.whole.take() {
			let (r, w) = h.split();
			self.read = Some(r);
			self.writes.push(w);
		}
	}

	fn read_alive(&self) -> bool {
		self.whole.is_some() || self.read.is_some()
	}

	fn write_alive(&self) -> bool {
		self.whole.is_some() || !self.writes.is_empty()
	}

	/// Can this operation be performed in the current state?
	pub fn enabled(&self, op: Op) -> bool {
		use Op::*;
		match op {
			SendReq | SendStream | CloseWrite => self.write_alive(),
			Recv | CloseRead => self.read_alive(),
			DropWhole => self.whole.is_some(),
			DropRead => self.read_alive(),
			DropWrite => self.write_alive(),
			CloneWrite => self.write_alive() && (self.many || self.writes.len() < 3),
			MakeCloser => (self.read_alive() || self.write_alive()) && (self.many || self.closers.len() < 2),
			UseCloser | DropCloser => !self.closers.is_empty(),
			SUpd(k) | SRecvU(k) | SRecvR(k) | SDrop(k) => self.sent.get(k).is_some_and(|s| s.h.is_some()),
			SWh(k) => self.sent.get(k).is_some_and(|s| s.h.is_some() && (self.many || s.wh.len() < 2)),
			SWhUpd(k) | SWhDrop(k) => self.sent.get(k).is_some_and(|s| !s.wh.is_empty()),
			RUpd(k) | RResp(k) | RErr(k) | RRecvU(k) | RDrop(k) => self.recv.get(k).is_some_and(|s| s.h.is_some()),
			RWh(k) => self.recv.get(k).is_some_and(|s| s.h.is_some() && (self.many || s.wh.len() < 2)),
			RWhUpd(k) | RWhResp(k) | RWhErr(k) | RWhDrop(k) => self.recv.get(k).is_some_and(|s| !s.wh.is_empty()),
			// It is not specified whether the ID of a request that can not be answered any more is still in use.
			InReq(id) => {
				self.running
					&& !self.m_recv.iter().enumerate().any(|(k, r)| {
						r.id == id && r.open && !r.alive && self.recv.get(k).map_or(true, |x| x.wh.is_empty())
					})
			},
			InResp(k) | InRespUpd(k) => self.running && k < self.sent.len(),
			InStream | InReqUpd(_) | InRespUnknown | InRespUpdUnknown | InReqUpdUnknown | InRespId(_) | InRespUpdId(_) | InRefused | InEof | InBroken => self.running,
			Jump(_) => self.running && self.write_alive(),
			PlanRefuse | PlanBreak => self.running && self.m_plan.is_empty(),
		}
	}

	fn next(&mut self) -> (i32, Vec<u8>) {
		self.n += 1;
		(service_id(self.n), body(self.n))
	}

	/// The model's answer for a message that is to be written.
	fn m_write(&mut self, want: Want) -> Write {
		let w = self.m_plan.pop_front().unwrap_or(Write::Accept);
		match w {
			Write::Accept => self.m_wire.push(want),
			Write::Refuse => (),
			Write::Break => self.m_end(),
		}
		w
	}

	fn m_end(&mut self) {
		self.running = false;
	}

	fn m_error(&mut self) {
		if self.read_alive() {
			self.m_incoming.push_back(MIn::Error { aborted: Some(false) });
		}
	}

	fn inject(&mut self, ctx: &mut Ctx, header: MessageHeader) -> Res {
		self.n += 1;
		let msg = Msg::new(header, body(self.n));
		ctx.log(|| format!("remote sends {}", msg.short()));
		self.link.push(In::Msg(msg.clone()));
		let id = header.request_id;
		match header.message_type {
			MessageType::Request => {
				if self.m_recv.iter().any(|r| r.open && r.id == id) {
					self.m_error();
				} else if self.read_alive() {
					self.m_recv.push(MRecv { id, sid: header.service_id, open: true, queue: VecDeque::new(), alive: true, received: false });
					self.recv.push(Received { h: None, wh: Vec::new() });
					self.m_incoming.push_back(MIn::Request(self.m_recv.len() - 1, msg));
				} else {
					// If even the error can not be sent the connection is closed.
					let w = self.m_write(Want::AnyBody(MessageHeader::error_response(id)));
					if w != Write::Accept {
						self.m_end();
					}
				}
			},
			MessageType::Response => match self.m_sent.iter().position(|s| s.open && s.id == id) {
				Some(k) => {
					self.m_sent[k].open = false;
					self.m_sent[k].queue.push_back(msg);
				},
				None => self.m_error(),
			},
			MessageType::ResponderUpdate => match self.m_sent.iter().position(|s| s.open && s.id == id) {
				Some(k) => {
					if self.sent[k].h.is_some() {
						self.m_sent[k].queue.push_back(msg)
					} else if self.read_alive() {
						self.m_incoming.push_back(MIn::MaybeError)
					}
				},
				None => self.m_error(),
			},
			MessageType::RequesterUpdate => match self.m_recv.iter().position(|s| s.open && s.id == id) {
				Some(k) => {
					if self.m_recv[k].alive {
						self.m_recv[k].queue.push_back(msg)
					} else if self.read_alive() {
						self.m_incoming.push_back(MIn::MaybeError)
					}
				},
				None => self.m_error(),
			},
			MessageType::Stream => {
				if self.read_alive() {
					self.m_incoming.push_back(MIn::Stream(msg));
				}
			},
		}
		self.settle()
	}

	fn settle(&mut self) -> Res {
		check!(self.exec.settle(SETTLE_LIMIT), "livelock: tasks never come to rest");
		Ok(())
	}

	/// Compare the result of a send.
	fn expect_send(&mut self, ctx: &mut Ctx, what: &str, got: Got<Result<(), Error>>, want_ok: bool, refused: bool) -> Res {
		match got {
			Got::Pending => fail!("{what}: does not complete, expected {}", if want_ok { "success" } else { "an error" }),
			Got::Ready(Ok(())) => {
				ctx.log(|| format!("{what}: ok"));
				ctx.observe(b"ok");
				check!(want_ok, "{what}: reports success, expected an error");
			},
			Got::Ready(Err(e)) => {
				ctx.log(|| format!("{what}: {}", show_err(&e)));
				ctx.observe(b"err");
				check!(!want_ok, "{what}: {}, expected success", show_err(&e));
				if refused {
					check!(!e.is_connection_aborted(), "{what}: reports an aborted connection although the message was merely refused");
				}
			},
		}
		Ok(())
	}

	/// The model part of sending an update or response on a request.
	fn m_request_send(&mut self, open: bool, want: Want) -> (bool, bool) {
		if !self.running || !open {
			return (false, false);
		}
		let w = self.m_write(want);
		(w == Write::Accept, w == Write::Refuse)
	}

	fn sent_update(&mut self, ctx: &mut Ctx, k: usize, via_write_handle: bool) -> Res {
		let (sid, body) = self.next();
		let open = self.m_sent[k].open;
		let want = Want::Exact(Msg::new(MessageHeader::requester_update(self.m_sent[k].id, sid), body.clone()));
		let (ok, refused) = self.m_request_send(open, want);
		let slot = &self.sent[k];
		let got = if via_write_handle {
			drive(&mut self.exec, slot.wh.last().unwrap().send_update(sid, body))?
		} else {
			drive(&mut self.exec, slot.h.as_ref().unwrap().send_update(sid, body))?
		};
		self.expect_send(ctx, &format!("send update on sent request {k}"), got, ok, refused)
	}

	fn received_send(&mut self, ctx: &mut Ctx, k: usize, via_write_handle: bool, kind: u8) -> Res {
		let (sid, body) = self.next();
		let open = self.m_recv[k].open;
		let id = self.m_recv[k].id;
		let text = format!("error \u{e9} {}", self.n);
		let (want, name) = match kind {
			0 => (Want::Exact(Msg::new(MessageHeader::responder_update(id, sid), body.clone())), "update"),
			1 => (Want::Exact(Msg::new(MessageHeader::response(id, sid), body.clone())), "response"),
			_ => (Want::Exact(Msg::new(MessageHeader::response(id, -1), text.clone().into_bytes())), "error response"),
		};
		let (ok, refused) = self.m_request_send(open, want);
		if ok && kind != 0 {
			self.m_recv[k].open = false;
		}
		let slot = &self.recv[k];
		let got = match (via_write_handle, kind) {
			(true, 0) => drive(&mut self.exec, slot.wh.last().unwrap().send_update(sid, body))?,
			(true, 1) => drive(&mut self.exec, slot.wh.last().unwrap().send_response(sid, body))?,
			(true, _) => drive(&mut self.exec, slot.wh.last().unwrap().send_error_response(&text))?,
			(false, 0) => drive(&mut self.exec, slot.h.as_ref().unwrap().send_update(sid, body))?,
			(false, 1) => drive(&mut self.exec, slot.h.as_ref().unwrap().send_response(sid, body))?,
			(false, _) => drive(&mut self.exec, slot.h.as_ref().unwrap().send_error_response(&text))?,
		};
		self.expect_send(ctx, &format!("send {name} on received request {k}"), got, ok, refused)
	}

	fn drop_read(&mut self) {
		self.ensure_split();
		self.read = None;
		// The requests that were not received yet are gone with the queue.
		for x in std::mem::take(&mut self.m_incoming) {
			if let MIn::Request(k, _) = x {
				self.m_recv[k].alive = false;
			}
		}
		if self.running && self.writes.is_empty() {
			self.m_end();
		}
	}

	/// Perform one operation and compare everything with the model.
	pub fn apply(&mut self, ctx: &mut Ctx, op: Op) -> Res {
		use Op::*;
		ctx.step();
		ctx.log(|| format!("{op:?}"));
		match op {
			SendReq => {
				let (sid, body) = self.next();
				let got = match &self.whole {
					Some(h) => drive(&mut self.exec, h.send_request(sid, body.clone()))?,
					None => drive(&mut self.exec, self.writes[0].send_request(sid, body.clone()))?,
				};
				let w = if self.running { self.m_plan.pop_front().unwrap_or(Write::Accept) } else { Write::Break };
				match (got, w) {
					(Got::Pending, _) => fail!("send request: does not complete"),
					(Got::Ready(Ok(h)), Write::Accept) => {
						let id = h.request_id();
						ctx.log(|| format!("request sent with ID {id}"));
						ctx.observe(&id.to_le_bytes());
						check!(h.service_id() == sid, "handle of sent request has service ID {} instead of {sid}", h.service_id());
						check!(
							!self.m_sent.iter().any(|s| s.open && s.id == id),
							"new request got ID {id}, which is in use by another open request"
						);
						self.m_wire.push(Want::Exact(Msg::new(MessageHeader::request(id, sid), body)));
						self.m_sent.push(MSent { id, sid, open: true, queue: VecDeque::new() });
						self.sent.push(Sent { h: Some(h), wh: Vec::new() });
					},
					(Got::Ready(Ok(_)), _) => fail!("send request: reports success, expected an error"),
					(Got::Ready(Err(e)), Write::Accept) => fail!("send request: {}, expected success", show_err(&e)),
					(Got::Ready(Err(e)), w) => {
						ctx.log(|| show_err(&e));
						if w == Write::Refuse {
							check!(!e.is_connection_aborted(), "send request: reports an aborted connection although the message was merely refused");
						}
						if w == Write::Break {
							self.m_end();
						}
					},
				}
			},
			SendStream => {
				let (sid, body) = self.next();
				let got = match &self.whole {
					Some(h) => drive(&mut self.exec, h.send_stream(sid, body.clone()))?,
					None => drive(&mut self.exec, self.writes.last().unwrap().send_stream(sid, body.clone()))?,
				};
				let w = if self.running { self.m_write(Want::Exact(Msg::new(MessageHeader::stream(0, sid), body))) } else { Write::Break };
				self.expect_send(ctx, "send stream message", got, w == Write::Accept, w == Write::Refuse)?;
			},
			Recv => self.recv_message(ctx)?,
			DropWhole => {
				let h = self.whole.take();
				drop(h);
				self.drop_read();
				if self.running && self.writes.is_empty() {
					self.m_end();
				}
				self.settle()?;
			},
			DropRead => {
				self.drop_read();
				self.settle()?;
			},
			DropWrite => {
				self.ensure_split();
				self.writes.pop();
				if self.running && self.writes.is_empty() && self.read.is_none() {
					self.m_end();
				}
				self.settle()?;
			},
			CloneWrite => {
				self.ensure_split();
				let w = self.writes[0].clone();
				check!(w.same_peer(&self.writes[0]), "clone of a write handle does not belong to the same peer");
				self.writes.push(w);
				self.settle()?;
			},
			CloseRead => {
				match self.whole.take() {
					Some(h) => {
						h.close();
						self.drop_read();
					},
					None => self.read.as_ref().unwrap().close(),
				}
				self.m_end();
				self.settle()?;
			},
			CloseWrite => {
				self.ensure_split();
				self.writes[0].close();
				self.m_end();
				self.settle()?;
			},
			MakeCloser => {
				let c = match (&self.whole, &self.read) {
					(Some(h), _) => h.close_handle(),
					(None, Some(r)) if self.closers.is_empty() => r.close_handle(),
					(None, r) => match self.writes.first() {
						Some(w) => w.close_handle(),
						None => r.as_ref().unwrap().close_handle(),
					},
				};
				self.closers.push(c);
				self.settle()?;
			},
			UseCloser => {
				self.closers[0].clone().close();
				self.m_end();
				self.settle()?;
			},
			DropCloser => {
				self.closers.pop();
				self.settle()?;
			},
			SUpd(k) => self.sent_update(ctx, k, false)?,
			SWhUpd(k) => self.sent_update(ctx, k, true)?,
			SWh(k) => {
				let wh = self.sent[k].h.as_ref().unwrap().write_handle();
				// Also clone, to cover clones of write handles.
				let wh = wh.clone();
				check!(wh.request_id() == self.m_sent[k].id && wh.service_id() == self.m_sent[k].sid, "write handle of sent request has wrong IDs");
				self.sent[k].wh.push(wh);
			},
			SWhDrop(k) => {
				self.sent[k].wh.pop();
				self.settle()?;
			},
			SDrop(k) => {
				self.sent[k].h = None;
				self.settle()?;
			},
			SRecvU(k) => self.sent_recv_update(ctx, k)?,
			SRecvR(k) => self.sent_recv_response(ctx, k)?,
			RUpd(k) => self.received_send(ctx, k, false, 0)?,
			RResp(k) => self.received_send(ctx, k, false, 1)?,
			RErr(k) => self.received_send(ctx, k, false, 2)?,
			RWhUpd(k) => self.received_send(ctx, k, true, 0)?,
			RWhResp(k) => self.received_send(ctx, k, true, 1)?,
			RWhErr(k) => self.received_send(ctx, k, true, 2)?,
			RWh(k) => {
				let wh = self.recv[k].h.as_ref().unwrap().write_handle().clone();
				check!(wh.request_id() == self.m_recv[k].id && wh.service_id() == self.m_recv[k].sid, "write handle of received request has wrong IDs");
				self.recv[k].wh.push(wh);
			},
			RWhDrop(k) => {
				self.recv[k].wh.pop();
				self.settle()?;
			},
			RDrop(k) => {
				self.recv[k].h = None;
				self.m_recv[k].alive = false;
				self.settle()?;
			},
			RRecvU(k) => self.received_recv_update(ctx, k)?,
			InReq(id) => {
				let sid = service_id(self.n + 1);
				self.inject(ctx, MessageHeader::request(id, sid))?
			},
			InStream => {
				let sid = service_id(self.n + 1);
				let id = self.n % 3;
				self.inject(ctx, MessageHeader::stream(id, sid))?
			},
			InResp(k) => {
				let sid = service_id(self.n + 1);
				let id = self.m_sent[k].id;
				self.inject(ctx, MessageHeader::response(id, sid))?
			},
			InRespUpd(k) => {
				let sid = service_id(self.n + 1);
				let id = self.m_sent[k].id;
				self.inject(ctx, MessageHeader::responder_update(id, sid))?
			},
			InRespId(id) => {
				let sid = service_id(self.n + 1);
				self.inject(ctx, MessageHeader::response(id, sid))?
			},
			InRespUpdId(id) => {
				let sid = service_id(self.n + 1);
				self.inject(ctx, MessageHeader::responder_update(id, sid))?
			},
			InReqUpd(id) => {
				let sid = service_id(self.n + 1);
				self.inject(ctx, MessageHeader::requester_update(id, sid))?
			},
			InRespUnknown => self.inject(ctx, MessageHeader::response(0x7000_0001, 3))?,
			InRespUpdUnknown => self.inject(ctx, MessageHeader::responder_update(0x7000_0002, 3))?,
			InReqUpdUnknown => self.inject(ctx, MessageHeader::requester_update(0x7000_0003, 3))?,
			InRefused => {
				self.link.push(In::Refused);
				self.m_error();
				self.settle()?;
			},
			InEof => {
				self.link.push(In::Eof);
				if self.read_alive() {
					self.m_incoming.push_back(MIn::Error { aborted: Some(true) });
				}
				self.m_end();
				self.settle()?;
			},
			InBroken => {
				self.link.push(In::Broken);
				if self.read_alive() {
					self.m_incoming.push_back(MIn::Error { aborted: Some(false) });
				}
				self.m_end();
				self.settle()?;
			},
			Jump(id) => {
				match &self.whole {
					Some(h) => h.set_next_id(id),
					None => self.writes[0].set_next_id(id),
				}
				self.settle()?;
			},
			PlanRefuse => {
				self.link.plan(Write::Refuse);
				self.m_plan.push_back(Write::Refuse);
			},
			PlanBreak => {
				self.link.plan(Write::Break);
				self.m_plan.push_back(Write::Break);
			},
		}
		self.compare()
	}

	/// Compare what was transmitted and whether the peer still runs.
	fn compare(&mut self) -> Res {
		if let Some(m) = self.link.misuse() {
			fail!("transport misused: {m}");
		}
		let total = self.link.with(|s| s.wire.len());
		let wire = self.link.with(|s| s.wire[self.compared..].to_vec());
		for (i, got) in wire.iter().enumerate() {
			match self.m_wire.get(self.compared + i) {
				None => fail!("message was transmitted that must not be: {}", got.short()),
				Some(Want::Exact(want)) => check!(got == want, "transmitted {} instead of {}", got.short(), want.short()),
				Some(Want::AnyBody(h)) => check!(got.header == *h, "transmitted {} instead of an error response for request {}", got.short(), h.request_id),
			}
		}
		self.compared = total;
		if let Some(x) = self.m_wire.get(total) {
			match x {
				Want::Exact(m) => fail!("not transmitted: {}", m.short()),
				Want::AnyBody(h) => fail!("no error response was transmitted for request {}", h.request_id),
			}
		}
		let done = self.exec.is_done(self.task);
		if self.running {
			check!(!done, "the background task ended although the connection is in use");
			check!(!self.link.dropped(), "the transport was dropped although the connection is in use");
		} else {
			check!(done, "the background task keeps running although the connection has ended or nobody can use it");
			check!(self.link.dropped(), "the transport is not released although the connection has ended");
		}
		Ok(())
	}

	fn recv_message(&mut self, ctx: &mut Ctx) -> Res {
		let got = match (&mut self.whole, &mut self.read) {
			(Some(h), _) => receive!(self, h.recv_message()),
			(None, Some(r)) => receive!(self, r.recv_message()),
			_ => unreachable!("not enabled"),
		};
		// Optional errors that were not reported.
		let is_err = matches!(&got, Got::Ready(Err(e)) if !e.is_connection_aborted());
		while let Some(MIn::MaybeError) = self.m_incoming.front() {
			self.m_incoming.pop_front();
			if is_err {
				ctx.log(|| "optional error".into());
				return Ok(());
			}
		}
		let want = self.m_incoming.pop_front();
		match (got, want) {
			(Got::Pending, None) if self.running => {
				ctx.log(|| "pending, cancelled".into());
				ctx.observe(b"pending");
			},
			(Got::Pending, None) => fail!("receive message: does not complete after the end of the connection"),
			(Got::Pending, Some(x)) => fail!("receive message: nothing is delivered, expected {}", show_min(&x)),
			(Got::Ready(Err(e)), None) => {
				ctx.log(|| show_err(&e));
				ctx.observe(b"err");
				check!(!self.running, "receive message: unexpected {}", show_err(&e));
				check!(e.is_connection_aborted(), "receive message: {} after the end of the connection, expected an aborted connection", show_err(&e));
			},
			(Got::Ready(Err(e)), Some(MIn::Error { aborted })) => {
				ctx.log(|| show_err(&e));
				ctx.observe(b"err");
				if let Some(a) = aborted {
					check!(e.is_connection_aborted() == a, "receive message: {}, expected aborted={a}", show_err(&e));
				}
			},
			(Got::Ready(Err(e)), Some(x)) => fail!("receive message: {}, expected {}", show_err(&e), show_min(&x)),
			(Got::Ready(Ok(ReceivedMessage::Stream(m))), Some(MIn::Stream(want))) => {
				let m = Msg::of(&m);
				ctx.log(|| m.short());
				ctx.observe(m.short().as_bytes());
				check!(m == want, "received {} instead of {}", m.short(), want.short());
			},
			(Got::Ready(Ok(ReceivedMessage::Request(h, b))), Some(MIn::Request(k, want))) => {
				let m = Msg::new(MessageHeader::request(h.request_id(), h.service_id()), b.data);
				ctx.log(|| m.short());
				ctx.observe(m.short().as_bytes());
				check!(m == want, "received {} instead of {}", m.short(), want.short());
				self.recv[k].h = Some(h);
				self.m_recv[k].received = true;
			},
			(Got::Ready(Ok(x)), want) => fail!("received {x:?}, expected {}", want.map_or("nothing".into(), |w| show_min(&w))),
		}
		Ok(())
	}

	fn sent_recv_update(&mut self, ctx: &mut Ctx, k: usize) -> Res {
		let got = receive!(self, self.sent[k].h.as_mut().unwrap().recv_update());
		let m = &mut self.m_sent[k];
		let want = match m.queue.front() {
			Some(x) if x.header.message_type == MessageType::ResponderUpdate => m.queue.pop_front(),
			_ => None,
		};
		let wait = m.queue.is_empty() && m.open && self.running && want.is_none();
		compare_update(ctx, &format!("receive update on sent request {k}"), got, want, wait)
	}

	fn received_recv_update(&mut self, ctx: &mut Ctx, k: usize) -> Res {
		let got = receive!(self, self.recv[k].h.as_mut().unwrap().recv_update());
		let m = &mut self.m_recv[k];
		let want = m.queue.pop_front();
		let wait = want.is_none() && m.open && self.running;
		compare_update(ctx, &format!("receive update on received request {k}"), got, want, wait)
	}

	fn sent_recv_response(&mut self, ctx: &mut Ctx, k: usize) -> Res {
		let got = receive!(self, self.sent[k].h.as_mut().unwrap().recv_response());
		let m = &mut self.m_sent[k];
		let what = format!("receive response on sent request {k}");
		match (got, m.queue.front().cloned()) {
			(Got::Pending, None) => {
				check!(m.open && self.running, "{what}: does not complete although no response can arrive any more");
				ctx.log(|| "pending, cancelled".into());
				ctx.observe(b"pending");
			},
			(Got::Pending, Some(x)) => fail!("{what}: nothing is returned although {} has arrived", x.short()),
			(Got::Ready(Ok(r)), want) => {
				let r = Msg::of(&r);
				ctx.log(|| r.short());
				ctx.observe(r.short().as_bytes());
				match want {
					Some(w) if w == r && w.header.message_type == MessageType::Response => {
						m.queue.pop_front();
					},
					Some(w) => fail!("{what}: got {}, expected {}", r.short(), w.short()),
					None => fail!("{what}: got {} although no response is available", r.short()),
				}
			},
			(Got::Ready(Err(e)), Some(w)) => {
				ctx.log(|| show_err(&e));
				ctx.observe(b"err");
				check!(w.header.message_type == MessageType::ResponderUpdate, "{what}: {}, expected {}", show_err(&e), w.short());
				check!(e.is_unexpected_message_type(), "{what}: {} while an update is available, expected an unexpected message type error", show_err(&e));
			},
			(Got::Ready(Err(e)), None) => {
				ctx.log(|| show_err(&e));
				ctx.observe(b"err");
				check!(!(m.open && self.running), "{what}: {} while the response can still arrive", show_err(&e));
				check!(!e.is_unexpected_message_type(), "{what}: unexpected message type error although there is no message");
				if !self.running {
					check!(e.is_connection_aborted(), "{what}: {} after the end of the connection, expected an aborted connection", show_err(&e));
				}
			},
		}
		Ok(())
	}

	/// Bring everything that is still hidden into the open, and then end the connection.
	pub fn epilogue(&mut self, ctx: &mut Ctx) -> Res {
		use Op::*;
		self.in_epilogue = true;
		ctx.log(|| "--- epilogue".into());
		let mut todo: Vec<Op> = Vec::new();
		if self.read_alive() {
			let n = self.m_incoming.len();
			for _ in 0..n + 1 {
				if self.enabled(Recv) {
					self.apply(ctx, Recv)?;
				}
			}
		}
		for k in 0..self.sent.len() {
			for _ in 0..self.m_sent[k].queue.len() + 1 {
				todo.push(SRecvU(k));
			}
			todo.push(SRecvR(k));
			todo.push(SRecvU(k));
			todo.push(SRecvR(k));
			todo.push(SUpd(k));
			todo.push(SWhUpd(k));
		}
		for k in 0..self.recv.len() {
			for _ in 0..self.m_recv[k].queue.len() + 1 {
				todo.push(RRecvU(k));
			}
			todo.push(RUpd(k));
			todo.push(RWhUpd(k));
			todo.push(RResp(k));
			todo.push(RWhResp(k));
			todo.push(RResp(k));
			todo.push(RRecvU(k));
		}
		todo.push(InStream);
		todo.push(InReq(0x55));
		todo.push(Recv);
		todo.push(Recv);
		todo.push(Recv);
		todo.push(SendStream);
		todo.push(SendReq);
		for op in std::mem::take(&mut todo) {
			if self.enabled(op) {
				self.apply(ctx, op)?;
			}
		}
		let last_sent = self.sent.len();
		let last_recv = self.recv.len();
		if last_sent > 0 {
			todo.push(InRespUpd(last_sent - 1));
			todo.push(InResp(last_sent - 1));
			todo.push(SRecvU(last_sent - 1));
			todo.push(SRecvR(last_sent - 1));
		}
		if last_recv > 0 {
			todo.push(InReqUpd(0x55));
			todo.push(RRecvU(last_recv - 1));
			todo.push(RResp(last_recv - 1));
		}
		// End the connection, in one of several ways.
		todo.push(match self.n % 4 {
			0 => InEof,
			1 => CloseWrite,
			2 => CloseRead,
			_ => InBroken,
		});
		todo.push(InEof);
		for _ in 0..3 {
			todo.push(Recv);
		}
		for k in 0..last_sent {
			todo.extend([SRecvU(k), SRecvR(k), SRecvR(k), SRecvU(k), SUpd(k), SWhUpd(k)]);
		}
		for k in 0..last_recv {
			todo.extend([RRecvU(k), RUpd(k), RResp(k), RErr(k), RWhUpd(k), RRecvU(k)]);
		}
		todo.extend([SendReq, SendStream, CloneWrite, DropRead, DropWrite]);
		for op in todo {
			if self.enabled(op) {
				self.apply(ctx, op)?;
			}
		}
		Ok(())
	}
}

fn show_min(x: &MIn) -> String {
	match x {
		MIn::Request(_, m) | MIn::Stream(m) => m.short(),
		MIn::Error { .. } => "an error".into(),
		MIn::MaybeError => "an optional error".into(),
	}
}

fn compare_update(ctx: &mut Ctx, what: &str, got: Got<Option<fizyr_rpc::Message<StreamBody>>>, want: Option<Msg>, wait: bool) -> Res {
	match (got, want) {
		(Got::Pending, None) => {
			check!(wait, "{what}: does not complete although no update can arrive any more");
			ctx.log(|| "pending, cancelled".into());
			ctx.observe(b"pending");
		},
		(Got::Pending, Some(w)) => fail!("{what}: nothing is returned, expected {}", w.short()),
		(Got::Ready(None), None) => {
			ctx.log(|| "none".into());
			ctx.observe(b"none");
			check!(!wait, "{what}: returns nothing although updates can still arrive");
		},
		(Got::Ready(None), Some(w)) => fail!("{what}: returns nothing, expected {}", w.short()),
		(Got::Ready(Some(m)), want) => {
			let m = Msg::of(&m);
			ctx.log(|| m.short());
			ctx.observe(m.short().as_bytes());
			match want {
				Some(w) if w == m => (),
				Some(w) => fail!("{what}: got {} instead of {}", m.short(), w.short()),
				None => fail!("{what}: got {}, expected nothing", m.short()),
			}
		},
	}
	Ok(())
}

/// A family of operation sequences.
#[derive(Clone)]
pub struct Family {
	pub ops: Vec<Op>,
	pub depth: usize,
	pub prologue: Vec<Op>,
	/// Cancel receives after up to this many polls.
	pub cancel: usize,
}

impl Family {
	pub fn new(depth: usize, prologue: &[Op], ops: &[Op]) -> Self {
		Self { ops: ops.to_vec(), depth, prologue: prologue.to_vec(), cancel: 0 }
	}
}

/// Run one operation sequence of a family.
pub fn run(ctx: &mut Ctx, f: &Family) -> Res {
	let mut w = World::new();
	w.cancel = ctx.choose(f.cancel + 1);
	w.settle()?;
	for &op in &f.prologue {
		if w.enabled(op) {
			w.apply(ctx, op)?;
		}
	}
	for _ in 0..f.depth {
		let enabled: Vec<Op> = f.ops.iter().copied().filter(|&op| w.enabled(op)).collect();
		if enabled.is_empty() {
			break;
		}
		let op = enabled[ctx.choose(enabled.len())];
		w.apply(ctx, op).map_err(|Fail(e)| Fail(format!("after {op:?}: {e}")))?;
	}
	w.epilogue(ctx)
}

/// Something that is done many times in a row.
#[derive(Clone, Copy)]
pub enum Macro {
	/// The same operation again and again.
	Rep(Op),
	/// Incoming requests with new IDs.
	NewRequests,
	/// Two operations in turn.
	Alternate(Op, Op),
	/// An operation on every sent or received request.
	EachSent(fn(usize) -> Op),
	EachReceived(fn(usize) -> Op),
	/// An update for every received request.
	EachReceivedUpdate,
}

impl std::fmt::Debug for Macro {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		match self {
			Macro::Rep(op) => write!(f, "{op:?}"),
			Macro::NewRequests => write!(f, "incoming requests"),
			Macro::Alternate(a, b) => write!(f, "{a:?} and {b:?} in turn"),
			Macro::EachSent(op) | Macro::EachReceived(op) => write!(f, "for each request: {:?}", op(0)),
			Macro::EachReceivedUpdate => write!(f, "an update for each received request"),
		}
	}
}

/// Sequences of macros with any of the given numbers of repetitions.
pub fn run_macros(ctx: &mut Ctx, prologue: &[Op], macros: &[Macro], depth: usize, sizes: &[usize]) -> Res {
	let mut w = World::new();
	w.many = true;
	w.settle()?;
	for &op in prologue {
		w.apply(ctx, op)?;
	}
	let mut fresh = 1000;
	for _ in 0..depth {
		let m = macros[ctx.choose(macros.len())];
		let single = |op: Op| matches!(op, Op::DropRead | Op::DropWhole);
		let n = match m {
			Macro::Rep(op) if single(op) => 1,
			Macro::Rep(_) | Macro::NewRequests | Macro::Alternate(..) => sizes[ctx.choose(sizes.len())],
			// The order.
			_ => ctx.choose(2),
		};
		ctx.log(|| format!("> {m:?}: {n}"));
		let mut go = |w: &mut World, op: Op| if w.enabled(op) { w.apply(ctx, op).map_err(|Fail(e)| Fail(format!("after {op:?}: {e}"))) } else { Ok(()) };
		let order = |len: usize| -> Box<dyn Iterator<Item = usize>> { if n == 0 { Box::new(0..len) } else { Box::new((0..len).rev()) } };
		match m {
			Macro::Rep(op) => {
				for _ in 0..n {
					go(&mut w, op)?;
				}
			},
			Macro::NewRequests => {
				for _ in 0..n {
					fresh += 1;
					go(&mut w, Op::InReq(fresh))?;
				}
			},
			Macro::Alternate(a, b) => {
				for _ in 0..n {
					go(&mut w, a)?;
					go(&mut w, b)?;
				}
			},
			Macro::EachSent(op) => {
				for k in order(w.num_sent()) {
					go(&mut w, op(k))?;
				}
			},
			Macro::EachReceived(op) => {
				for k in order(w.num_recv()) {
					go(&mut w, op(k))?;
				}
			},
			Macro::EachReceivedUpdate => {
				for k in order(w.num_recv()) {
					let id = w.m_recv[k].id;
					go(&mut w, Op::InReqUpd(id))?;
				}
			},
		}
	}
	w.epilogue(ctx)
}

/// More open requests in a row than the search for a free ID tries.
pub fn long_runs(ctx: &mut Ctx) -> Res {
	let mut w = World::new();
	w.settle()?;
	let n: usize = [0, 1, 2, 50, 98, 99, 100, 101, 120, 250][ctx.choose(10)];
	let start = [0u32, u32::MAX - 60][ctx.choose(2)];
	w.apply(ctx, Op::Jump(start))?;
	for _ in 0..n {
		w.apply(ctx, Op::SendReq)?;
	}
	// Free one of the IDs, or none.
	let freed = [None, Some(0), Some(n / 2), Some(n.saturating_sub(1))][ctx.choose(4)].filter(|_| n > 0);
	if let Some(k) = freed {
		w.apply(ctx, Op::InResp(k))?;
	}
	w.apply(ctx, Op::Jump(start))?;
	for _ in 0..4 {
		w.relaxed_send_request(ctx)?;
	}
	for k in [0, n / 2, n.saturating_sub(1)] {
		if k < n {
			w.apply(ctx, Op::InRespUpd(k))?;
			w.apply(ctx, Op::SRecvU(k))?;
			w.apply(ctx, Op::InResp(k))?;
			w.apply(ctx, Op::SRecvR(k))?;
		}
	}
	w.apply(ctx, Op::Jump(start))?;
	w.relaxed_send_request(ctx)?;
	w.apply(ctx, Op::SendStream)?;
	Ok(())
}

/// Many requests that the transport refuses: none of them leaves a trace.
pub fn long_refusals(ctx: &mut Ctx) -> Res {
	let mut w = World::new();
	w.settle()?;
	let open = [0usize, 1, 3, 40][ctx.choose(4)];
	let refused = [1usize, 2, 99, 100, 101, 150][ctx.choose(6)];
	let start = [0u32, u32::MAX - 60][ctx.choose(2)];
	let again = ctx.choose(2) == 1;
	w.apply(ctx, Op::Jump(start))?;
	for _ in 0..open {
		w.apply(ctx, Op::SendReq)?;
	}
	for _ in 0..refused {
		w.apply(ctx, Op::PlanRefuse)?;
		w.apply(ctx, Op::SendReq)?;
	}
	if again {
		// Nothing is known of their IDs.
		for i in 0..refused as u32 {
			let id = start.wrapping_add(open as u32).wrapping_add(i);
			w.apply(ctx, if i % 2 == 0 { Op::InRespId(id) } else { Op::InRespUpdId(id) })?;
			w.apply(ctx, Op::Recv)?;
		}
	}
	w.apply(ctx, Op::Jump(start))?;
	for _ in 0..3 {
		w.relaxed_send_request(ctx)?;
	}
	let n = w.num_sent();
	for k in [0, n - 2, n - 1] {
		w.apply(ctx, Op::InRespUpd(k))?;
		w.apply(ctx, Op::SRecvU(k))?;
		w.apply(ctx, Op::InResp(k))?;
		w.apply(ctx, Op::SRecvR(k))?;
	}
	w.apply(ctx, Op::Recv)
}

impl World {
	/// Send a request, which may fail because no free ID is found.
	fn relaxed_send_request(&mut self, ctx: &mut Ctx) -> Res {
		let (sid, body) = self.next();
		let got = drive(&mut self.exec, self.whole.as_ref().unwrap().send_request(sid, body.clone()))?;
		match got {
			Got::Pending => fail!("send request: does not complete"),
			Got::Ready(Ok(h)) => {
				let id = h.request_id();
				ctx.log(|| format!("request sent with ID {id}"));
				check!(!self.m_sent.iter().any(|s| s.open && s.id == id), "new request got ID {id}, which is in use by another open request");
				self.m_wire.push(Want::Exact(Msg::new(MessageHeader::request(id, sid), body)));
				self.m_sent.push(MSent { id, sid, open: true, queue: VecDeque::new() });
				self.sent.push(Sent { h: Some(h), wh: Vec::new() });
			},
			Got::Ready(Err(e)) => {
				ctx.log(|| show_err(&e));
				check!(self.m_sent.iter().filter(|s| s.open).count() >= 100, "send request: {} although there are few open requests", show_err(&e));
			},
		}
		self.compare()
	}
}
