//! A message transport that is controlled completely by the harness.

use crate::sched::{preempt, Event};
use std::cell::RefCell;
use std::collections::HashMap;
use fizyr_rpc::transport::{TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{Error, Message, MessageHeader, StreamBody};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// A message as plain data.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Msg {
	pub header: MessageHeader,
	pub body: Vec<u8>,
}

impl Msg {
	pub fn new(header: MessageHeader, body: impl Into<Vec<u8>>) -> Self {
		Self { header, body: body.into() }
	}
	pub fn of(m: &Message<StreamBody>) -> Self {
		Self { header: m.header, body: m.body.data.clone() }
	}
	pub fn short(&self) -> String {
		use fizyr_rpc::MessageType::*;
		let t = match self.header.message_type {
			Request => "request",
			Response => "response",
			RequesterUpdate => "requester-update",
			ResponderUpdate => "responder-update",
			Stream => "stream",
		};
		format!("{t}(id={}, service={}, body={})", self.header.request_id, self.header.service_id, show(&self.body))
	}
}

pub fn show(b: &[u8]) -> String {
	if b.len() > 24 {
		format!("[{} bytes]", b.len())
	} else if !b.is_empty() && b.iter().all(|c| c.is_ascii_graphic()) {
		format!("{:?}", String::from_utf8_lossy(b))
	} else {
		format!("{b:?}")
	}
}

/// What the read half returns next.
#[derive(Debug, Clone)]
pub enum In {
	Msg(Msg),
	/// An error that leaves the transport usable.
	Refused,
	/// The connection was closed by the remote (fatal).
	Eof,
	/// Reading failed (fatal).
	Broken,
}

/// What happens to a message that is written.
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Write {
	Accept,
	/// Refuse the message, the transport stays usable.
	Refuse,
	/// The transport fails.
	Break,
}

#[derive(Default)]
pub struct State {
	pub incoming: VecDeque<In>,
	/// Outcomes for the next writes, accept if empty.
	pub plan: VecDeque<Write>,
	/// How many messages can be written before writes have to wait. `None`: no limit.
	pub credit: Option<usize>,
	/// Everything that was written.
	pub wire: Vec<Msg>,
	/// Everything that was read (true) and written (false), in order.
	pub history: Vec<(bool, Msg)>,
	/// Where written messages go (another mock transport).
	pub peer: Option<Arc<Mutex<State>>>,
	/// How many messages can be in the incoming queue before the other side has to wait.
	pub capacity: Option<usize>,
	pub in_write: Option<Msg>,
	pub read_waker: Option<Waker>,
	pub write_waker: Option<Waker>,
	pub dropped: bool,
	pub broken_write: bool,
	pub ended_read: bool,
	/// Misuse of the transport by the peer.
	pub misuse: Option<String>,
	pub writes_started: u64,
	pub number_of_reads: u64,
	pub split: u32,
}

thread_local! {
	/// Events of the links of this thread (they are not `Send`, but the transport must be).
	static EVENTS: RefCell<HashMap<usize, (Event, Event)>> = RefCell::new(HashMap::new());
}

fn notify(state: &Arc<Mutex<State>>, read: bool) {
	let events = EVENTS.with(|e| e.borrow().get(&(Arc::as_ptr(state) as usize)).cloned());
	if let Some((written, taken)) = events {
		if read {
			taken.notify()
		} else {
			written.notify()
		}
	}
}

/// Forget the events of links that are gone.
pub fn clear_events() {
	EVENTS.with(|e| e.borrow_mut().clear());
}

#[derive(Clone, Default)]
pub struct Link(pub Arc<Mutex<State>>);

impl Link {
	pub fn new() -> Self {
		Self::default()
	}

	pub fn transport(&self) -> MockTransport {
		MockTransport { state: self.0.clone() }
	}

	/// Connect two mock transports to each other.
	pub fn pair(capacity: Option<usize>) -> (Self, Self) {
		let a = Link::new();
		let b = Link::new();
		a.0.lock().unwrap().peer = Some(b.0.clone());
		b.0.lock().unwrap().peer = Some(a.0.clone());
		a.0.lock().unwrap().capacity = capacity;
		b.0.lock().unwrap().capacity = capacity;
		(a, b)
	}

	pub fn push(&self, x: In) {
		let waker = {
			let mut s = self.0.lock().unwrap();
			s.incoming.push_back(x);
			s.read_waker.take()
		};
		if let Some(w) = waker {
			w.wake();
		}
	}

	pub fn plan(&self, w: Write) {
		self.0.lock().unwrap().plan.push_back(w);
	}

	/// Allow `n` more writes.
	pub fn grant(&self, n: usize) {
		let waker = {
			let mut s = self.0.lock().unwrap();
			if let Some(c) = &mut s.credit {
				*c += n;
			}
			s.write_waker.take()
		};
		if let Some(w) = waker {
			w.wake();
		}
	}

	pub fn set_credit(&self, credit: Option<usize>) {
		let waker = {
			let mut s = self.0.lock().unwrap();
			s.credit = credit;
			s.write_waker.take()
		};
		if let Some(w) = waker {
			w.wake();
		}
	}

	pub fn wire(&self) -> Vec<Msg> {
		self.0.lock().unwrap().wire.clone()
	}

	pub fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
		f(&mut self.0.lock().unwrap())
	}

	/// Notified when something was written.
	pub fn written(&self) -> Event {
		self.events().0
	}

	/// Notified when something was read.
	pub fn taken(&self) -> Event {
		self.events().1
	}

	fn events(&self) -> (Event, Event) {
		EVENTS.with(|e| e.borrow_mut().entry(Arc::as_ptr(&self.0) as usize).or_default().clone())
	}

	pub fn dropped(&self) -> bool {
		self.0.lock().unwrap().dropped
	}

	pub fn misuse(&self) -> Option<String> {
		self.0.lock().unwrap().misuse.clone()
	}

	/// Is a write waiting for permission?
	pub fn write_waiting(&self) -> bool {
		self.0.lock().unwrap().in_write.is_some()
	}
}

pub struct MockTransport {
	state: Arc<Mutex<State>>,
}

impl Drop for MockTransport {
	fn drop(&mut self) {
		let (peer, waker) = {
			let mut s = self.state.lock().unwrap();
			s.dropped = true;
			(s.peer.take(), s.write_waker.take())
		};
		drop(waker);
		if let Some(peer) = peer {
			let (a, b) = {
				let mut p = peer.lock().unwrap();
				p.incoming.push_back(In::Eof);
				p.broken_write = true;
				(p.read_waker.take(), p.write_waker.take())
			};
			if let Some(w) = a {
				w.wake()
			}
			if let Some(w) = b {
				w.wake()
			}
		}
	}
}

pub struct MockRead {
	state: Arc<Mutex<State>>,
}

pub struct MockWrite {
	state: Arc<Mutex<State>>,
}

#[derive(Debug, Clone, Copy, Default)]
pub struct NoInfo;

impl fizyr_rpc::transport::Transport for MockTransport {
	type Body = StreamBody;
	type Info = NoInfo;
	type Config = NoConfig;
	type ReadHalf<'a> = MockRead;
	type WriteHalf<'a> = MockWrite;

	fn split(&mut self) -> (MockRead, MockWrite) {
		self.state.lock().unwrap().split += 1;
		(MockRead { state: self.state.clone() }, MockWrite { state: self.state.clone() })
	}

	fn info(&self) -> std::io::Result<NoInfo> {
		Ok(NoInfo)
	}
}

#[derive(Debug, Clone, Default)]
pub struct NoConfig;

pub use crate::hooks::{new_error, new_io_error};

pub const REFUSED_READ: &str = "mock transport rejected an incoming message";
pub const REFUSED_WRITE: &str = "mock transport refuses the message";

impl TransportReadHalf for MockRead {
	type Body = StreamBody;

	fn poll_read_msg(self: Pin<&mut Self>, context: &mut Context) -> Poll<Result<Message<StreamBody>, TransportError>> {
		preempt();
		let waker;
		let result = {
			let mut s = self.state.lock().unwrap();
			s.number_of_reads += 1;
			if s.ended_read {
				s.misuse = Some("read from the transport after a fatal read error".into());
			}
			match s.incoming.pop_front() {
				None => {
					s.read_waker = Some(context.waker().clone());
					return Poll::Pending;
				},
				Some(x) => {
					waker = s.peer.as_ref().and_then(|p| p.lock().unwrap().write_waker.take());
					match x {
						In::Msg(m) => {
							s.history.push((true, m.clone()));
							Ok(Message::new(m.header, m.body.into()))
						},
						In::Refused => Err(new_error(REFUSED_READ, false)),
						In::Eof => {
							s.ended_read = true;
							Err(new_io_error(std::io::ErrorKind::ConnectionAborted))
						},
						In::Broken => {
							s.ended_read = true;
							Err(new_error("mock transport can not read", true))
						},
					}
				},
			}
		};
		if let Some(w) = waker {
			w.wake();
		}
		notify(&self.state, true);
		preempt();
		Poll::Ready(result)
	}
}

impl TransportWriteHalf for MockWrite {
	type Body = StreamBody;

	fn poll_write_msg(self: Pin<&mut Self>, context: &mut Context, header: &MessageHeader, body: &StreamBody) -> Poll<Result<(), TransportError>> {
		preempt();
		let msg = Msg { header: *header, body: body.data.clone() };
		let mut wake = None;
		let result = {
			let mut s = self.state.lock().unwrap();
			match &s.in_write {
				Some(m) if *m != msg => {
					s.misuse = Some(format!("write of {} replaced by {} while it was pending", m.short(), msg.short()));
				},
				Some(_) => (),
				None => s.writes_started += 1,
			}
			if s.broken_write {
				s.in_write = None;
				s.plan.pop_front();
				return Poll::Ready(Err(new_io_error(std::io::ErrorKind::BrokenPipe)));
			}
			match s.plan.front().copied().unwrap_or(Write::Accept) {
				Write::Refuse => {
					s.plan.pop_front();
					s.in_write = None;
					Err(new_error(REFUSED_WRITE, false))
				},
				outcome => {
					let blocked = s.credit == Some(0) || {
						match (&s.peer, s.capacity) {
							(Some(p), Some(cap)) => p.lock().unwrap().incoming.len() >= cap,
							_ => false,
						}
					};
					if blocked {
						s.in_write = Some(msg);
						s.write_waker = Some(context.waker().clone());
						return Poll::Pending;
					}
					s.plan.pop_front();
					s.in_write = None;
					if outcome == Write::Break {
						s.broken_write = true;
						Err(new_io_error(std::io::ErrorKind::BrokenPipe))
					} else {
						if let Some(c) = &mut s.credit {
							*c -= 1;
						}
						s.wire.push(msg.clone());
						s.history.push((false, msg.clone()));
						if let Some(p) = &s.peer {
							let mut p = p.lock().unwrap();
							p.incoming.push_back(In::Msg(msg));
							wake = p.read_waker.take();
						}
						Ok(())
					}
				},
			}
		};
		if let Some(w) = wake {
			w.wake();
		}
		notify(&self.state, false);
		preempt();
		Poll::Ready(result)
	}
}
