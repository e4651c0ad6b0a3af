//! Records what applications do and compares it with what was transmitted.

use crate::explore::Res;
use crate::mock::{Msg, NoInfo};
use crate::sched::{preempt, Sched};
use crate::check;
use fizyr_rpc::{Error, MessageType};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// A body whose conversion is a point at which other threads may run.
pub struct PBody(pub Vec<u8>);

impl From<PBody> for Vec<u8> {
	fn from(b: PBody) -> Vec<u8> {
		preempt();
		b.0
	}
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Outcome {
	Pending,
	Cancelled,
	Ok,
	Err { text: String, aborted: bool },
}

#[derive(Debug, Clone)]
pub struct OpRec {
	pub label: String,
	/// Type, service ID and body of the message to transmit.
	pub msg: Option<(MessageType, i32, Vec<u8>)>,
	/// Request ID (known for messages on existing requests).
	pub id: Option<u32>,
	pub begin: u64,
	pub issued: Option<u64>,
	pub end: Option<u64>,
	pub outcome: Outcome,
}

#[derive(Clone)]
pub struct Rec {
	pub ops: Rc<RefCell<Vec<OpRec>>>,
	pub sched: Sched,
}

/// Result types of operations.
pub trait Report {
	fn report(&self) -> Outcome;
}

impl<T> Report for Result<T, Error> {
	fn report(&self) -> Outcome {
		match self {
			Ok(_) => Outcome::Ok,
			Err(e) => Outcome::Err { text: e.to_string(), aborted: e.is_connection_aborted() },
		}
	}
}

impl<T> Report for Option<T> {
	fn report(&self) -> Outcome {
		match self {
			Some(_) => Outcome::Ok,
			None => Outcome::Err { text: "none".into(), aborted: false },
		}
	}
}

impl Report for NoInfo {
	fn report(&self) -> Outcome {
		Outcome::Ok
	}
}

struct Track<F> {
	rec: Rec,
	index: Option<usize>,
	label: String,
	msg: Option<(MessageType, i32, Vec<u8>)>,
	id: Option<u32>,
	fut: Pin<Box<F>>,
}

impl<F: Future> Future for Track<F>
where
	F::Output: Report,
{
	type Output = F::Output;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<F::Output> {
		let this = &mut *self;
		let first = this.index.is_none();
		if first {
			let begin = this.rec.sched.tick();
			let mut ops = this.rec.ops.borrow_mut();
			this.index = Some(ops.len());
			let label = this.label.clone();
			this.rec.sched.log(|| format!("    begin {label}"));
			ops.push(OpRec { label: this.label.clone(), msg: this.msg.take(), id: this.id, begin, issued: None, end: None, outcome: Outcome::Pending });
		}
		let i = this.index.unwrap();
		let r = this.fut.as_mut().poll(cx);
		let now = this.rec.sched.tick();
		let mut ops = this.rec.ops.borrow_mut();
		let op = &mut ops[i];
		if first {
			op.issued = Some(now);
		}
		if let Poll::Ready(x) = &r {
			op.end = Some(now);
			op.outcome = x.report();
			let text = format!("    end   {}: {:?}", op.label, op.outcome);
			this.rec.sched.log(|| text);
		}
		r
	}
}

impl<F> Drop for Track<F> {
	fn drop(&mut self) {
		if let Some(i) = self.index {
			let mut ops = self.rec.ops.borrow_mut();
			if ops[i].outcome == Outcome::Pending {
				ops[i].outcome = Outcome::Cancelled;
				ops[i].end = Some(self.rec.sched.tick());
				let text = format!("    cancelled {}", ops[i].label);
				self.rec.sched.log(|| text);
			}
		}
	}
}

impl Rec {
	pub fn new(sched: Sched) -> Self {
		Self { ops: Rc::new(RefCell::new(Vec::new())), sched }
	}

	/// Perform an operation that sends a message.
	pub fn send<F>(&self, label: impl Into<String>, kind: MessageType, id: Option<u32>, service_id: i32, body: impl Into<Vec<u8>>, fut: F) -> impl Future<Output = F::Output>
	where
		F: Future,
		F::Output: Report,
	{
		Track { rec: self.clone(), index: None, label: label.into(), msg: Some((kind, service_id, body.into())), id, fut: Box::pin(fut) }
	}

	/// Perform another operation.
	pub fn op<F>(&self, label: impl Into<String>, fut: F) -> impl Future<Output = F::Output>
	where
		F: Future,
		F::Output: Report,
	{
		Track { rec: self.clone(), index: None, label: label.into(), msg: None, id: None, fut: Box::pin(fut) }
	}

	pub fn outcome(&self, label: &str) -> Option<Outcome> {
		self.ops.borrow().iter().find(|o| o.label == label).map(|o| o.outcome.clone())
	}

	pub fn ok(&self, label: &str) -> bool {
		self.outcome(label) == Some(Outcome::Ok)
	}

	pub fn get(&self, label: &str) -> Option<OpRec> {
		self.ops.borrow().iter().find(|o| o.label == label).cloned()
	}

	/// Every operation that was started completed (or was cancelled).
	pub fn all_complete(&self) -> Res {
		for o in self.ops.borrow().iter() {
			let text = format!("{} {:?}", o.label, o.outcome);
			self.sched.ctx(|c| c.observe(text.as_bytes()));
			check!(o.outcome != Outcome::Pending, "{}: never completes", o.label);
		}
		Ok(())
	}

	/// Compare the results of all sends with what was transmitted.
	pub fn check_wire(&self, wire: &[Msg]) -> Res {
		let ops = self.ops.borrow();
		for m in wire {
			let text = m.short();
			self.sched.ctx(|c| c.observe(text.as_bytes()));
		}
		let mut used = vec![false; wire.len()];
		let mut positions: Vec<(usize, usize)> = Vec::new();
		for (k, o) in ops.iter().enumerate() {
			let Some((kind, sid, body)) = &o.msg else { continue };
			let mut count = 0;
			for (i, m) in wire.iter().enumerate() {
				if m.header.message_type == *kind && m.header.service_id == *sid && m.body == *body {
					if let Some(id) = o.id {
						check!(m.header.request_id == id, "{}: transmitted with request ID {} instead of {id}", o.label, m.header.request_id);
					}
					used[i] = true;
					count += 1;
					positions.push((i, k));
				}
			}
			match &o.outcome {
				Outcome::Ok => check!(count == 1, "{}: reports success, but the message was transmitted {count} times", o.label),
				Outcome::Err { text, .. } => check!(count == 0, "{}: reports the error {text:?}, but the message was transmitted", o.label),
				Outcome::Pending | Outcome::Cancelled => check!(count <= 1, "{}: message was transmitted {count} times", o.label),
			}
		}
		for (i, m) in wire.iter().enumerate() {
			check!(used[i] || is_auto_error(m), "transmitted {}, which nobody sent", m.short());
		}
		// Order.
		for &(i, a) in &positions {
			for &(j, b) in &positions {
				if let (Some(x), y) = (ops[a].issued, ops[b].begin) {
					check!(!(x < y && i > j), "{} was sent before {} but transmitted after it", ops[a].label, ops[b].label);
				}
			}
		}
		Ok(())
	}
}

fn is_auto_error(m: &Msg) -> bool {
	m.header.message_type == MessageType::Response && m.header.service_id == -1
}
