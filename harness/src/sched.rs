//! Schedule exploration: tasks that run as if each had a thread of its own.
//!
//! The scheduler picks the next task to poll, and the running task can be preempted at every point where the code
//! under test calls out: when it wakes another task, when it calls the transport and when it converts a body.
//! All other tasks are then candidates to run (nested) before the preempted one continues.

use crate::explore::{Ctx, Fail, Res};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag {
	ready: AtomicBool,
}

impl Wake for Flag {
	fn wake(self: Arc<Self>) {
		Wake::wake_by_ref(&self)
	}
	fn wake_by_ref(self: &Arc<Self>) {
		let was = self.ready.swap(true, Ordering::Relaxed);
		if !was {
			preempt();
		}
	}
}

type Fut = Pin<Box<dyn Future<Output = ()>>>;

struct Task {
	name: String,
	fut: Option<Fut>,
	done: bool,
	polling: bool,
	cancel_requested: bool,
	flag: Arc<Flag>,
	waker: Waker,
}

struct Inner {
	tasks: RefCell<Vec<Task>>,
	ctx: Cell<*mut Ctx>,
	depth: Cell<u32>,
	preemptive: Cell<bool>,
	clock: Cell<u64>,
	failure: RefCell<Option<String>>,
	policy: Cell<Policy>,
	last: Cell<usize>,
}

/// Which of the ready tasks runs if there is no deviation.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Policy {
	/// The one that was spawned first.
	First,
	/// Each in turn.
	Turns,
	/// The one that was spawned last.
	Last,
}

thread_local! {
	static CURRENT: RefCell<Option<Rc<Inner>>> = const { RefCell::new(None) };
}

fn current() -> Option<Rc<Inner>> {
	CURRENT.with(|c| c.borrow().clone())
}

/// Handle to the scheduler of the current thread.
#[derive(Clone)]
pub struct Sched(Rc<Inner>);

/// Clears the thread local when the execution ends.
pub struct Scope(Sched);

impl std::ops::Deref for Scope {
	type Target = Sched;
	fn deref(&self) -> &Sched {
		&self.0
	}
}

impl Drop for Scope {
	fn drop(&mut self) {
		self.0 .0.ctx.set(std::ptr::null_mut());
		// Futures may use the scheduler when they are dropped.
		let tasks = std::mem::take(&mut *self.0 .0.tasks.borrow_mut());
		drop(tasks);
		CURRENT.with(|c| *c.borrow_mut() = None);
		crate::mock::clear_events();
	}
}

const MAX_NESTING: u32 = 3;

/// A point at which other threads may run.
pub fn preempt() {
	let Some(inner) = current() else { return };
	if !inner.preemptive.get() || inner.ctx.get().is_null() || inner.depth.get() == 0 || inner.depth.get() > MAX_NESTING {
		return;
	}
	let sched = Sched(inner);
	loop {
		let ready = sched.ready();
		if ready.is_empty() {
			return;
		}
		let c = sched.ctx(|ctx| ctx.deviate(ready.len() + 1));
		if c == 0 {
			return;
		}
		let id = ready[c - 1];
		sched.ctx(|ctx| {
			ctx.step();
			let name = sched.name(id);
			ctx.log(|| format!("  (preempted by {name})"))
		});
		sched.poll(id);
		sched.ctx(|ctx| ctx.log(|| "  (preempted task continues)".into()));
	}
}

impl Sched {
	/// Create the scheduler for one execution. `ctx` must outlive the scope.
	pub fn new(ctx: &mut Ctx, preemptive: bool) -> Scope {
		let inner = Rc::new(Inner {
			tasks: RefCell::new(Vec::new()),
			ctx: Cell::new(ctx),
			depth: Cell::new(0),
			preemptive: Cell::new(preemptive),
			clock: Cell::new(0),
			failure: RefCell::new(None),
			policy: Cell::new(Policy::First),
			last: Cell::new(0),
		});
		CURRENT.with(|c| *c.borrow_mut() = Some(inner.clone()));
		Scope(Sched(inner))
	}

	/// Like `new`, and the way in which tasks are picked is enumerated too.
	pub fn with_policies(ctx: &mut Ctx, preemptive: bool) -> Scope {
		let policy = [Policy::First, Policy::Turns, Policy::Last][ctx.policy(3)];
		ctx.log(|| format!("schedule: {policy:?}"));
		let scope = Self::new(ctx, preemptive);
		scope.0 .0.policy.set(policy);
		scope
	}

	pub fn handle(&self) -> Sched {
		self.clone()
	}

	pub fn set_preemptive(&self, x: bool) {
		self.0.preemptive.set(x);
	}

	/// Access the source of nondeterminism.
	pub fn ctx<R>(&self, f: impl FnOnce(&mut Ctx) -> R) -> R {
		let p = self.0.ctx.get();
		assert!(!p.is_null());
		// Safety: single-threaded, and `f` never calls back in the scheduler.
		f(unsafe { &mut *p })
	}

	pub fn log(&self, f: impl FnOnce() -> String) {
		if !self.0.ctx.get().is_null() {
			self.ctx(|c| c.log(f));
		}
	}

	/// A logical time stamp.
	pub fn tick(&self) -> u64 {
		let t = self.0.clock.get() + 1;
		self.0.clock.set(t);
		t
	}

	/// Report a violation from inside a task.
	pub fn fail(&self, message: String) {
		let mut f = self.0.failure.borrow_mut();
		if f.is_none() {
			*f = Some(message);
		}
	}

	pub fn failure(&self) -> Option<String> {
		self.0.failure.borrow().clone()
	}

	pub fn spawn(&self, name: impl Into<String>, fut: impl Future<Output = ()> + 'static) -> usize {
		let flag = Arc::new(Flag { ready: AtomicBool::new(true) });
		let waker = Waker::from(flag.clone());
		let mut tasks = self.0.tasks.borrow_mut();
		tasks.push(Task { name: name.into(), fut: Some(Box::pin(fut)), done: false, polling: false, cancel_requested: false, flag, waker });
		tasks.len() - 1
	}

	pub fn name(&self, id: usize) -> String {
		self.0.tasks.borrow()[id].name.clone()
	}

	pub fn is_done(&self, id: usize) -> bool {
		self.0.tasks.borrow()[id].done
	}

	pub fn ready(&self) -> Vec<usize> {
		self.0.tasks.borrow().iter().enumerate().filter(|(_, t)| t.fut.is_some() && !t.polling && t.flag.ready.load(Ordering::Relaxed)).map(|(i, _)| i).collect()
	}

	/// Names of the tasks that did not finish.
	pub fn unfinished(&self) -> Vec<(usize, String)> {
		self.0.tasks.borrow().iter().enumerate().filter(|(_, t)| !t.done).map(|(i, t)| (i, t.name.clone())).collect()
	}

	pub fn poll(&self, id: usize) {
		let (mut fut, waker) = {
			let mut tasks = self.0.tasks.borrow_mut();
			let t = &mut tasks[id];
			let Some(fut) = t.fut.take() else { return };
			t.polling = true;
			t.flag.ready.store(false, Ordering::Relaxed);
			(fut, t.waker.clone())
		};
		self.0.depth.set(self.0.depth.get() + 1);
		let result = fut.as_mut().poll(&mut Context::from_waker(&waker));
		self.0.depth.set(self.0.depth.get() - 1);
		let drop_now = {
			let mut tasks = self.0.tasks.borrow_mut();
			let t = &mut tasks[id];
			t.polling = false;
			if result.is_ready() || t.cancel_requested {
				t.done = true;
				Some(fut)
			} else {
				t.fut = Some(fut);
				None
			}
		};
		drop(drop_now);
	}

	/// Drop the future of a task (as soon as it is not running).
	pub fn cancel(&self, id: usize) {
		let fut = {
			let mut tasks = self.0.tasks.borrow_mut();
			let t = &mut tasks[id];
			if t.polling {
				t.cancel_requested = true;
				None
			} else {
				t.done = true;
				t.fut.take()
			}
		};
		drop(fut);
	}

	/// Run until no task is ready. After each step the invariant is evaluated.
	pub fn run(&self, max_steps: usize, mut invariant: impl FnMut() -> Res) -> Res {
		for _ in 0..max_steps {
			let mut ready = self.ready();
			if ready.is_empty() {
				return Ok(());
			}
			match self.0.policy.get() {
				Policy::First => (),
				Policy::Turns => {
					let n = ready.iter().position(|&id| id > self.0.last.get()).unwrap_or(0);
					ready.rotate_left(n);
				},
				Policy::Last => ready.reverse(),
			}
			let c = self.ctx(|ctx| {
				ctx.step();
				ctx.deviate(ready.len())
			});
			let id = ready[c];
			self.log(|| format!("run {}", self.name(id)));
			self.0.last.set(id);
			self.poll(id);
			if let Some(e) = self.failure() {
				return Err(Fail(e));
			}
			invariant()?;
		}
		Err(Fail(format!("livelock: the tasks do not come to rest, ready: {:?}", self.ready().iter().map(|&i| self.name(i)).collect::<Vec<_>>())))
	}
}

/// Let other tasks run.
pub fn yield_now() -> impl Future<Output = ()> {
	let mut first = true;
	std::future::poll_fn(move |cx| {
		if first {
			first = false;
			// Not through the waker, which is a preemption point.
			let inner = current().expect("in a scheduler");
			let tasks = inner.tasks.borrow();
			for t in tasks.iter() {
				if t.waker.will_wake(cx.waker()) {
					t.flag.ready.store(true, Ordering::Relaxed);
				}
			}
			Poll::Pending
		} else {
			Poll::Ready(())
		}
	})
}

/// Wait until a condition on shared state holds.
pub async fn until(mut f: impl FnMut() -> bool, event: Event) {
	loop {
		if f() {
			return;
		}
		event.wait().await;
	}
}

/// Something tasks can wait for.
#[derive(Clone, Default)]
pub struct Event(Rc<RefCell<Vec<Waker>>>, Rc<Cell<u64>>);

impl Event {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn notify(&self) {
		self.1.set(self.1.get() + 1);
		let wakers = std::mem::take(&mut *self.0.borrow_mut());
		for w in wakers {
			w.wake();
		}
	}
	pub fn wait(&self) -> impl Future<Output = ()> {
		let this = self.clone();
		let start = self.1.get();
		std::future::poll_fn(move |cx| {
			if this.1.get() != start {
				Poll::Ready(())
			} else {
				this.0.borrow_mut().push(cx.waker().clone());
				Poll::Pending
			}
		})
	}
}

/// Choose among `n` alternatives inside of a scheduled task. All of them are explored.
pub fn choose(n: usize) -> usize {
	match current() {
		Some(inner) if !inner.ctx.get().is_null() => Sched(inner).ctx(|c| c.choose(n)),
		_ => 0,
	}
}

/// Choose between a default (0) and deviations inside of a scheduled task.
pub fn deviate(n: usize) -> usize {
	match current() {
		Some(inner) if !inner.ctx.get().is_null() => Sched(inner).ctx(|c| c.deviate(n)),
		_ => 0,
	}
}

pub fn log(f: impl FnOnce() -> String) {
	if let Some(inner) = current() {
		Sched(inner).log(f);
	}
}
