//! A single-threaded executor whose every scheduling decision is made by the caller.

use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);

impl Wake for Flag {
	fn wake(self: Arc<Self>) {
		self.0.store(true, Ordering::Relaxed);
	}
	fn wake_by_ref(self: &Arc<Self>) {
		self.0.store(true, Ordering::Relaxed);
	}
}

struct Task {
	name: &'static str,
	fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
	flag: Arc<Flag>,
	waker: Waker,
}

pub type TaskId = usize;

/// Set of tasks. A task can be polled only if it is new or was woken.
#[derive(Default)]
pub struct Exec {
	tasks: Vec<Task>,
	pub polls: u64,
}

impl Exec {
	pub fn new() -> Self {
		Self::default()
	}

	pub fn spawn(&mut self, name: &'static str, fut: impl Future<Output = ()> + 'static) -> TaskId {
		let flag = Arc::new(Flag(AtomicBool::new(true)));
		let waker = Waker::from(flag.clone());
		self.tasks.push(Task {
			name,
			fut: Some(Box::pin(fut)),
			flag,
			waker,
		});
		self.tasks.len() - 1
	}

	/// Spawn a task with a result.
	pub fn spawn_with<T: 'static>(&mut self, name: &'static str, fut: impl Future<Output = T> + 'static) -> (TaskId, Slot<T>) {
		let slot = Slot::default();
		let out = slot.clone();
		let id = self.spawn(name, async move {
			let value = fut.await;
			out.set(value);
		});
		(id, slot)
	}

	pub fn is_done(&self, id: TaskId) -> bool {
		self.tasks[id].fut.is_none()
	}

	pub fn is_ready(&self, id: TaskId) -> bool {
		let t = &self.tasks[id];
		t.fut.is_some() && t.flag.0.load(Ordering::Relaxed)
	}

	pub fn name(&self, id: TaskId) -> &'static str {
		self.tasks[id].name
	}

	pub fn len(&self) -> usize {
		self.tasks.len()
	}

	/// All tasks that can make progress.
	pub fn ready(&self) -> Vec<TaskId> {
		(0..self.tasks.len()).filter(|&i| self.is_ready(i)).collect()
	}

	pub fn first_ready(&self) -> Option<TaskId> {
		(0..self.tasks.len()).find(|&i| self.is_ready(i))
	}

	/// Poll a task once, whether it was woken or not. Returns true if it completed.
	pub fn poll(&mut self, id: TaskId) -> bool {
		self.polls += 1;
		let task = &mut self.tasks[id];
		task.flag.0.store(false, Ordering::Relaxed);
		let Some(fut) = &mut task.fut else { return true };
		let mut cx = Context::from_waker(&task.waker);
		if let Poll::Ready(()) = fut.as_mut().poll(&mut cx) {
			task.fut = None;
			true
		} else {
			false
		}
	}

	/// Drop the future of a task.
	pub fn cancel(&mut self, id: TaskId) {
		self.tasks[id].fut = None;
	}

	/// Poll ready tasks in order until none is ready. Returns false if that takes more than `limit` polls.
	#[must_use]
	pub fn settle(&mut self, limit: u64) -> bool {
		let mut n = 0;
		while let Some(id) = self.first_ready() {
			self.poll(id);
			n += 1;
			if n > limit {
				return false;
			}
		}
		true
	}
}

/// A shared cell for the result of a task.
pub struct Slot<T>(Rc<RefCell<Option<T>>>, Rc<Cell<bool>>);

impl<T> Default for Slot<T> {
	fn default() -> Self {
		Slot(Rc::new(RefCell::new(None)), Rc::new(Cell::new(false)))
	}
}

impl<T> Clone for Slot<T> {
	fn clone(&self) -> Self {
		Slot(self.0.clone(), self.1.clone())
	}
}

impl<T> Slot<T> {
	pub fn set(&self, value: T) {
		*self.0.borrow_mut() = Some(value);
		self.1.set(true);
	}
	pub fn take(&self) -> Option<T> {
		self.0.borrow_mut().take()
	}
	pub fn is_set(&self) -> bool {
		self.1.get()
	}
	pub fn with<R>(&self, f: impl FnOnce(Option<&T>) -> R) -> R {
		f(self.0.borrow().as_ref())
	}
}

/// Poll a future once with a waker that does nothing.
pub fn poll_once<F: Future + Unpin>(fut: &mut F) -> Poll<F::Output> {
	let mut cx = Context::from_waker(Waker::noop());
	Pin::new(fut).poll(&mut cx)
}
