//! An allocator that records the largest allocation of the current thread, and what the thread has allocated and not freed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Tracking;

thread_local! {
	static LARGEST: Cell<usize> = const { Cell::new(0) };
	static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}

fn note(n: usize) {
	let _ = LARGEST.try_with(|x| {
		if n > x.get() {
			x.set(n)
		}
	});
}

fn live(blocks: i64, bytes: i64) {
	let _ = LIVE.try_with(|x| {
		let (a, b) = x.get();
		x.set((a + blocks, b + bytes));
	});
}

// Safety: forwards everything to the system allocator.
unsafe impl GlobalAlloc for Tracking {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		note(l.size());
		live(1, l.size() as i64);
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		live(-1, -(l.size() as i64));
		System.dealloc(p, l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		note(l.size());
		live(1, l.size() as i64);
		System.alloc_zeroed(l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		note(n);
		live(0, n as i64 - l.size() as i64);
		System.realloc(p, l, n)
	}
}

#[global_allocator]
static ALLOCATOR: Tracking = Tracking;

/// Forget the largest allocation of this thread.
pub fn reset() {
	LARGEST.with(|x| x.set(0));
}

/// The largest allocation of this thread since the last reset.
pub fn largest() -> usize {
	LARGEST.with(|x| x.get())
}

/// What this thread has allocated minus what it has freed: blocks and bytes.
///
/// Only differences are meaningful, and only if blocks are freed by the thread that allocated them.
pub fn in_use() -> (i64, i64) {
	LIVE.with(|x| x.get())
}

/// A vector of zeros whose memory is not touched (if the system has that much address space to give).
pub fn untouched(n: usize) -> Option<Vec<u8>> {
	let layout = Layout::array::<u8>(n).ok()?;
	// Safety: the pointer is checked, the layout is that of a vector with this capacity, and the memory is initialized.
	unsafe {
		let p = std::alloc::alloc_zeroed(layout);
		if p.is_null() {
			None
		} else {
			Some(Vec::from_raw_parts(p, n, n))
		}
	}
}
