//! An in-memory byte stream that splits, shortens and delays reads and writes as the explorer decides.

use crate::hooks::{read_half, write_half, ReadHalf, WriteHalf};
use crate::mock::{Msg, NoConfig, NoInfo};
use crate::sched::{choose, deviate, log, preempt};
use fizyr_rpc::transport::{Endian, Transport};
use fizyr_rpc::StreamBody;
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, IoSlice, Result};
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// How many bytes a single read or write transfers.
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Split {
	/// As many as possible.
	Full,
	/// Any number, all are explored.
	Every,
	/// Any number, or not ready yet. Everything but the maximum is a deviation.
	Bounded,
	/// A few interesting numbers, or not ready yet. Everything but the maximum is a deviation.
	Few,
}

/// No scenario writes this much.
const MAX_WRITTEN: usize = 128 << 20;

#[derive(Default)]
pub struct State {
	pub data: VecDeque<u8>,
	/// Everything that was ever written.
	pub written: Vec<u8>,
	pub capacity: Option<usize>,
	/// No more data will be written.
	pub eof: bool,
	/// The reader is gone.
	pub broken: bool,
	/// Writing fails after this many bytes.
	pub fail_at: Option<usize>,
	pub read_waker: Option<Waker>,
	pub write_waker: Option<Waker>,
	pub read_delayed: bool,
	pub write_delayed: bool,
	pub reads: u64,
	pub writes: u64,
}

#[derive(Clone, Default)]
pub struct Pipe(pub Arc<Mutex<State>>);

impl Pipe {
	pub fn new(capacity: Option<usize>) -> Self {
		let p = Pipe::default();
		p.with(|s| s.capacity = capacity);
		p
	}

	fn lock(&self) -> MutexGuard<State> {
		self.0.lock().unwrap_or_else(|e| e.into_inner())
	}

	pub fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
		f(&mut self.lock())
	}

	/// Put data in the pipe.
	pub fn feed(&self, data: &[u8]) {
		let w = self.with(|s| {
			s.data.extend(data);
			s.read_waker.take()
		});
		if let Some(w) = w {
			w.wake();
		}
	}

	pub fn close(&self) {
		let w = self.with(|s| {
			s.eof = true;
			s.read_waker.take()
		});
		if let Some(w) = w {
			w.wake();
		}
	}

	pub fn break_write(&self) {
		let w = self.with(|s| {
			s.broken = true;
			s.write_waker.take()
		});
		if let Some(w) = w {
			w.wake();
		}
	}

	pub fn reader(&self, split: Split) -> Reader {
		Reader { pipe: self.clone(), split }
	}

	pub fn writer(&self, split: Split, vectored: bool) -> Writer {
		Writer { pipe: self.clone(), split, vectored }
	}

	pub fn written(&self) -> Vec<u8> {
		self.with(|s| s.written.clone())
	}
}

/// Pick how many of `n` bytes to transfer. `None`: not ready.
fn amount(split: Split, n: usize, delayed: bool) -> Option<usize> {
	match split {
		Split::Full => Some(n),
		Split::Every => Some(n - choose(n)),
		Split::Bounded => {
			let c = deviate(if delayed { n } else { n + 1 });
			if c == n {
				None
			} else {
				Some(n - c)
			}
		},
		Split::Few => {
			let mut options = vec![n];
			for x in [1, 3, 4, 12, 15, 16, 17, n / 2, n.saturating_sub(1)] {
				if x > 0 && x < n && !options.contains(&x) {
					options.push(x);
				}
			}
			let c = deviate(if delayed { options.len() } else { options.len() + 1 });
			options.get(c).copied()
		},
	}
}

pub struct Reader {
	pipe: Pipe,
	split: Split,
}

impl AsyncRead for Reader {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context, buf: &mut ReadBuf) -> Poll<Result<()>> {
		preempt();
		let waker = {
			let mut s = self.pipe.lock();
			s.reads += 1;
			let n = buf.remaining().min(s.data.len());
			if n == 0 {
				if s.eof && s.data.is_empty() || buf.remaining() == 0 {
					return Poll::Ready(Ok(()));
				}
				s.read_waker = Some(cx.waker().clone());
				return Poll::Pending;
			}
			let Some(n) = amount(self.split, n, s.read_delayed) else {
				s.read_delayed = true;
				log(|| "  read: not ready".into());
				drop(s);
				cx.waker().wake_by_ref();
				return Poll::Pending;
			};
			s.read_delayed = false;
			let (a, b) = s.data.as_slices();
			let k = n.min(a.len());
			buf.put_slice(&a[..k]);
			buf.put_slice(&b[..n - k]);
			s.data.drain(..n);
			log(|| format!("  read {n} bytes"));
			s.write_waker.take()
		};
		if let Some(w) = waker {
			w.wake();
		}
		Poll::Ready(Ok(()))
	}
}

impl Drop for Reader {
	fn drop(&mut self) {
		self.pipe.break_write();
	}
}

pub struct Writer {
	pipe: Pipe,
	split: Split,
	vectored: bool,
}

impl Writer {
	fn write(&self, cx: &mut Context, bufs: &[&[u8]]) -> Poll<Result<usize>> {
		preempt();
		let total: usize = bufs.iter().map(|b| b.len()).sum();
		if total == 0 {
			return Poll::Ready(Ok(0));
		}
		let (waker, n) = {
			let mut s = self.pipe.lock();
			s.writes += 1;
			assert!(s.written.len() <= MAX_WRITTEN, "writes do not come to an end");
			if s.broken {
				return Poll::Ready(Err(Error::from(ErrorKind::BrokenPipe)));
			}
			let mut space = s.capacity.map_or(total, |c| c.saturating_sub(s.data.len()));
			if let Some(f) = s.fail_at {
				let left = f.saturating_sub(s.written.len());
				if left == 0 {
					return Poll::Ready(Err(Error::from(ErrorKind::ConnectionReset)));
				}
				space = space.min(left);
			}
			let n = total.min(space);
			if n == 0 {
				s.write_waker = Some(cx.waker().clone());
				return Poll::Pending;
			}
			let Some(n) = amount(self.split, n, s.write_delayed) else {
				s.write_delayed = true;
				log(|| "  write: not ready".into());
				drop(s);
				cx.waker().wake_by_ref();
				return Poll::Pending;
			};
			s.write_delayed = false;
			let mut left = n;
			for b in bufs {
				let k = left.min(b.len());
				s.data.extend(&b[..k]);
				s.written.extend_from_slice(&b[..k]);
				left -= k;
			}
			log(|| format!("  write {n} of {total} bytes"));
			(s.read_waker.take(), n)
		};
		if let Some(w) = waker {
			w.wake();
		}
		Poll::Ready(Ok(n))
	}
}

impl AsyncWrite for Writer {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<Result<usize>> {
		self.write(cx, &[buf])
	}

	fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context, bufs: &[IoSlice]) -> Poll<Result<usize>> {
		if self.vectored {
			let bufs: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
			self.write(cx, &bufs)
		} else {
			let first = bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b);
			self.write(cx, &[first])
		}
	}

	fn is_write_vectored(&self) -> bool {
		self.vectored
	}

	fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Result<()>> {
		Poll::Ready(Ok(()))
	}

	fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Result<()>> {
		self.pipe.close();
		Poll::Ready(Ok(()))
	}
}

impl Drop for Writer {
	fn drop(&mut self) {
		self.pipe.close();
	}
}

/// Settings of one end of a byte stream connection.
#[derive(Debug, Copy, Clone)]
pub struct Settings {
	pub read: Split,
	pub write: Split,
	pub vectored: bool,
	pub endian: Endian,
	pub max_read: u32,
	pub max_write: u32,
}

/// The library's stream transport over two pipes.
pub struct ByteTransport {
	pub incoming: Pipe,
	pub outgoing: Pipe,
	pub settings: Settings,
}

impl Transport for ByteTransport {
	type Body = StreamBody;
	type Info = NoInfo;
	type Config = NoConfig;
	type ReadHalf<'a> = ReadHalf<Reader>;
	type WriteHalf<'a> = WriteHalf<Writer>;

	fn split(&mut self) -> (ReadHalf<Reader>, WriteHalf<Writer>) {
		let s = &self.settings;
		(
			read_half(self.incoming.reader(s.read), s.max_read, s.endian),
			write_half(self.outgoing.writer(s.write, s.vectored), s.max_write, s.endian),
		)
	}

	fn info(&self) -> Result<NoInfo> {
		Ok(NoInfo)
	}
}

fn put(out: &mut Vec<u8>, x: u32, endian: Endian) {
	match endian {
		Endian::LittleEndian => out.extend(x.to_le_bytes()),
		Endian::BigEndian => out.extend(x.to_be_bytes()),
		Endian::NativeEndian => out.extend(x.to_ne_bytes()),
	}
}

/// The header of a message as documented, independent of the library.
pub fn encode_header(m: &Msg, endian: Endian) -> Vec<u8> {
	use fizyr_rpc::MessageType::*;
	let mut out = Vec::new();
	let t = match m.header.message_type {
		Request => 0,
		Response => 1,
		RequesterUpdate => 2,
		ResponderUpdate => 3,
		Stream => 4,
	};
	put(&mut out, t, endian);
	put(&mut out, m.header.request_id, endian);
	put(&mut out, m.header.service_id as u32, endian);
	out
}

/// A message on a byte stream as documented, independent of the library.
pub fn encode_frame(m: &Msg, endian: Endian) -> Vec<u8> {
	let mut out = Vec::new();
	put(&mut out, 12 + m.body.len() as u32, endian);
	out.extend(encode_header(m, endian));
	out.extend(&m.body);
	out
}

/// A frame with arbitrary fields.
pub fn raw_frame(length: u32, kind: u32, id: u32, service: u32, body: &[u8], endian: Endian) -> Vec<u8> {
	let mut out = Vec::new();
	put(&mut out, length, endian);
	put(&mut out, kind, endian);
	put(&mut out, id, endian);
	put(&mut out, service, endian);
	out.extend(body);
	out
}
