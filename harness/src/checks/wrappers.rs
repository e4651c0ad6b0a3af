//! Transport halves and listeners behind references, boxes and pinned pointers.
use fizyr_rpc::transport::{TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::util::Listener;
use fizyr_rpc::{Message, MessageHeader, MessageType, StreamBody};
use mc::explore::{Ctx, Res};
use mc::mock::{new_error, Msg};
use mc::report::Check;
use mc::{check, fail};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// What the wrapped object answers to the next call.
#[derive(Debug, Copy, Clone, PartialEq)]
enum Answer {
	/// Not ready. The waker is kept.
	Pending,
	/// Success.
	Done,
	/// An error that leaves the transport usable.
	Refused,
	/// An error that ends the transport.
	Fatal,
}

const ANSWERS: [Answer; 4] = [Answer::Pending, Answer::Done, Answer::Refused, Answer::Fatal];

/// What the wrapped object saw.
#[derive(Default)]
struct Seen {
	next: Option<Answer>,
	/// Which message is read, or which error is reported.
	item: usize,
	calls: usize,
	header: Option<MessageHeader>,
	body: Option<(usize, Vec<u8>)>,
	waker: Option<Waker>,
}

#[derive(Clone)]
struct Inner(Arc<Mutex<Seen>>);

impl Inner {
	fn call(&self, context: &Context) -> (Answer, usize) {
		let mut s = self.0.lock().unwrap();
		s.calls += 1;
		s.waker = Some(context.waker().clone());
		(s.next.expect("an answer is planned"), s.item)
	}
}

fn error(fatal: bool, item: usize) -> TransportError {
	let text = if fatal { "fatal" } else { "refused" };
	match item {
		0 => new_error(text, fatal),
		i => mc::hooks::new_error_from(io_error(i), fatal),
	}
}

/// Errors of every kind, with the plain one first.
fn io_error(item: usize) -> std::io::Error {
	use std::io::ErrorKind::*;
	let kinds = [OutOfMemory, ConnectionReset, Interrupted, WouldBlock, ConnectionAborted, ConnectionRefused, NotConnected, BrokenPipe, TimedOut, InvalidData, InvalidInput, UnexpectedEof, WriteZero, AddrInUse, PermissionDenied, NotFound, Other];
	match kinds.get(item) {
		Some(kind) => std::io::Error::from(*kind),
		None => std::io::Error::from_raw_os_error([libc::EMFILE, libc::ENFILE, libc::EINTR, libc::EAGAIN, libc::ECONNABORTED, libc::EPROTO, libc::ENOBUFS, libc::EMSGSIZE][(item - kinds.len()) % 8]),
	}
}

const IO_ERRORS: usize = 25;

const TYPES: [MessageType; 5] = [MessageType::Request, MessageType::Response, MessageType::RequesterUpdate, MessageType::ResponderUpdate, MessageType::Stream];
const REQUEST_IDS: [u32; 4] = [0, 1, 0x8000_0000, u32::MAX];
const SERVICE_IDS: [i32; 5] = [0, 1, -1, i32::MIN, i32::MAX];
const BODIES: [&[u8]; 4] = [b"", b"x", b"\0\0\0\0\0\0\0\0\0\0\0\0", &[0xff; 70]];
const MESSAGES: usize = 5 * 4 * 5 * 4;

/// Messages of all types, with the plain one first.
fn message(item: usize) -> Msg {
	if item == 0 {
		return Msg::new(MessageHeader::responder_update(77, -3), *b"payload");
	}
	let i = item - 1;
	let header = MessageHeader { message_type: TYPES[i % 5], request_id: REQUEST_IDS[i / 5 % 4], service_id: SERVICE_IDS[i / 20 % 5] };
	Msg::new(header, BODIES[i / 100 % 4])
}

impl TransportReadHalf for Inner {
	type Body = StreamBody;
	fn poll_read_msg(self: Pin<&mut Self>, context: &mut Context) -> Poll<Result<Message<StreamBody>, TransportError>> {
		match self.call(context) {
			(Answer::Pending, _) => Poll::Pending,
			(Answer::Done, item) => {
				let m = message(item);
				Poll::Ready(Ok(Message::new(m.header, m.body.into())))
			},
			(answer, item) => Poll::Ready(Err(error(answer == Answer::Fatal, item))),
		}
	}
}

impl TransportWriteHalf for Inner {
	type Body = StreamBody;
	fn poll_write_msg(self: Pin<&mut Self>, context: &mut Context, header: &MessageHeader, body: &StreamBody) -> Poll<Result<(), TransportError>> {
		{
			let mut s = self.0.lock().unwrap();
			s.header = Some(*header);
			s.body = Some((body.data.as_ptr() as usize, body.data.clone()));
		}
		match self.call(context) {
			(Answer::Pending, _) => Poll::Pending,
			(Answer::Done, _) => Poll::Ready(Ok(())),
			(answer, item) => Poll::Ready(Err(error(answer == Answer::Fatal, item))),
		}
	}
}

impl Listener for Inner {
	type Connection = u32;
	type Address = &'static str;
	fn poll_accept(self: Pin<&mut Self>, context: &mut Context) -> Poll<std::io::Result<(u32, &'static str)>> {
		match self.call(context) {
			(Answer::Pending, _) => Poll::Pending,
			(Answer::Done, _) => Poll::Ready(Ok((4711, "somewhere"))),
			(Answer::Refused, item) => Poll::Ready(Err(io_error(item + 1))),
			(Answer::Fatal, item) => Poll::Ready(Err(io_error(item))),
		}
	}
}

/// A waker that counts.
struct Count(AtomicUsize);
impl Wake for Count {
	fn wake(self: Arc<Self>) {
		self.0.fetch_add(1, Ordering::SeqCst);
	}
}

/// One use of a wrapped object: what was planned and what came out.
struct Use<'a> {
	ctx: &'a mut Ctx,
	seen: Arc<Mutex<Seen>>,
	steps: usize,
	/// Poll through the future of the convenience function instead of directly.
	future: bool,
	/// Messages and errors of all kinds, instead of the plain ones.
	variety: Option<usize>,
	plain_errors: bool,
	item: usize,
	/// The wrapped object is never ready, and only the rest of the task matters.
	idle: bool,
}

impl Use<'_> {
	/// Plan an answer, make a call, and check that exactly this one call arrived with this waker.
	fn call<R>(&mut self, poll: impl FnOnce(&mut Context) -> Poll<R>) -> Res<(Answer, Poll<R>)> {
		if self.idle {
			return self.rest(poll);
		}
		let answer = ANSWERS[self.ctx.choose(4)];
		if let Some(n) = self.variety {
			self.item = match answer {
				Answer::Pending => 0,
				Answer::Done => self.ctx.choose(n),
				_ if self.plain_errors => 0,
				_ => self.ctx.choose(IO_ERRORS - 1),
			};
		}
		self.ctx.step();
		let count = Arc::new(Count(AtomicUsize::new(0)));
		let waker = Waker::from(count.clone());
		let before = {
			let mut s = self.seen.lock().unwrap();
			s.next = Some(answer);
			s.item = self.item;
			s.waker = None;
			s.calls
		};
		let result = poll(&mut Context::from_waker(&waker));
		let (calls, seen_waker) = {
			let mut s = self.seen.lock().unwrap();
			s.next = None;
			(s.calls - before, s.waker.take())
		};
		self.ctx.log(|| format!("answer {answer:?}: ready={} calls={calls}", result.is_ready()));
		check!(calls == 1, "one poll of the wrapper polls the wrapped object {calls} times");
		check!(count.0.load(Ordering::SeqCst) == 0, "the task is woken without a reason");
		check!(result.is_pending() == (answer == Answer::Pending), "the wrapped object answers {answer:?}, the wrapper {}", if result.is_ready() { "is ready" } else { "is not ready" });
		if let Some(w) = seen_waker {
			w.wake();
			check!(count.0.load(Ordering::SeqCst) == 1, "waking what the wrapped object registered wakes the task {} times", count.0.load(Ordering::SeqCst));
		}
		Ok((answer, result))
	}

	/// Make a call while the wrapped object is not ready, and check that nothing asks for another one.
	fn rest<R>(&mut self, poll: impl FnOnce(&mut Context) -> Poll<R>) -> Res<(Answer, Poll<R>)> {
		self.ctx.step();
		let count = Arc::new(Count(AtomicUsize::new(0)));
		self.seen.lock().unwrap().next = Some(Answer::Pending);
		let result = poll(&mut Context::from_waker(&Waker::from(count.clone())));
		check!(result.is_ready() || count.0.load(Ordering::SeqCst) == 0, "busy waiting: nothing is ready, but the task is woken at once");
		Ok((Answer::Pending, Poll::Pending))
	}

	fn error(&mut self, answer: Answer, e: TransportError) -> Res {
		let want = error(answer == Answer::Fatal, self.item);
		check!(matches!(answer, Answer::Refused | Answer::Fatal), "error {e} although the wrapped object answers {answer:?}");
		check!(e.is_fatal() == want.is_fatal() && e.to_string() == want.to_string() && e.inner().is_connection_aborted() == want.inner().is_connection_aborted(), "the error is changed from {want:?} to {e:?}");
		Ok(())
	}
}

fn read<T: TransportReadHalf<Body = StreamBody>>(u: &mut Use, half: &mut T) -> Res {
	for _ in 0..u.steps {
		let future = u.future;
		let (answer, r) = u.call(|c| if future { Pin::new(&mut half.read_msg()).poll(c) } else { Pin::new(&mut *half).poll_read_msg(c) })?;
		match r {
			Poll::Pending => (),
			Poll::Ready(Ok(m)) => {
				check!(answer == Answer::Done, "a message although the wrapped object answers {answer:?}");
				check!(Msg::of(&m) == message(u.item), "the message is changed to {}", Msg::of(&m).short());
			},
			Poll::Ready(Err(e)) => u.error(answer, e)?,
		}
	}
	Ok(())
}

fn write<T: TransportWriteHalf<Body = StreamBody>>(u: &mut Use, half: &mut T) -> Res {
	for i in 0..u.steps {
		let future = u.future;
		let mut header = [MessageHeader::request(1, 2), MessageHeader::stream(u32::MAX, i32::MIN), MessageHeader::error_response(5)][i % 3];
		let mut body = StreamBody::from([&b""[..], b"x", b"some more"][i % 3]);
		if u.variety.is_some() {
			let k = u.ctx.choose(MESSAGES + 1);
			u.plain_errors = k > 0;
			let m = message(k);
			(header, body) = (m.header, m.body.into());
		}
		let (answer, r) = u.call(|c| if future { Pin::new(&mut half.write_msg(&header, &body)).poll(c) } else { Pin::new(&mut *half).poll_write_msg(c, &header, &body) })?;
		let (h, b) = {
			let mut s = u.seen.lock().unwrap();
			(s.header.take(), s.body.take())
		};
		check!(u.idle || h == Some(header), "the header {header:?} arrives as {h:?}");
		check!(u.idle || b.as_ref().is_some_and(|b| b.1 == body.data), "the body {body:?} arrives as {b:?}");
		match r {
			Poll::Pending => (),
			Poll::Ready(Ok(())) => check!(answer == Answer::Done, "success although the wrapped object answers {answer:?}"),
			Poll::Ready(Err(e)) => u.error(answer, e)?,
		}
	}
	Ok(())
}

fn accept<T: Listener<Connection = u32, Address = &'static str> + Unpin>(u: &mut Use, listener: &mut T) -> Res {
	for _ in 0..u.steps {
		let future = u.future;
		let (answer, r) = u.call(|c| if future { Pin::new(&mut listener.accept()).poll(c) } else { Pin::new(&mut *listener).poll_accept(c) })?;
		match r {
			Poll::Pending => (),
			Poll::Ready(Ok(x)) => check!(answer == Answer::Done && x == (4711, "somewhere"), "{x:?} although the wrapped object answers {answer:?}"),
			Poll::Ready(Err(e)) => {
				let want = match answer {
					Answer::Refused => io_error(u.item + 1),
					Answer::Fatal => io_error(u.item),
					_ => fail!("error {e} although the wrapped object answers {answer:?}"),
				};
				check!(e.kind() == want.kind() && e.raw_os_error() == want.raw_os_error(), "the error is changed from {want:?} to {e:?}");
			},
		}
	}
	Ok(())
}

/// Wrap an object in any way for up to three levels, with static types all the way down.
macro_rules! nest {
	($name:ident, $use:ident, $bound:path) => {
		mod $name {
			use super::*;
			pub fn level0<T: $bound>(u: &mut Use, mut x: T) -> Res {
				$use(u, &mut x)
			}
			nest!(@level level1, level0, $bound);
			nest!(@level level2, level1, $bound);
			nest!(@level level3, level2, $bound);
		}
	};
	(@level $name:ident, $next:ident, $bound:path) => {
		pub fn $name<T: $bound>(u: &mut Use, mut x: T) -> Res {
			let kind = u.ctx.choose(5);
			u.ctx.log(|| ["no wrapper", "reference", "box", "pinned reference", "pinned box"][kind].to_string());
			match kind {
				0 => $next(u, x),
				1 => $next(u, &mut x),
				2 => $next(u, Box::new(x)),
				3 => $next(u, Pin::new(&mut x)),
				_ => $next(u, Box::pin(x)),
			}
		}
	};
}

trait Read: TransportReadHalf<Body = StreamBody> {}
impl<T: TransportReadHalf<Body = StreamBody>> Read for T {}
trait Write: TransportWriteHalf<Body = StreamBody> {}
impl<T: TransportWriteHalf<Body = StreamBody>> Write for T {}
trait Accept: Listener<Connection = u32, Address = &'static str> + Unpin {}
impl<T: Listener<Connection = u32, Address = &'static str> + Unpin> Accept for T {}

nest!(nest_read, read, Read);
nest!(nest_write, write, Write);
nest!(nest_accept, accept, Accept);

fn scenario(ctx: &mut Ctx, what: usize, steps: usize, variety: bool, idle: bool) -> Res {
	let seen = Arc::new(Mutex::new(Seen::default()));
	let inner = Inner(seen.clone());
	let future = ctx.choose(2) == 1;
	let variety = variety.then_some(if what == 0 { MESSAGES + 1 } else { 1 });
	let mut u = Use { ctx, seen, steps, future, variety, plain_errors: false, item: 0, idle };
	match what {
		0 => nest_read::level3(&mut u, inner),
		1 => nest_write::level3(&mut u, inner),
		_ => nest_accept::level3(&mut u, inner),
	}?;
	// The answers that were given, which are also the results.
	let answers: Vec<u8> = ctx.trace.iter().rev().take(steps).map(|x| x.0 as u8).collect();
	ctx.observe(&answers);
	Ok(())
}

pub fn p23(c: &mut Check) {
	let steps = c.bound(5, 7);
	for (what, name) in ["read halves", "write halves", "listeners"].into_iter().enumerate() {
		c.run(name, move |ctx| scenario(ctx, what, steps, false, false));
		c.run(&format!("{name}, all kinds of messages and errors"), move |ctx| scenario(ctx, what, 1, true, false));
	}
}

/// Wrapped objects that have nothing to do.
pub fn at_rest(c: &mut Check) {
	for (what, name) in ["read halves", "write halves", "listeners"].into_iter().enumerate() {
		c.run(&format!("{name} behind wrappers"), move |ctx| {
			scenario(ctx, what, 3, false, true)?;
			ctx.observe(&[what as u8]);
			Ok(())
		});
	}
}
