//! Checks that explore how a byte stream splits, delays and damages messages.

use fizyr_rpc::transport::{Endian, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{MessageHeader, MessageType, Peer, PeerHandle, ReceivedMessage, StreamBody};
use mc::hooks::{read_half, write_half};
use mc::explore::{Ctx, Options, Res};
use mc::mock::Msg;
use mc::pipe::{encode_frame, raw_frame, ByteTransport, Pipe, Settings, Split};
use mc::report::Check;
use mc::sched::Sched;
use mc::{check, fail};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

const MAX_STEPS: usize = 200_000;
pub const ENDIANS: [Endian; 3] = [Endian::LittleEndian, Endian::BigEndian, Endian::NativeEndian];

fn opts(budget: u32) -> Options {
	Options { budget, hang_limit: std::time::Duration::from_secs(30), ..Options::default() }
}

/// A body in which no two positions close to each other hold the same byte.
pub fn body(len: usize, salt: u8) -> Vec<u8> {
	(0..len).map(|i| (i as u32).wrapping_mul(31).wrapping_add((i as u32 >> 8) * 7).wrapping_add(salt as u32 * 53 + 1) as u8).collect()
}

/// Messages with all types and extreme fields.
pub fn message(i: usize, len: usize) -> Msg {
	let header = match i % 5 {
		0 => MessageHeader::request(0x01020304, -1),
		1 => MessageHeader::responder_update(u32::MAX, i32::MIN),
		2 => MessageHeader::response(0, 0x11223344),
		3 => MessageHeader::requester_update(0x80000000, i32::MAX),
		_ => MessageHeader::stream(17, -2),
	};
	Msg::new(header, body(len, i as u8))
}

/// What the receiving end saw.
#[derive(Debug, Clone, PartialEq)]
enum Event {
	Message(Msg),
	Error { aborted: bool, fatal: bool },
}

/// Read until a fatal error.
async fn read_all(mut read: impl TransportReadHalf<Body = StreamBody>, out: Rc<RefCell<Vec<Event>>>) {
	loop {
		match read.read_msg().await {
			Ok(m) => out.borrow_mut().push(Event::Message(Msg::of(&m))),
			Err(e) => {
				let fatal = e.is_fatal();
				out.borrow_mut().push(Event::Error { aborted: e.inner().is_connection_aborted(), fatal });
				if fatal {
					return;
				}
			},
		}
	}
}

fn check_events(events: &[Event], want: &[Msg]) -> Res {
	for (i, e) in events.iter().enumerate() {
		match e {
			Event::Message(m) => {
				check!(i < want.len(), "received {} after everything was received", m.short());
				check!(*m == want[i], "received {} instead of {} (message {i})", m.short(), want[i].short());
			},
			Event::Error { .. } => check!(i >= want.len(), "received {e:?} instead of {}", want[i].short()),
		}
	}
	check!(events.len() >= want.len(), "received only {} of {} messages", events.len(), want.len());
	Ok(())
}

struct Exchange {
	messages: Vec<Msg>,
	read: Split,
	write: Split,
	vectored: bool,
	capacity: Option<usize>,
	endian: Endian,
}

/// Messages cross a pipe.
fn exchange(ctx: &mut Ctx, x: Exchange) -> Res {
	let sched = Sched::new(ctx, false);
	let pipe = Pipe::new(x.capacity);
	let max = x.messages.iter().map(|m| m.body.len()).max().unwrap_or(0) as u32;
	let mut write = write_half(pipe.writer(x.write, x.vectored), max, x.endian);
	let read = read_half(pipe.reader(x.read), max, x.endian);
	let sent = Rc::new(Cell::new(0));
	let (count, messages, s) = (sent.clone(), x.messages.clone(), sched.handle());
	let writer = sched.spawn("writer", async move {
		for m in messages {
			if let Err(e) = write.write_msg(&m.header, &m.body.into()).await {
				s.fail(format!("write failed: {e}"));
			}
			count.set(count.get() + 1);
		}
	});
	let out = Rc::new(RefCell::new(Vec::new()));
	let reader = sched.spawn("reader", read_all(read, out.clone()));
	sched.run(MAX_STEPS, || Ok(()))?;
	let n = x.messages.len();
	check!(sched.is_done(writer), "a write never completes, {} of {n} messages were written", sent.get());
	let wire: Vec<u8> = x.messages.iter().flat_map(|m| encode_frame(m, x.endian)).collect();
	let written = pipe.written();
	check!(written == wire, "{} bytes were transmitted instead of the {} of the encoded messages, first difference at {:?}", written.len(), wire.len(), written.iter().zip(&wire).position(|(a, b)| a != b));
	check_events(&out.borrow(), &x.messages)?;
	check!(sched.is_done(reader), "the reader does not notice the end of the stream");
	check!(out.borrow().len() == n + 1, "received {} results for {n} messages and the end of the stream", out.borrow().len());
	let Event::Error { aborted: true, fatal: true } = out.borrow()[n] else {
		fail!("the end of the stream is reported as {:?}", out.borrow()[n]);
	};
	Ok(())
}

fn p01_single(ctx: &mut Ctx, max_len: usize, reads: bool, writes: bool, capacity: bool) -> Res {
	let len = ctx.choose(max_len + 1);
	let kind = ctx.choose(5);
	let endian = ENDIANS[ctx.choose(3)];
	let vectored = if writes { ctx.choose(2) == 1 } else { true };
	let capacity = if capacity { Some([1, 2, 5, 15, 16, 17][ctx.choose(6)]) } else { None };
	exchange(
		ctx,
		Exchange {
			messages: vec![message(kind, len)],
			read: if reads { Split::Every } else { Split::Full },
			write: if writes { Split::Every } else { Split::Full },
			vectored,
			capacity,
			endian,
		},
	)
}

fn p01_sequence(ctx: &mut Ctx, split: Split, lens: &[usize], n: usize, capacities: &[Option<usize>]) -> Res {
	let messages: Vec<Msg> = (0..n).map(|i| message(i, lens[ctx.choose(lens.len())])).collect();
	let vectored = ctx.choose(2) == 1;
	let capacity = capacities[ctx.choose(capacities.len())];
	exchange(ctx, Exchange { messages, read: split, write: split, vectored, capacity, endian: Endian::BigEndian })
}

/// Lengths around the powers of two at which implementations tend to change their behaviour.
const LARGE: [usize; 16] = [4095, 4096, 8192, 16_384, 32_768, 65_519, 65_535, 65_536, 65_537, 100_000, 131_072, 262_145, 1 << 20, (1 << 20) + 1, (1 << 22) + 1, (1 << 24) + 1];

fn p01_long(ctx: &mut Ctx, n: usize) -> Res {
	let len = [256, 8192, 255, 70001, 4096, 8191, 65535, 65536][ctx.choose(n)];
	let vectored = ctx.choose(2) == 1;
	let capacity = [None, Some(len / 2 + 7), Some(65536 + 16)][ctx.choose(3)];
	let endian = ENDIANS[ctx.choose(2)];
	exchange(ctx, Exchange { messages: vec![message(0, len), message(1, 0), message(2, len)], read: Split::Few, write: Split::Few, vectored, capacity, endian })
}

/// Many messages on one connection.
fn p01_many(ctx: &mut Ctx, sizes: &[usize]) -> Res {
	let n = sizes[ctx.choose(sizes.len())];
	let pattern = ctx.choose(4);
	let messages = (0..n).map(|i| {
		let len = match pattern {
			0 => 0,
			1 => i % 41,
			2 => 40 - i % 41,
			_ => [1, 0, 0, 300, 2][i % 5],
		};
		let mut m = message(i, len);
		m.header.request_id = i as u32;
		m
	});
	let messages = messages.collect();
	let vectored = ctx.choose(2) == 1;
	let capacity = [None, Some(1), Some(13), Some(64), Some(4096)][ctx.choose(5)];
	if capacity == Some(1) && n > 1100 {
		return Ok(());
	}
	exchange(ctx, Exchange { messages, read: Split::Full, write: Split::Full, vectored, capacity, endian: Endian::LittleEndian })
}

pub fn p01(c: &mut Check) {
	if !c.hooks() {
		return;
	}
	let c4 = c.bound(3, 4);
	let (w, r, b) = (c.bound(1, 3), c.bound(1, 3), c.bound(3, 4));
	c.run("every way to split the write of a message", |ctx| p01_single(ctx, w, false, true, false));
	c.run("every way to split the read of a message", |ctx| p01_single(ctx, r, true, false, false));
	c.run_opts("every way to split the read of a message, small buffers", opts(c.bound(1, 2)), |ctx| p01_single(ctx, 1, true, false, true));
	c.run_opts("sequences of messages, reads and writes shortened and delayed", opts(b), |ctx| p01_sequence(ctx, Split::Bounded, &[0, 1, 5], 2, &[None, Some(1), Some(7), Some(16), Some(40)]));
	c.run_opts("longer sequences of messages", opts(c.bound(2, 3)), |ctx| p01_sequence(ctx, Split::Few, &[0, 1, 40], c4, &[None, Some(9), Some(16), Some(40)]));
	let n = c.bound(4, 8);
	c.run_opts("long messages", opts(c.bound(2, 3)), |ctx| p01_long(ctx, n));
	c.run_opts("connected peers", opts(c.bound(2, 3)), |ctx| peers(ctx, Some(5), false, true));
	let sizes = &[40usize, 300, 1100, 70_000][..c.bound(3, 4)];
	c.run_opts("many messages", opts(0), |ctx| p01_many(ctx, sizes));
	let lens = c.bound(LARGE.len() - 2, LARGE.len());
	c.run("large messages in pieces", |ctx| p01_large_pieces(ctx, &LARGE[..lens]));
}

/// A large message that arrives in pieces, and a small one after it.
fn p01_large_pieces(ctx: &mut Ctx, lens: &[usize]) -> Res {
	let len = lens[ctx.choose(lens.len())];
	let endian = ENDIANS[ctx.choose(2)];
	let before = ctx.choose(2) == 1;
	let cut = |i: usize| [4, 15, 16, 17, 16 + len / 2, 16 + len - 1, 16 + len][i];
	let (first, second) = (ctx.choose(7), ctx.choose(7));
	let (first, second) = (cut(first).min(cut(second)), cut(first).max(cut(second)));
	let messages = [message(1, 2), message(0, len), message(3, 5)];
	let messages = if before { &messages[..] } else { &messages[1..] };
	let frames: Vec<Vec<u8>> = messages.iter().map(|m| encode_frame(m, endian)).collect();
	let sched = Sched::new(ctx, false);
	let pipe = Pipe::new(None);
	let read = read_half(pipe.reader(Split::Full), len as u32, endian);
	let out = Rc::new(RefCell::new(Vec::new()));
	let reader = sched.spawn("reader", read_all(read, out.clone()));
	let quiet = |n: usize| -> Res {
		while sched.ready().contains(&reader) {
			sched.poll(reader);
		}
		let k = out.borrow().len().min(messages.len());
		check_events(&out.borrow(), &messages[..k])?;
		check!(out.borrow().len() == n, "{} messages were received, {n} are complete", out.borrow().len());
		Ok(())
	};
	let large = before as usize;
	if before {
		pipe.feed(&frames[0]);
		quiet(1)?;
	}
	let frame = &frames[large];
	for (from, to) in [(0, first), (first, second), (second, frame.len())] {
		sched.ctx(|c| c.step());
		pipe.feed(&frame[from..to]);
		quiet(large + (to == frame.len()) as usize)?;
	}
	pipe.feed(&frames[large + 1]);
	quiet(large + 2)
}

// ---------------------------------------------------------------- P02

/// What a receiver of these bytes should do, according to the documented format.
pub fn specification(data: &[u8], limit: u32, endian: Endian) -> (Vec<Msg>, bool) {
	let get = |b: &[u8]| {
		let b: [u8; 4] = b.try_into().unwrap();
		match endian {
			Endian::LittleEndian => u32::from_le_bytes(b),
			Endian::BigEndian => u32::from_be_bytes(b),
			Endian::NativeEndian => u32::from_ne_bytes(b),
		}
	};
	let mut rest = data;
	let mut out = Vec::new();
	loop {
		if rest.len() < 16 {
			return (out, false);
		}
		let length = get(&rest[0..4]);
		let (kind, id, service) = (get(&rest[4..8]), get(&rest[8..12]), get(&rest[12..16]) as i32);
		if length < 12 || length - 12 > limit || kind > 4 {
			return (out, true);
		}
		let n = (length - 12) as usize;
		if rest.len() - 16 < n {
			return (out, false);
		}
		let message_type = [MessageType::Request, MessageType::Response, MessageType::RequesterUpdate, MessageType::ResponderUpdate, MessageType::Stream][kind as usize];
		out.push(Msg::new(MessageHeader { message_type, request_id: id, service_id: service }, &rest[16..16 + n]));
		rest = &rest[16 + n..];
	}
}

fn hostile(ctx: &mut Ctx, data: &[u8], limit: u32, endian: Endian, open: bool, split: Split) -> Res {
	let (want, defect) = specification(data, limit, endian);
	ctx.log(|| format!("limit {limit}, {endian:?}, data {data:?}"));
	let sched = Sched::new(ctx, false);
	let pipe = Pipe::new(None);
	pipe.feed(data);
	if !open {
		pipe.close();
	}
	let out = Rc::new(RefCell::new(Vec::with_capacity(16)));
	let read = read_half(pipe.reader(split), limit, endian);
	mc::alloc::reset();
	let task = sched.spawn("reader", read_all(read, out.clone()));
	sched.run(MAX_STEPS, || Ok(()))?;
	let largest = mc::alloc::largest();
	check!(largest <= 2 * limit as usize + 8192, "allocated {largest} bytes at once, the limit for messages is {limit}");
	let events = out.borrow();
	check_events(&events, &want)?;
	if defect || !open {
		check!(events.len() == want.len() + 1, "received {} results for {} messages and a defect: {:?}", events.len(), want.len(), events.iter().skip(want.len()).collect::<Vec<_>>());
		check!(matches!(events[want.len()], Event::Error { fatal: true, .. }), "the defect does not end the connection");
	} else {
		check!(events.len() == want.len(), "unexpected results for an incomplete message: {:?}", &events[want.len()..]);
		check!(!sched.is_done(task), "reader stopped");
	}
	Ok(())
}

const LENGTHS: [u32; 18] = [0, 1, 4, 8, 11, 12, 13, 16, 17, 18, 100, 1035, 1036, 1037, 0x7fffffff, 0x80000000, u32::MAX - 11, u32::MAX];
const KINDS: [u32; 9] = [4, 0, 3, 5, 6, 255, 256, 0x01000000, u32::MAX];

fn p02_defects(ctx: &mut Ctx, max_good: usize) -> Res {
	let limit = [0, 5, 1024][ctx.choose(3)];
	let endian = ENDIANS[ctx.choose(2)];
	let good = ctx.choose(max_good + 1);
	let length = LENGTHS[ctx.choose(LENGTHS.len())];
	let kind = KINDS[ctx.choose(KINDS.len())];
	let mut data = Vec::new();
	for i in 0..good {
		data.extend(encode_frame(&message(i, (limit as usize).min(i + 1)), endian));
	}
	let start = data.len();
	data.extend(raw_frame(length, kind, 0x0a0b0c0d, 0x10203040, &body(8, 9), endian));
	// Something that could be taken for a message after the defect.
	data.extend(encode_frame(&message(4, 0), endian));
	let open = ctx.choose(2) == 1;
	let cut = ctx.choose(data.len() - start + 1);
	data.truncate(data.len() - cut);
	hostile(ctx, &data, limit, endian, open, Split::Few)
}

fn p02_length_bytes(ctx: &mut Ctx) -> Res {
	const BYTES: [u8; 8] = [0, 1, 11, 12, 13, 17, 128, 255];
	let endian = ENDIANS[ctx.choose(3)];
	let limit = [5, 65536][ctx.choose(2)];
	let mut data = Vec::new();
	for _ in 0..4 {
		data.push(BYTES[ctx.choose(8)]);
	}
	for b in [4, 1, 2, 3] {
		let kind: [u8; 4] = if endian == Endian::BigEndian { [0, 0, 0, b] } else { [b, 0, 0, 0] };
		if b == 4 {
			data.extend(kind);
		}
	}
	data.extend([1, 0, 0, 0, 2, 0, 0, 0]);
	data.extend(body(10, 1));
	let open = ctx.choose(2) == 1;
	hostile(ctx, &data, limit, endian, open, Split::Full)
}

/// Everything a peer makes of damaged input.
fn p02_peer(ctx: &mut Ctx) -> Res {
	let limit = 6;
	let endian = ENDIANS[ctx.choose(2)];
	let good = ctx.choose(3);
	let length = [12, 0, 11, 17, 18, 19, u32::MAX][ctx.choose(7)];
	let kind = [4, 0, 5, u32::MAX][ctx.choose(4)];
	let mut data = Vec::new();
	for i in 0..good {
		data.extend(encode_frame(&Msg::new(MessageHeader::stream(i as u32, 7), body(i, 1)), endian));
	}
	let start = data.len();
	data.extend(raw_frame(length, kind, 3, 9, &body(6, 9), endian));
	let cut = ctx.choose(data.len() - start + 1);
	data.truncate(data.len() - cut);
	let (want, _) = specification(&data, limit, endian);
	let sched = Sched::new(ctx, false);
	let (incoming, outgoing) = (Pipe::new(None), Pipe::new(None));
	let settings = Settings { read: Split::Few, write: Split::Full, vectored: true, endian, max_read: limit, max_write: 100 };
	let (peer, mut handle) = Peer::new(ByteTransport { incoming: incoming.clone(), outgoing: outgoing.clone(), settings });
	let task = sched.spawn("peer", peer.run());
	let s = sched.handle();
	let app = sched.spawn("application", async move {
		let mut got = Vec::new();
		loop {
			match handle.recv_message().await {
				Ok(ReceivedMessage::Stream(m)) => got.push(Msg::of(&m)),
				Ok(ReceivedMessage::Request(h, b)) => got.push(Msg::new(MessageHeader::request(h.request_id(), h.service_id()), b.data)),
				Err(e) => {
					if got != want {
						s.fail(format!("received {got:?} instead of {want:?} before an error"));
					}
					if e.is_connection_aborted() {
						break;
					}
					match handle.recv_message().await {
						Err(e) if e.is_connection_aborted() => break,
						x => s.fail(format!("received {x:?} after the error")),
					}
				},
			}
		}
		if handle.send_stream(1, "x").await.is_ok() {
			s.fail("a message was sent after the connection ended".into());
		}
	});
	incoming.feed(&data);
	sched.run(MAX_STEPS, || Ok(()))?;
	if !sched.is_done(task) {
		// Incomplete message.
		incoming.close();
		sched.run(MAX_STEPS, || Ok(()))?;
	}
	check!(sched.is_done(task), "the peer does not stop after the defect");
	check!(sched.is_done(app), "the application does not notice the end of the connection");
	Ok(())
}

/// The connection breaks after any number of bytes.
fn p02_broken(ctx: &mut Ctx) -> Res {
	let endian = ENDIANS[ctx.choose(2)];
	let messages: Vec<Msg> = (0..3).map(|i| message(i, [2, 0, 3][i])).collect();
	let total: usize = messages.iter().map(|m| m.body.len() + 16).sum();
	let fail_at = ctx.choose(total);
	let vectored = ctx.choose(2) == 1;
	let sched = Sched::new(ctx, false);
	let pipe = Pipe::new(None);
	pipe.with(|s| s.fail_at = Some(fail_at));
	let mut write = write_half(pipe.writer(Split::Few, vectored), 100, endian);
	let read = read_half(pipe.reader(Split::Few), 100, endian);
	let written = Rc::new(Cell::new(0));
	let (count, list, s) = (written.clone(), messages.clone(), sched.handle());
	let writer = sched.spawn("writer", async move {
		for m in list {
			match write.write_msg(&m.header, &m.body.into()).await {
				Ok(()) => count.set(count.get() + 1),
				Err(e) => {
					if !e.is_fatal() {
						s.fail("a failed write is not reported as fatal".into());
					}
					return;
				},
			}
		}
	});
	let out = Rc::new(RefCell::new(Vec::new()));
	let reader = sched.spawn("reader", read_all(read, out.clone()));
	sched.run(MAX_STEPS, || Ok(()))?;
	check!(sched.is_done(writer) && sched.is_done(reader), "reader or writer do not stop when the connection breaks");
	let mut complete = 0;
	let mut offset = 0;
	for m in &messages {
		offset += 16 + m.body.len();
		if offset <= fail_at {
			complete += 1;
		}
	}
	check!(written.get() == complete, "{} writes report success, but {complete} messages were transmitted", written.get());
	check_events(&out.borrow(), &messages[..complete])?;
	check!(out.borrow().len() == complete + 1, "an incomplete message is not reported as an error");
	Ok(())
}

pub fn p02(c: &mut Check) {
	if !c.hooks() {
		return;
	}
	c.run_opts("defects after well-formed messages", opts(c.bound(1, 2)), |ctx| p02_defects(ctx, 2));
	c.run("every combination of length bytes", p02_length_bytes);
	c.run_opts("peers with defective input", opts(c.bound(2, 3)), p02_peer);
	c.run_opts("connection breaks at any byte", opts(c.bound(2, 3)), p02_broken);
}

// ---------------------------------------------------------------- P03 (streams)

/// The limits of a stream, for every length close to them.
fn p03_stream(ctx: &mut Ctx, max: usize) -> Res {
	let endian = ENDIANS[ctx.choose(2)];
	let send = ctx.choose(max + 1);
	let recv = ctx.choose(max + 1);
	let lens: Vec<usize> = (0..2).map(|_| ctx.choose(max + 2)).collect();
	let vectored = ctx.choose(2) == 1;
	limits(ctx, endian, send, recv, &lens, vectored)
}

fn p03_stream_large(ctx: &mut Ctx) -> Res {
	const LENS: [usize; 9] = [255, 256, 257, 8191, 8192, 8193, 65535, 65536, 65537];
	let send = LENS[ctx.choose(9)];
	let recv = LENS[ctx.choose(9)];
	let lens: Vec<usize> = (0..2).map(|_| LENS[ctx.choose(9)]).collect();
	limits(ctx, Endian::LittleEndian, send, recv, &lens, true)
}

fn limits(ctx: &mut Ctx, endian: Endian, send: usize, recv: usize, lens: &[usize], vectored: bool) -> Res {
	let mut messages: Vec<Msg> = lens.iter().enumerate().map(|(i, &l)| message(i, l)).collect();
	messages.push(message(7, 0));
	ctx.log(|| format!("send limit {send}, receive limit {recv}, lengths {lens:?}"));
	let sched = Sched::new(ctx, false);
	let pipe = Pipe::new(None);
	let mut write = write_half(pipe.writer(Split::Few, vectored), send as u32, endian);
	let read = read_half(pipe.reader(Split::Few), recv as u32, endian);
	let (list, s, p) = (messages.clone(), sched.handle(), pipe.clone());
	let writer = sched.spawn("writer", async move {
		for m in list {
			let before = p.written().len();
			let (len, m) = (m.body.len(), m);
			match write.write_msg(&m.header, &m.body.into()).await {
				Ok(()) if len > send => s.fail(format!("a body of {len} bytes was sent, the limit is {send}")),
				Ok(()) => (),
				Err(e) if len <= send => s.fail(format!("a body of {len} bytes was refused, the limit is {send}: {e}")),
				Err(e) => {
					if e.is_fatal() {
						s.fail("refusing a body is reported as fatal".into());
					}
					if p.written().len() != before {
						s.fail("a part of a refused message was transmitted".into());
					}
				},
			}
		}
	});
	let out = Rc::new(RefCell::new(Vec::new()));
	let reader = sched.spawn("reader", read_all(read, out.clone()));
	sched.run(MAX_STEPS, || Ok(()))?;
	check!(sched.is_done(writer) && sched.is_done(reader), "does not come to an end");
	let sent: Vec<Msg> = messages.into_iter().filter(|m| m.body.len() <= send).collect();
	let n = sent.iter().position(|m| m.body.len() > recv).unwrap_or(sent.len());
	check_events(&out.borrow(), &sent[..n])?;
	check!(out.borrow().len() == n + 1 && matches!(out.borrow()[n], Event::Error { fatal: true, .. }), "results after the accepted messages: {:?}", &out.borrow()[n..]);
	Ok(())
}

/// Bodies close to and beyond what the length field can represent.
fn p03_huge(ctx: &mut Ctx) -> Res {
	const MAX: usize = u32::MAX as usize;
	const HALF: usize = 0x8000_0000;
	let limit = [u32::MAX, u32::MAX - 11, u32::MAX - 12, u32::MAX - 13, 100, 0, HALF as u32, HALF as u32 - 1][ctx.choose(8)];
	let len = [MAX - 13, MAX - 12, MAX - 11, MAX - 1, MAX, MAX + 1, MAX + 2, MAX + 6, MAX + 101, HALF - 13, HALF - 12, HALF - 1, HALF, HALF + 1][ctx.choose(14)];
	let Some(data) = mc::alloc::untouched(len) else {
		ctx.log(|| "not enough address space".into());
		return Ok(());
	};
	let sched = Sched::new(ctx, false);
	let sink = Sink::default();
	let (bytes, first) = (sink.bytes.clone(), sink.first.clone());
	let mut write = write_half(sink, limit, Endian::LittleEndian);
	let s = sched.handle();
	let n = bytes.clone();
	let writer = sched.spawn("writer", async move {
		let should_fit = len <= limit as usize && len <= MAX - 12;
		let result = write.write_msg(&MessageHeader::stream(1, 2), &StreamBody { data }).await;
		match result {
			Ok(()) if !should_fit => s.fail(format!("a body of {len} bytes was sent, the limit is {limit}")),
			Ok(()) => {
				if n.load(std::sync::atomic::Ordering::Relaxed) != len as u64 + 16 {
					s.fail("not everything was transmitted".into());
				}
				let first = first.lock().unwrap().clone();
				if first[..4] != (len as u32 + 12).to_le_bytes() {
					s.fail(format!("transmitted the length {:?} for a body of {len} bytes", &first[..4]));
				}
			},
			Err(e) if should_fit => s.fail(format!("a body of {len} bytes was refused, the limit is {limit}: {e}")),
			Err(e) => {
				if e.is_fatal() {
					s.fail("refusing a body is reported as fatal".into());
				}
				if n.load(std::sync::atomic::Ordering::Relaxed) != 0 {
					s.fail("a part of a refused message was transmitted".into());
				}
				// The connection is still usable.
				if write.write_msg(&MessageHeader::stream(1, 2), &StreamBody { data: Vec::new() }).await.is_err() {
					s.fail("the connection is not usable after a refusal".into());
				}
			},
		}
	});
	sched.run(MAX_STEPS, || Ok(()))?;
	check!(sched.is_done(writer), "the write does not complete");
	Ok(())
}

/// Incoming bodies of any representable length.
fn p03_huge_received(ctx: &mut Ctx) -> Res {
	const HALF: u32 = 0x8000_0000;
	let limit = [u32::MAX, u32::MAX - 11, u32::MAX - 12, u32::MAX - 13, u32::MAX - 14, HALF + 1, HALF, HALF - 1, HALF - 12, HALF - 13, 1 << 24, 100][ctx.choose(12)];
	let largest = u32::MAX - 12;
	let len = [0, largest, largest - 1, HALF, HALF - 1, HALF - 12, HALF - 13, limit.saturating_sub(1), limit, limit.saturating_add(1), limit.saturating_add(12), limit.saturating_add(13)][ctx.choose(12)].min(largest);
	ctx.log(|| format!("limit {limit}, length {len}"));
	if mc::alloc::untouched(len.max(1) as usize).is_none() {
		ctx.log(|| "not enough address space".into());
		return Ok(());
	}
	let sched = Sched::new(ctx, false);
	let mut read = read_half(Source { len, pos: 0 }, limit, Endian::LittleEndian);
	let s = sched.handle();
	let reader = sched.spawn("reader", async move {
		match read.read_msg().await {
			Ok(m) if len > limit => s.fail(format!("a body of {} bytes was accepted, the limit is {limit}", m.body.data.len())),
			Ok(m) if m.body.data.len() != len as usize => s.fail(format!("received {} bytes instead of {len}", m.body.data.len())),
			Ok(m) => {
				drop(m);
				match read.read_msg().await {
					Ok(m) if m.header == MessageHeader::stream(1, 2) && m.body.data.is_empty() => (),
					x => s.fail(format!("the next message is {:?}", x.map(|m| (m.header, m.body.data.len())).map_err(|e| e.to_string()))),
				}
			},
			Err(e) if len <= limit => s.fail(format!("a body of {len} bytes was refused, the limit is {limit}: {e}")),
			Err(e) if !e.is_fatal() => s.fail("a body over the limit is not reported as fatal".into()),
			Err(_) => (),
		}
	});
	sched.run(MAX_STEPS, || Ok(()))?;
	check!(sched.is_done(reader), "the read does not complete");
	Ok(())
}

/// A message with a body of zeros, and an empty message after it. The memory of the body is not touched.
struct Source {
	len: u32,
	pos: u64,
}

impl tokio::io::AsyncRead for Source {
	fn poll_read(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context, buf: &mut tokio::io::ReadBuf) -> std::task::Poll<std::io::Result<()>> {
		let header = |n: u32| {
			let mut h = [0; 16];
			for (i, x) in [n + 12, 4, 1, 2].into_iter().enumerate() {
				h[4 * i..4 * i + 4].copy_from_slice(&x.to_le_bytes());
			}
			h
		};
		let body_end = 16 + self.len as u64;
		let n;
		if self.pos < 16 {
			let bytes = &header(self.len)[self.pos as usize..];
			n = bytes.len().min(buf.remaining());
			buf.put_slice(&bytes[..n]);
		} else if self.pos < body_end {
			n = buf.remaining().min((body_end - self.pos) as usize);
			if n == buf.remaining() {
				buf.initialize_unfilled();
				buf.advance(n);
			} else {
				buf.initialize_unfilled_to(n);
				buf.advance(n);
			}
		} else {
			let bytes = &header(0)[(self.pos - body_end).min(16) as usize..];
			n = bytes.len().min(buf.remaining());
			buf.put_slice(&bytes[..n]);
		}
		self.pos += n as u64;
		std::task::Poll::Ready(Ok(()))
	}
}

/// Counts what is written to it.
#[derive(Default)]
struct Sink {
	bytes: std::sync::Arc<std::sync::atomic::AtomicU64>,
	first: std::sync::Arc<std::sync::Mutex<Vec<u8>>>,
}

impl tokio::io::AsyncWrite for Sink {
	fn poll_write(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context, buf: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
		let mut first = self.first.lock().unwrap();
		if first.len() < 16 {
			first.extend(&buf[..buf.len().min(16)]);
		}
		self.bytes.fetch_add(buf.len() as u64, std::sync::atomic::Ordering::Relaxed);
		std::task::Poll::Ready(Ok(buf.len()))
	}
	fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context) -> std::task::Poll<std::io::Result<()>> {
		std::task::Poll::Ready(Ok(()))
	}
	fn poll_shutdown(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context) -> std::task::Poll<std::io::Result<()>> {
		std::task::Poll::Ready(Ok(()))
	}
}

pub fn p03(c: &mut Check) {
	if !c.hooks() {
		return;
	}
	let max = c.bound(8, 20);
	c.run_opts("stream limits", opts(c.bound(0, 1)), |ctx| p03_stream(ctx, max));
	c.run_opts("larger stream limits", opts(c.bound(0, 1)), p03_stream_large);
	c.run_opts("bodies that the length field can not represent", Options { threads: 2, ..opts(0) }, p03_huge);
	c.run_opts("received bodies of any representable length", Options { threads: 2, ..opts(0) }, p03_huge_received);
}

// ---------------------------------------------------------------- two peers

/// Two peers that are connected by pipes exchange requests, updates, responses and stream messages.
pub fn peers(ctx: &mut Ctx, capacity: Option<usize>, preemptive: bool, splits: bool) -> Res {
	let endian = ENDIANS[ctx.choose(2)];
	let vectored = ctx.choose(2) == 1;
	let sched = Sched::with_policies(ctx, false);
	let (ab, ba) = (Pipe::new(capacity), Pipe::new(capacity));
	let split = if splits { Split::Few } else { Split::Full };
	let settings = Settings { read: split, write: split, vectored, endian, max_read: 64, max_write: 64 };
	let (peer_a, a) = Peer::new(ByteTransport { incoming: ba.clone(), outgoing: ab.clone(), settings });
	let (peer_b, b) = Peer::new(ByteTransport { incoming: ab, outgoing: ba, settings });
	let tasks = [sched.spawn("peer a", peer_a.run()), sched.spawn("peer b", peer_b.run())];
	let done = Rc::new(Cell::new(0));
	for (me, handle) in [("a", a), ("b", b)] {
		sched.spawn(format!("application {me}"), application(me, handle, sched.handle(), done.clone()));
	}
	sched.set_preemptive(preemptive);
	sched.run(MAX_STEPS, || Ok(()))?;
	sched.set_preemptive(false);
	check!(done.get() == 2, "the applications do not finish: deadlock");
	check!(tasks.iter().all(|&t| sched.is_done(t)), "a peer does not stop at the end");
	Ok(())
}

/// Both applications send everything before they receive anything.
async fn application(me: &'static str, mut handle: PeerHandle<StreamBody>, s: Sched, done: Rc<Cell<u32>>) {
	let other = if me == "a" { "b" } else { "a" };
	let text = |m: &StreamBody| String::from_utf8_lossy(&m.data).to_string();
	let Ok(mut request) = handle.send_request(5, format!("{me} request")).await else {
		return s.fail("request not sent".into());
	};
	if handle.send_stream(-3, format!("{me} stream")).await.is_err() || request.send_update(6, format!("{me} requester update")).await.is_err() {
		return s.fail("message not sent".into());
	}
	// Receive what the other side sent.
	let Ok(ReceivedMessage::Request(mut received, body)) = handle.recv_message().await else {
		return s.fail("request not received".into());
	};
	if text(&body) != format!("{other} request") || received.service_id() != 5 {
		return s.fail(format!("received the request {:?}", text(&body)));
	}
	match handle.recv_message().await {
		Ok(ReceivedMessage::Stream(m)) if text(&m.body) == format!("{other} stream") && m.header.service_id == -3 => (),
		x => return s.fail(format!("received {x:?} instead of the stream message")),
	}
	match received.recv_update().await {
		Some(m) if text(&m.body) == format!("{other} requester update") && m.header.service_id == 6 => (),
		x => return s.fail(format!("received {x:?} instead of the update")),
	}
	if received.send_update(7, format!("{me} responder update")).await.is_err() || received.send_response(8, format!("{me} response")).await.is_err() {
		return s.fail("response not sent".into());
	}
	match request.recv_update().await {
		Some(m) if text(&m.body) == format!("{other} responder update") && m.header.service_id == 7 => (),
		x => return s.fail(format!("received {x:?} instead of the responder update")),
	}
	match request.recv_response().await {
		Ok(m) if text(&m.body) == format!("{other} response") && m.header.service_id == 8 => (),
		x => return s.fail(format!("received {x:?} instead of the response")),
	}
	done.set(done.get() + 1);
	// One side closes when both are done, the other one notices.
	if done.get() < 2 {
		match handle.recv_message().await {
			Err(e) if e.is_connection_aborted() => (),
			x => s.fail(format!("received {x:?} instead of the end of the connection")),
		}
	}
}

/// A remote that sends and takes large messages, in pieces, to and from a peer.
fn p14_large(ctx: &mut Ctx, lens: &[usize]) -> Res {
	let len = lens[ctx.choose(lens.len())];
	let incoming_cut = [0, 4, 16, 17, 16 + len / 2][ctx.choose(5)];
	let capacity = [1 << 10, 1 << 16, usize::MAX][ctx.choose(3)];
	let vectored = ctx.choose(2) == 1;
	let sched = Sched::with_policies(ctx, false);
	let (to_peer, from_peer) = (Pipe::new(None), Pipe::new(Some(capacity)));
	let settings = Settings { read: Split::Full, write: Split::Full, vectored, endian: Endian::LittleEndian, max_read: len as u32, max_write: len as u32 };
	let (peer, handle) = Peer::new(ByteTransport { incoming: to_peer.clone(), outgoing: from_peer.clone(), settings });
	sched.spawn("peer", peer.run());
	let settle = || loop {
		match sched.ready().first() {
			Some(&t) => sched.poll(t),
			None => break,
		}
	};
	let (mut read, write) = handle.split();
	let n = 2;
	let sent = Rc::new(Cell::new(0));
	let s = sent.clone();
	let h = sched.handle();
	sched.spawn("sender", async move {
		for i in 0..n {
			let m = message(0, len);
			if write.send_stream(i, m.body).await.is_err() {
				return h.fail("a send fails".into());
			}
			s.set(s.get() + 1);
		}
		std::future::pending::<()>().await;
	});
	let received = Rc::new(Cell::new(0));
	let r = received.clone();
	let h = sched.handle();
	let want = message(0, len).body;
	sched.spawn("receiver", async move {
		for i in 0..n {
			match read.recv_message().await {
				Ok(ReceivedMessage::Stream(m)) if m.header.service_id == i && m.body.data == want => r.set(r.get() + 1),
				x => return h.fail(format!("received {:?} instead of message {i}", x.map(|_| ()))),
			}
		}
		std::future::pending::<()>().await;
	});
	settle();
	// The remote sends while the peer may be blocked.
	for i in 0..n {
		let frame = encode_frame(&Msg::new(MessageHeader::stream(0, i), message(0, len).body), Endian::LittleEndian);
		let (a, b) = frame.split_at(incoming_cut);
		for part in [a, b] {
			sched.ctx(|c| c.step());
			to_peer.feed(part);
			settle();
		}
		check!(to_peer.with(|s| s.data.is_empty()), "the peer does not read message {i}");
	}
	// Now it reads.
	let mut bytes = 0;
	for _ in 0..len * n as usize / 1000 + 100 {
		let piece = from_peer.with(|s| {
			let k = s.data.len();
			s.data.clear();
			(k, s.write_waker.take())
		});
		bytes += piece.0;
		if let Some(w) = piece.1 {
			w.wake();
		}
		settle();
		if from_peer.with(|s| s.data.is_empty()) {
			break;
		}
	}
	if let Some(e) = sched.failure() {
		fail!("{e}");
	}
	check!(received.get() == n, "{} of {n} messages were received although all of them arrived", received.get());
	check!(sent.get() == n, "{} of {n} sends complete although the remote reads everything", sent.get());
	check!(bytes == n as usize * (len + 16), "{bytes} bytes are transmitted");
	Ok(())
}

/// Two peers that send each other large messages before they receive.
fn p14_large_flood(ctx: &mut Ctx, lens: &[usize]) -> Res {
	let len = lens[ctx.choose(lens.len())];
	let capacity = [1 << 10, 4096, 1 << 16][ctx.choose(3)].max(len / 200);
	let vectored = ctx.choose(2) == 1;
	let n = 1 + ctx.choose(4);
	let sched = Sched::with_policies(ctx, false);
	let (ab, ba) = (Pipe::new(Some(capacity)), Pipe::new(Some(capacity)));
	let settings = Settings { read: Split::Full, write: Split::Full, vectored, endian: Endian::LittleEndian, max_read: len as u32, max_write: len as u32 };
	let (peer_a, a) = Peer::new(ByteTransport { incoming: ba.clone(), outgoing: ab.clone(), settings });
	let (peer_b, b) = Peer::new(ByteTransport { incoming: ab, outgoing: ba, settings });
	sched.spawn("peer a", peer_a.run());
	sched.spawn("peer b", peer_b.run());
	let done = Rc::new(Cell::new(0));
	for (me, mut handle) in [("a", a), ("b", b)] {
		let (h, done) = (sched.handle(), done.clone());
		sched.spawn(format!("application {me}"), async move {
			let body = message(0, len).body;
			for i in 0..n as i32 {
				if handle.send_stream(i, body.clone()).await.is_err() {
					return h.fail("a send fails".into());
				}
			}
			for i in 0..n as i32 {
				match handle.recv_message().await {
					Ok(ReceivedMessage::Stream(m)) if m.header.service_id == i && m.body.data == body => (),
					x => return h.fail(format!("received {:?} instead of message {i}", x.map(|_| ()))),
				}
			}
			done.set(done.get() + 1);
			std::future::pending::<()>().await;
			drop(handle);
		});
	}
	sched.run(100_000, || Ok(()))?;
	check!(done.get() == 2, "the applications do not finish: deadlock");
	Ok(())
}

/// Two peers that send each other many small messages before they receive.
fn p14_many(ctx: &mut Ctx, sizes: &[usize]) -> Res {
	let n = sizes[ctx.choose(sizes.len())];
	let capacity = [1, 20, 64, 4096][ctx.choose(4)];
	let kind = ctx.choose(4);
	let at_once = ctx.choose(2) == 1;
	let sched = Sched::with_policies(ctx, false);
	let (ab, ba) = (Pipe::new(Some(capacity)), Pipe::new(Some(capacity)));
	let settings = Settings { read: Split::Full, write: Split::Full, vectored: false, endian: Endian::LittleEndian, max_read: 64, max_write: 64 };
	let (peer_a, a) = Peer::new(ByteTransport { incoming: ba.clone(), outgoing: ab.clone(), settings });
	let (peer_b, b) = Peer::new(ByteTransport { incoming: ab, outgoing: ba, settings });
	sched.spawn("peer a", peer_a.run());
	sched.spawn("peer b", peer_b.run());
	let done = Rc::new(Cell::new(0));
	let sending = Rc::new(Cell::new(0));
	let all_sent = mc::sched::Event::new();
	for (me, handle) in [("a", a), ("b", b)] {
		let (h, done, sending, all_sent) = (sched.handle(), done.clone(), sending.clone(), all_sent.clone());
		sched.spawn(format!("application {me}"), async move {
			let (mut read, write) = handle.split();
			let Ok(mut request) = write.send_request(1, Vec::new()).await else { return h.fail("a send fails".into()) };
			let mut received = match read.recv_message().await {
				Ok(ReceivedMessage::Request(r, _)) => r,
				x => return h.fail(format!("received {x:?} instead of a request")),
			};
			// Everything is sent before anything is received, one after the other or all at once.
			let send = |i: i32| {
				let body = vec![i as u8; i as usize % 7];
				let (write, request, received) = (&write, &request, &received);
				async move {
					match (kind, i % 3) {
						(0, _) | (3, 0) => write.send_stream(i, body).await,
						(1, _) | (3, 1) => request.send_update(i, body).await,
						_ => received.send_update(i, body).await,
					}
				}
			};
			if at_once {
				let mut open: Vec<_> = (0..n as i32).map(|i| Box::pin(send(i))).collect();
				let r = std::future::poll_fn(|cx| {
					let mut bad = false;
					open.retain_mut(|f| match std::future::Future::poll(f.as_mut(), cx) {
						std::task::Poll::Ready(r) => {
							bad |= r.is_err();
							false
						},
						std::task::Poll::Pending => true,
					});
					match (bad, open.is_empty()) {
						(true, _) => std::task::Poll::Ready(false),
						(_, true) => std::task::Poll::Ready(true),
						_ => std::task::Poll::Pending,
					}
				});
				if !r.await {
					return h.fail("a send fails".into());
				}
			} else {
				for i in 0..n as i32 {
					if send(i).await.is_err() {
						return h.fail("a send fails".into());
					}
				}
			}
			sending.set(sending.get() + 1);
			all_sent.notify();
			mc::sched::until(|| sending.get() == 2, all_sent.clone()).await;
			for i in 0..n as i32 {
				let got = match (kind, i % 3) {
					(0, _) | (3, 0) => match read.recv_message().await {
						Ok(ReceivedMessage::Stream(m)) => Some(m),
						_ => None,
					},
					(1, _) | (3, 1) => received.recv_update().await,
					_ => request.recv_update().await,
				};
				match got {
					Some(m) if m.header.service_id == i && m.body.data == vec![i as u8; i as usize % 7] => (),
					x => return h.fail(format!("received {x:?} instead of message {i}")),
				}
			}
			done.set(done.get() + 1);
			std::future::pending::<()>().await;
			drop((read, write));
		});
	}
	sched.run(50_000_000, || Ok(()))?;
	check!(sending.get() == 2, "the applications do not finish sending: deadlock");
	check!(done.get() == 2, "not everything is received");
	Ok(())
}

pub fn p14(c: &mut Check) {
	if !c.hooks() {
		return;
	}
	let lens = c.bound(LARGE.len() - 3, LARGE.len());
	c.run("large messages while a write is blocked", |ctx| p14_large(ctx, &LARGE[..lens]));
	c.run_opts("peers that send each other large messages", opts(0), |ctx| p14_large_flood(ctx, &LARGE[..lens]));
	c.run_opts("peers that send each other large messages, other schedules", opts(c.bound(1, 2)), |ctx| p14_large_flood(ctx, &LARGE[4..9]));
	let sizes = &[3usize, 40, 300, 1100, 5000, 20_000][..c.bound(5, 6)];
	c.run_opts("many small messages before anything is received", opts(0), |ctx| p14_many(ctx, sizes));
	let (b, p) = (c.bound(2, 3), c.bound(1, 2));
	let one = c.bound(1, 2);
	c.run_opts("byte streams with capacity 1", opts(one), |ctx| peers(ctx, Some(1), false, true));
	c.run_opts("byte streams with capacity 1, preemptive", opts(one), |ctx| peers(ctx, Some(1), true, true));
	c.run_opts("byte streams with capacity 7", opts(b), |ctx| peers(ctx, Some(7), false, true));
	c.run_opts("byte streams with capacity 20", opts(b), |ctx| peers(ctx, Some(20), false, true));
	c.run_opts("byte streams with capacity 20, preemptive", opts(p), |ctx| peers(ctx, Some(20), true, true));
}

// ---------------------------------------------------------------- P06 on the wire

/// What a stream writes is exactly the documented format, and the documented format is understood.
fn p06_wire(ctx: &mut Ctx) -> Res {
	let endian = ENDIANS[ctx.choose(3)];
	let len = [0, 1, 2, 243, 244, 255, 256, 65523, 65524, 65536][ctx.choose(10)];
	let kind = ctx.choose(5);
	let vectored = ctx.choose(2) == 1;
	exchange(ctx, Exchange { messages: vec![message(kind, len), message(kind + 1, len)], read: Split::Full, write: Split::Full, vectored, capacity: None, endian })
}

pub fn p06(c: &mut Check) {
	if !c.hooks() {
		return;
	}
	c.run("frames", p06_wire);
}
