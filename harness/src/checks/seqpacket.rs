//! The seqpacket transport on real sockets, with a raw socket as the other end.

use super::bytes::{body, message, ENDIANS};
use filedesc::FileDesc;
use fizyr_rpc::transport::{Endian, Transport, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::util::IntoTransport;
use fizyr_rpc::{MessageHeader, Peer, PeerHandle, ReceivedMessage, UnixBody, UnixConfig};
use mc::explore::{Ctx, Options, Res};
use mc::mock::Msg;
use mc::pipe::encode_header;
use mc::real::*;
use mc::report::Check;
use mc::{check, fail};
use std::future::Future;
use std::os::fd::{AsRawFd, OwnedFd, RawFd};
use std::pin::pin;
use std::time::Duration;
use tokio_seqpacket::UnixSeqpacket;

pub fn config(read: u32, write: u32, endian: Endian) -> UnixConfig {
	let mut c = UnixConfig::default();
	c.max_body_len_read = read;
	c.max_body_len_write = write;
	c.endian = endian;
	c
}

pub fn datagram(m: &Msg, endian: Endian) -> Vec<u8> {
	let mut d = encode_header(m, endian);
	d.extend(&m.body);
	d
}

/// A library socket and a raw socket that are connected.
fn half_raw() -> (UnixSeqpacket, OwnedFd) {
	let (a, b) = socketpair(libc::SOCK_SEQPACKET);
	(UnixSeqpacket::try_from(a).expect("wrap socket"), b)
}

fn of(m: &fizyr_rpc::Message<UnixBody>) -> Msg {
	Msg::new(m.header, m.body.data.clone())
}

fn headers(i: usize) -> MessageHeader {
	message(i, 0).header
}

pub fn p04(c: &mut Check) {
	let depth = 3;
	// One message is one datagram with exactly these bytes.
	c.run_opts(&format!("written messages are exact datagrams, sequences of {depth}"), opts(), |ctx: &mut Ctx| {
		let endian = ENDIANS[ctx.choose(3)];
		let mut messages = Vec::new();
		for _ in 0..depth {
			messages.push(Msg::new(headers(ctx.choose(5)), body([0, 1, 2, 7, 8][ctx.choose(5)], messages.len() as u8)));
		}
		block_on(async {
			let (socket, raw) = half_raw();
			let mut transport = socket.into_transport(config(8, 8, endian));
			let (_read, mut write) = transport.split();
			for m in &messages {
				ctx.step();
				ctx.log(|| format!("write {}", m.short()));
				match must("writing a message", write.write_msg(&m.header, &m.body.clone().into())).await? {
					Ok(()) => (),
					Err(e) => fail!("writing {} failed: {e}", m.short()),
				}
			}
			for m in &messages {
				let got = raw_recv(raw.as_raw_fd()).expect("receive");
				let Some((data, fds)) = got else { fail!("{} was not transmitted", m.short()) };
				ctx.observe(&data);
				check!(data == datagram(m, endian), "transmitted datagram {data:?} is not {}", m.short());
				check!(fds.is_empty(), "unexpected file descriptors");
			}
			check!(raw_recv(raw.as_raw_fd()).expect("receive").is_none(), "an extra datagram was transmitted");
			Ok(())
		})
	});

	// Any sequence of datagrams, the last one possibly malformed, then the end of the connection.
	let mut malformed: Vec<Vec<u8>> = Vec::new();
	for n in 1..12 {
		// The header of a valid message, cut short.
		malformed.push(encode_header(&message(0, 0), Endian::LittleEndian)[..n].to_vec());
		malformed.push(vec![0; n]);
	}
	for kind in [5u32, 6, 127, 255, 256, 0x0100_0000, 0x0400_0000, 0x0001_0000, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
		for len in [0, 3] {
			let mut d = Vec::new();
			d.extend(kind.to_le_bytes());
			d.extend([1, 0, 0, 0, 2, 0, 0, 0]);
			d.extend(body(len, 3));
			malformed.push(d);
		}
	}
	let malformed = &malformed;
	c.run_opts(&format!("received datagrams are exact messages, sequences of {depth}"), opts(), |ctx: &mut Ctx| {
		let endian = ENDIANS[ctx.choose(3)];
		let mut messages = Vec::new();
		for _ in 0..depth {
			messages.push(Msg::new(headers(ctx.choose(5)), body([8, 0, 1, 7, 2][ctx.choose(5)], messages.len() as u8)));
		}
		let wait_first = ctx.choose(2) == 1;
		block_on(async {
			let (socket, raw) = half_raw();
			let mut transport = socket.into_transport(config(8, 8, endian));
			let (mut read, _write) = transport.split();
			if !wait_first {
				for m in &messages {
					raw_send(raw.as_raw_fd(), &datagram(m, endian), &[]).expect("send");
				}
			}
			for m in &messages {
				ctx.step();
				ctx.log(|| format!("read {}{}", m.short(), if wait_first { " after waiting for it" } else { "" }));
				let mut f = pin!(read.read_msg());
				if wait_first {
					if let Some(x) = try_now(f.as_mut()).await {
						fail!("read {:?} before anything was sent", x.map(|m| of(&m)));
					}
					raw_send(raw.as_raw_fd(), &datagram(m, endian), &[]).expect("send");
				}
				match must("reading a message", f).await? {
					Ok(x) => {
						ctx.observe(of(&x).short().as_bytes());
						check!(of(&x) == *m && x.body.fds.is_empty(), "received {} instead of {}", of(&x).short(), m.short())
					},
					Err(e) => fail!("reading {} failed: {e}", m.short()),
				}
			}
			Ok(())
		})
	});
	c.run_opts("malformed datagrams and the end of the connection are errors", opts(), |ctx: &mut Ctx| {
		let before = ctx.choose(3);
		let messages: Vec<Msg> = (0..before).map(|i| Msg::new(headers(i), body([8, 1][i], i as u8))).collect();
		let end = ctx.choose(malformed.len() + 4);
		let wait_first = ctx.choose(2) == 1;
		block_on(async {
			let endian = Endian::LittleEndian;
			let (socket, raw) = half_raw();
			let mut transport = socket.into_transport(config(8, 8, endian));
			let (mut read, _write) = transport.split();
			for m in &messages {
				raw_send(raw.as_raw_fd(), &datagram(m, endian), &[]).expect("send");
			}
			let mut raw = Some(raw);
			let mut finish = || {
				let fd = raw.as_ref().unwrap().as_raw_fd();
				if let Some(d) = malformed.get(end) {
					raw_send(fd, d, &[]).expect("send");
				} else if end == malformed.len() {
					raw = None;
				} else if end == malformed.len() + 1 {
					unsafe { libc::shutdown(fd, libc::SHUT_WR) };
				} else if end == malformed.len() + 2 {
					unsafe { libc::shutdown(fd, libc::SHUT_RDWR) };
				} else {
					raw_send(fd, &[], &[]).expect("send");
				}
			};
			if !wait_first {
				finish();
			}
			for m in &messages {
				ctx.step();
				ctx.log(|| format!("read {}", m.short()));
				match must("reading a message", read.read_msg()).await? {
					Ok(x) => check!(of(&x) == *m, "received {} instead of {}", of(&x).short(), m.short()),
					Err(e) => fail!("reading {} failed: {e}", m.short()),
				}
			}
			let mut f = pin!(read.read_msg());
			ctx.observe(&[end as u8, before as u8]);
			if wait_first {
				if let Some(x) = try_now(f.as_mut()).await {
					fail!("read {:?} but nothing was sent", x.map(|m| of(&m)));
				}
				finish();
			}
			ctx.log(|| format!("end: {:?}", malformed.get(end)));
			match must("reading at the end of the connection", f).await? {
				Ok(x) => fail!("the malformed datagram {:?} was delivered as {}", malformed.get(end), of(&x).short()),
				Err(e) => {
					if end >= malformed.len() && end < malformed.len() + 3 {
						check!(e.inner().is_connection_aborted(), "end of the connection was reported as {e}");
						check!(e.is_fatal(), "end of the connection was reported as an error that leaves it usable");
					}
				},
			}
			Ok(())
		})
	});

	// Full duplex, with the library on both ends.
	let depth = c.bound(7, 8);
	c.run_opts(&format!("both directions between two transports, {depth} steps"), opts(), |ctx: &mut Ctx| {
		block_on(async {
			let (a, b) = UnixSeqpacket::pair().expect("socket pair");
			let mut ta = a.into_transport(config(4096, 4096, Endian::BigEndian));
			let mut tb = b.into_transport(config(4096, 4096, Endian::BigEndian));
			let (mut ra, mut wa) = ta.split();
			let (mut rb, mut wb) = tb.split();
			let mut queues = [std::collections::VecDeque::new(), std::collections::VecDeque::new()];
			for i in 0..depth {
				ctx.step();
				match ctx.choose(4) {
					x @ (0 | 1) => {
						let m = Msg::new(headers(i), body([4096, 0, 13, 4095, 1, 300, 2, 64][i], i as u8));
						ctx.log(|| format!("{} writes {}", ["a", "b"][x], m.short()));
						let b = m.body.clone().into();
						let r = if x == 0 { must("writing", wa.write_msg(&m.header, &b)).await? } else { must("writing", wb.write_msg(&m.header, &b)).await? };
						if let Err(e) = r {
							fail!("writing failed: {e}");
						}
						queues[x].push_back(m);
					},
					x => {
						let x = x - 2;
						// The reader of direction x.
						ctx.log(|| format!("{} reads", ["b", "a"][x]));
						let expected = queues[x].pop_front();
						let got = if expected.is_some() {
							Some(if x == 0 { must("reading", rb.read_msg()).await? } else { must("reading", ra.read_msg()).await? })
						} else if x == 0 {
							try_now(pin!(rb.read_msg())).await
						} else {
							try_now(pin!(ra.read_msg())).await
						};
						ctx.observe(&[got.as_ref().map_or(0, |x| x.as_ref().map_or(1, |m| m.header.request_id as u8))]);
						match (expected, got) {
							(None, None) => (),
							(Some(m), Some(Ok(x))) => check!(of(&x) == m && x.body.fds.is_empty(), "received {} instead of {}", of(&x).short(), m.short()),
							(m, x) => fail!("received {:?} instead of {:?}", x.map(|x| x.map(|m| of(&m).short())), m.map(|m| m.short())),
						}
					},
				}
			}
			Ok(())
		})
	});

	// The socket fills up: writes wait and go out once.
	c.run_opts("writes that wait for the socket", opts(), |ctx: &mut Ctx| {
		let len = [0, 100, 4096, 60_000][ctx.choose(4)];
		let poll_again = ctx.choose(3);
		let drain_one = ctx.choose(2) == 1;
		block_on(async {
			let endian = Endian::LittleEndian;
			let (a, b) = UnixSeqpacket::pair().expect("socket pair");
			let mut ta = a.into_transport(config(60_000, 60_000, endian));
			let mut tb = b.into_transport(config(60_000, 60_000, endian));
			let (_ra, mut wa) = ta.split();
			let (mut rb, _wb) = tb.split();
			let mut written = Vec::new();
			let mut received = 0;
			loop {
				check!(written.len() < 100_000, "the socket never fills up");
				let m = Msg::new(MessageHeader::request(written.len() as u32, 3), body(len, written.len() as u8));
				let data: UnixBody = m.body.clone().into();
				written.push(m);
				let m = written.last().unwrap();
				let mut f = pin!(wa.write_msg(&m.header, &data));
				let r = {
					let r = std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await;
					match r {
						std::task::Poll::Ready(r) => Some(r),
						std::task::Poll::Pending => try_now(f.as_mut()).await,
					}
				};
				match r {
					Some(Ok(())) => continue,
					Some(Err(e)) => fail!("writing message {} failed: {e}", written.len()),
					None => (),
				}
				ctx.log(|| format!("message {} of {len} bytes waits", written.len()));
				for _ in 0..poll_again {
					let r = std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await;
					check!(r.is_pending(), "a message was written though the socket is full");
				}
				let n = if drain_one { 1 } else { written.len() - 1 };
				// Room may become available only after several reads.
				while received < written.len() - 1 {
					if received >= n {
						if let Some(r) = try_now(f.as_mut()).await {
							if let Err(e) = r {
								fail!("the waiting write failed: {e}");
							}
							break;
						}
					}
					match must("reading", rb.read_msg()).await? {
						Ok(x) => check!(of(&x) == written[received], "received {} instead of {}", of(&x).short(), written[received].short()),
						Err(e) => fail!("reading failed: {e}"),
					}
					received += 1;
				}
				if received == written.len() - 1 {
					if let Err(e) = must("the waiting write", f).await? {
						fail!("the waiting write failed: {e}");
					}
				}
				break;
			}
			for m in &written[received..] {
				ctx.step();
				match must("reading", rb.read_msg()).await? {
					Ok(x) => check!(of(&x) == *m, "received {} instead of {}", of(&x).short(), m.short()),
					Err(e) => fail!("reading failed: {e}"),
				}
			}
			check!(try_now(pin!(rb.read_msg())).await.is_none(), "an extra message was received");
			Ok(())
		})
	});

	// Many messages on one connection, a few on the way at a time.
	let sizes = &[40usize, 300, 1100, 70_000][..c.bound(3, 4)];
	c.run_opts("many messages", opts(), |ctx: &mut Ctx| {
		let n = sizes[ctx.choose(sizes.len())];
		let window = [1usize, 2, 9][ctx.choose(3)];
		let pattern = ctx.choose(4);
		let with_raw = ctx.choose(2) == 1;
		block_on(async {
			let endian = Endian::BigEndian;
			let (a, b) = socketpair(libc::SOCK_SEQPACKET);
			let other = b.try_clone().expect("dup");
			let mut ta = UnixSeqpacket::try_from(a).expect("wrap socket").into_transport(config(5000, 5000, endian));
			let mut tb = UnixSeqpacket::try_from(b).expect("wrap socket").into_transport(config(5000, 5000, endian));
			let (_ra, mut wa) = ta.split();
			let (mut rb, _wb) = tb.split();
			let messages: Vec<Msg> = (0..n)
				.map(|i| {
					let len = match pattern {
						0 => 0,
						1 => i % 41,
						2 => 40 - i % 41,
						_ => [1, 0, 0, 5000, 2][i % 5],
					};
					let mut m = message(i, len);
					m.header.request_id = i as u32;
					m
				})
				.collect();
			for chunk in messages.chunks(window) {
				ctx.step();
				for m in chunk {
					if let Err(e) = must("writing", wa.write_msg(&m.header, &m.body.clone().into())).await? {
						fail!("writing {} failed: {e}", m.short());
					}
				}
				for m in chunk {
					if with_raw {
						let Some((data, _)) = raw_recv(other.as_raw_fd()).expect("receive") else { fail!("{} was not transmitted", m.short()) };
						check!(data == datagram(m, endian), "transmitted {} bytes that are not {}", data.len(), m.short());
					} else {
						match must("reading", rb.read_msg()).await? {
							Ok(x) => check!(of(&x) == *m, "received {} instead of {}", of(&x).short(), m.short()),
							Err(e) => fail!("reading failed: {e}"),
						}
					}
				}
			}
			check!(try_now(pin!(rb.read_msg())).await.is_none(), "an extra message was received");
			Ok(())
		})
	});

	// Every body length, with a longer message before it.
	let max = 4096;
	c.run_opts(&format!("every body length up to {max}"), opts(), |ctx: &mut Ctx| {
		let len = ctx.choose(max + 1);
		block_on(async {
			let (a, b) = UnixSeqpacket::pair().expect("socket pair");
			let mut ta = a.into_default_transport();
			let mut tb = b.into_default_transport();
			let (_ra, mut wa) = ta.split();
			let (mut rb, _wb) = tb.split();
			for (i, len) in [4096, len, 4096, len].into_iter().enumerate() {
				ctx.step();
				let m = Msg::new(headers(i), body(len, i as u8));
				let mut f = pin!(rb.read_msg());
				if i % 2 == 0 {
					check!(try_now(f.as_mut()).await.is_none(), "unexpected message");
				}
				if let Err(e) = must("writing", wa.write_msg(&m.header, &m.body.clone().into())).await? {
					fail!("writing failed: {e}");
				}
				match must("reading", f).await? {
					Ok(x) => check!(of(&x) == m, "received {} instead of {}", of(&x).short(), m.short()),
					Err(e) => fail!("reading failed: {e}"),
				}
			}
			Ok(())
		})
	});
	c.assumptions.push("The kernel delivers datagrams of a seqpacket socket as documented.".into());
}

const P03_LIMITS: [usize; 3] = [0, 1, 5];
const P03_LENS: [usize; 6] = [0, 1, 2, 5, 6, 40];

fn null_fds(n: usize) -> Vec<FileDesc> {
	(0..n).map(|_| FileDesc::new(OwnedFd::from(std::fs::File::open("/dev/null").expect("open /dev/null")))).collect()
}

/// Messages of any size in both directions, with descriptors attached or without.
fn p03_limits(ctx: &mut Ctx, depth: usize, fds: &[usize]) -> Res {
	let r = P03_LIMITS[ctx.choose(3)];
	let w = P03_LIMITS[ctx.choose(3)];
	block_on(async {
		let endian = Endian::LittleEndian;
		let (socket, raw) = half_raw();
		let mut transport = socket.into_transport(config(r as u32, w as u32, endian));
		let (mut read, mut write) = transport.split();
		for i in 0..depth {
			ctx.step();
			let x = ctx.choose(P03_LENS.len() * 2);
			let n = fds[ctx.choose(fds.len())];
			let m = Msg::new(headers(i), body(P03_LENS[x / 2], i as u8));
			let len = m.body.len();
			if x % 2 == 0 {
				ctx.log(|| format!("write {len} bytes and {n} descriptors, limit {w}"));
				let result = must("writing", write.write_msg(&m.header, &(m.body.clone(), null_fds(n)).into())).await?;
				let sent = raw_recv(raw.as_raw_fd()).expect("receive");
				check!(sent.as_ref().map_or(true, |x| x.1.len() == n), "the descriptors were not sent");
				ctx.observe(&sent.as_ref().map(|x| x.0.clone()).unwrap_or_default());
				match result {
					Ok(()) => {
						check!(len <= w, "a body of {len} bytes was sent with a limit of {w}");
						check!(sent.map(|x| x.0) == Some(datagram(&m, endian)), "a message was not sent correctly");
					},
					Err(e) => {
						check!(len > w, "a body of {len} bytes was refused with a limit of {w}: {e}");
						check!(!e.is_fatal(), "a refused message makes the transport unusable");
						check!(sent.is_none(), "a refused message was sent");
					},
				}
			} else {
				ctx.log(|| format!("receive {len} bytes and {n} descriptors, limit {r}"));
				let files = null_fds(n);
				raw_send(raw.as_raw_fd(), &datagram(&m, endian), &files.iter().map(|f| f.as_raw_fd()).collect::<Vec<_>>()).expect("send");
				match must("reading", read.read_msg()).await? {
					Ok(x) => {
						check!(len <= r, "a body of {len} bytes was received with a limit of {r}, as {}", of(&x).short());
						check!(of(&x) == m, "received {} instead of {}", of(&x).short(), m.short());
						check!(x.body.fds.len() == n, "received {} descriptors instead of {n}", x.body.fds.len());
						ctx.observe(of(&x).short().as_bytes());
					},
					Err(e) => {
						check!(len > r, "a body of {len} bytes was rejected with a limit of {r}: {e}");
						check!(!e.is_fatal(), "a datagram that is too large makes the transport unusable");
					},
				}
			}
		}
		Ok(())
	})
}

/// The limits of seqpacket transports.
pub fn p03(c: &mut Check) {
	let depth = c.bound(4, 5);
	c.run_opts(&format!("seqpacket: limits per direction, sequences of {depth}"), opts(), |ctx: &mut Ctx| p03_limits(ctx, depth, &[0]));
	let depth = c.bound(2, 3);
	c.run_opts(&format!("seqpacket: limits of messages with descriptors, sequences of {depth}"), opts(), |ctx: &mut Ctx| p03_limits(ctx, depth, &[0, 1, 3]));
	c.run_opts("seqpacket: limits seen by peers", opts(), |ctx: &mut Ctx| {
		let len = P03_LENS[ctx.choose(6)];
		let limit = P03_LIMITS[ctx.choose(3)];
		let fds = ctx.choose(3);
		// Who has the limit.
		let sender = ctx.choose(2) == 0;
		let kind = ctx.choose(5);
		block_on(async {
			let (a, b) = UnixSeqpacket::pair().expect("socket pair");
			let small = config(100, limit as u32, Endian::LittleEndian);
			let large = config(100, 100, Endian::LittleEndian);
			let small_read = config(limit as u32, 100, Endian::LittleEndian);
			let a = Peer::spawn(a.into_transport(if sender { small } else { large.clone() }));
			let b = Peer::spawn(b.into_transport(if sender { large } else { small_read }));
			peers_with_limit(ctx, a, b, len, fds, limit, sender, kind).await
		})
	});
	p03_system_limit(c);
}

/// Sizes of send buffers. With 0 the default is used.
const SEND_BUFFERS: [i32; 3] = [0, 4000, 20_000];

fn set_send_buffer(fd: RawFd, size: i32) {
	if size > 0 {
		let r = unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &size as *const _ as *const _, 4) };
		assert!(r == 0, "set SO_SNDBUF: {}", std::io::Error::last_os_error());
	}
}

/// The length of the longest body that the operating system transmits, found with raw sockets.
fn longest_body(buffer: i32) -> usize {
	let sends = |len: usize| {
		let (a, _b) = socketpair(libc::SOCK_SEQPACKET);
		set_send_buffer(a.as_raw_fd(), buffer);
		raw_send(a.as_raw_fd(), &vec![0; 12 + len], &[]).is_ok()
	};
	let (mut low, mut high) = (0, 8 << 20);
	assert!(sends(low) && !sends(high), "the limit for datagrams is unknown");
	while high - low > 1 {
		let mid = (low + high) / 2;
		match sends(mid) {
			true => low = mid,
			false => high = mid,
		}
	}
	low
}

/// Messages that the operating system refuses because they do not fit in the send buffer.
fn p03_system_limit(c: &mut Check) {
	let longest: Vec<usize> = SEND_BUFFERS.iter().map(|&x| longest_body(x)).collect();
	let depth = c.bound(3, 4);
	let l = longest.clone();
	c.run_opts(&format!("seqpacket: limit of the operating system, sequences of {depth}"), opts(), |ctx: &mut Ctx| {
		let i = ctx.choose(3);
		let limit = l[i];
		let lens = [0, limit, limit + 1, limit + 1000, 1 << 20];
		let (socket, raw) = socketpair(libc::SOCK_SEQPACKET);
		set_send_buffer(socket.as_raw_fd(), SEND_BUFFERS[i]);
		block_on(async {
			let endian = Endian::LittleEndian;
			let socket = UnixSeqpacket::try_from(socket).expect("wrap socket");
			let mut transport = socket.into_transport(config(64, [u32::MAX, 1 << 20][ctx.choose(2)], endian));
			let (mut read, mut write) = transport.split();
			for i in 0..depth {
				ctx.step();
				let len = lens[ctx.choose(lens.len())];
				let n = ctx.choose(2);
				let m = Msg::new(headers(i), body(len, i as u8));
				ctx.log(|| format!("write {len} bytes and {n} descriptors, the system transmits up to {limit}"));
				let result = must("writing", write.write_msg(&m.header, &(m.body.clone(), null_fds(n)).into())).await?;
				let sent = raw_recv(raw.as_raw_fd()).expect("receive");
				match result {
					Ok(()) => {
						check!(sent.as_ref().is_some_and(|x| x.1.len() == n && x.0 == datagram(&m, endian)), "a message of {len} bytes was not sent correctly");
					},
					Err(e) => {
						check!(len > limit, "a body of {len} bytes was refused: {e}");
						check!(!e.is_fatal(), "a message of {len} bytes that the system refuses makes the transport unusable: {e}");
						check!(sent.is_none(), "a refused message was sent");
					},
				}
				ctx.observe(&[(len <= limit) as u8]);
			}
			// It still works in the other direction.
			let m = Msg::new(headers(9), body(3, 1));
			raw_send(raw.as_raw_fd(), &datagram(&m, endian), &[]).expect("send");
			match must("reading", read.read_msg()).await? {
				Ok(x) => check!(of(&x) == m, "received {} instead of {}", of(&x).short(), m.short()),
				Err(e) => fail!("a message is not received after one was refused: {e}"),
			}
			Ok(())
		})
	});
	c.run_opts("seqpacket: limit of the operating system seen by peers", opts(), |ctx: &mut Ctx| {
		let i = ctx.choose(3);
		let limit = longest[i];
		let len = [0, limit - 1, limit, limit + 1, limit + 1000, 1 << 20][ctx.choose(6)];
		let fds = ctx.choose(2);
		let kind = ctx.choose(5);
		let (a, b) = socketpair(libc::SOCK_SEQPACKET);
		set_send_buffer(a.as_raw_fd(), SEND_BUFFERS[i]);
		block_on(async {
			let unlimited = config(1 << 20, u32::MAX, Endian::LittleEndian);
			let a = Peer::spawn(UnixSeqpacket::try_from(a).expect("wrap socket").into_transport(unlimited.clone()));
			let b = Peer::spawn(UnixSeqpacket::try_from(b).expect("wrap socket").into_transport(unlimited));
			peers_with_limit(ctx, a, b, len, fds, limit, true, kind).await
		})
	});
}

/// Peer `a` sends a message of `len` bytes to `b`, one of them has a limit. Kinds: stream, request, requester update,
/// responder update, response.
async fn peers_with_limit(ctx: &mut Ctx, a: PeerHandle<UnixBody>, b: PeerHandle<UnixBody>, len: usize, fds: usize, limit: usize, sender: bool, kind: usize) -> Res {
	let too_large = len > limit;
	let (mut a_read, a) = a.split();
	let (mut b_read, b) = b.split();
	let empty = || UnixBody::from(Vec::new());
	let data = || UnixBody::from((body(len, 1), null_fds(fds)));
	ctx.step();
	ctx.log(|| format!("kind {kind}, {len} bytes and {fds} descriptors, limit {limit} of the {}", if sender { "sender" } else { "receiver" }));
	// The request that updates and responses belong to.
	let mut sent = None;
	let mut received = None;
	if kind == 2 {
		sent = Some(must("send", a.send_request(1, empty())).await?.map_err(|e| format!("send failed: {e}"))?);
		match must("receive", b_read.recv_message()).await? {
			Ok(ReceivedMessage::Request(r, _)) => received = Some(r),
			x => fail!("received {x:?}"),
		}
	} else if kind >= 3 {
		sent = Some(must("send", b.send_request(1, empty())).await?.map_err(|e| format!("send failed: {e}"))?);
		match must("receive", a_read.recv_message()).await? {
			Ok(ReceivedMessage::Request(r, _)) => received = Some(r),
			x => fail!("received {x:?}"),
		}
	}
	let mut new = None;
	let result = match kind {
		0 => must("send", a.send_stream(5, data())).await?,
		1 => match must("send", a.send_request(5, data())).await? {
			Ok(x) => {
				new = Some(x);
				Ok(())
			},
			Err(e) => Err(e),
		},
		2 => must("send", sent.as_ref().unwrap().send_update(5, data())).await?,
		3 => must("send", received.as_ref().unwrap().send_update(5, data())).await?,
		_ => must("send", received.as_ref().unwrap().send_response(5, data())).await?,
	};
	ctx.observe(&[len as u8, limit as u8, kind as u8, sender as u8, result.is_err() as u8]);
	if sender {
		check!(result.is_err() == too_large, "sending {len} bytes with limit {limit}: {result:?}");
	} else if let Err(e) = result {
		fail!("sending {len} bytes failed: {e}");
	}
	if too_large && !sender {
		match must("receive", b_read.recv_message()).await? {
			Err(e) => check!(!e.is_connection_aborted(), "the connection ended: {e}"),
			Ok(x) => fail!("{len} bytes were received with limit {limit}: {x:?}"),
		}
	}
	if !too_large {
		let got = match kind {
			0 => match must("receive", b_read.recv_message()).await? {
				Ok(ReceivedMessage::Stream(m)) => m.body.data,
				x => fail!("received {x:?}"),
			},
			1 => match must("receive", b_read.recv_message()).await? {
				Ok(ReceivedMessage::Request(_, b)) => b.data,
				x => fail!("received {x:?}"),
			},
			2 => match must("receive", received.as_mut().unwrap().recv_update()).await? {
				Some(m) => m.body.data,
				x => fail!("received {x:?}"),
			},
			3 => match must("receive", sent.as_mut().unwrap().recv_update()).await? {
				Some(m) => m.body.data,
				x => fail!("received {x:?}"),
			},
			_ => match must("receive", sent.as_mut().unwrap().recv_response()).await? {
				Ok(m) => m.body.data,
				x => fail!("received {x:?}"),
			},
		};
		check!(got == body(len, 1), "received {} bytes: {:?}", got.len(), &got[..got.len().min(20)]);
	}
	// Everything still works afterwards.
	for (from, to) in [(&a, &mut b_read), (&b, &mut a_read)] {
		must("send", from.send_stream(9, empty())).await?.map_err(|e| format!("later send failed: {e}"))?;
		match must("receive", to.recv_message()).await? {
			Ok(ReceivedMessage::Stream(m)) => check!(m.header.service_id == 9 && m.body.data.is_empty(), "received {m:?}"),
			x => fail!("received {x:?} after a message that is too large"),
		}
	}
	if kind >= 2 && !(kind == 4 && !too_large) && (sender || !too_large) {
		let r = received.as_mut().unwrap();
		must("send", r.send_response(7, empty())).await?.map_err(|e| format!("the response failed: {e}"))?;
		match must("receive", sent.as_mut().unwrap().recv_response()).await? {
			Ok(m) => check!(m.header.service_id == 7, "received {m:?}"),
			Err(e) => fail!("no response after a message that was too large: {e}"),
		}
	}
	drop(new);
	Ok(())
}

// ---------------------------------------------------------------------------------------------------------------------

fn fd_config(read: u32, write: u32) -> UnixConfig {
	let mut c = config(64, 64, Endian::LittleEndian);
	c.max_fds_read = read;
	c.max_fds_write = write;
	c
}

struct Probes(Vec<Probe>);

impl Probes {
	fn make(&mut self, n: usize) -> Vec<FileDesc> {
		self.owned(n).into_iter().map(FileDesc::new).collect()
	}
	fn owned(&mut self, n: usize) -> Vec<OwnedFd> {
		(0..n)
			.map(|_| {
				let (p, w) = Probe::new();
				self.0.push(p);
				w
			})
			.collect()
	}
	/// All descriptors made so far must be closed.
	fn closed(&self, when: &str) -> Res {
		for (i, p) in self.0.iter().enumerate() {
			check!(p.is_closed(Duration::from_millis(300)), "descriptor {i} of {} is still open {when}", self.0.len());
		}
		Ok(())
	}
	/// These descriptors must be the last ones made.
	fn same(&self, fds: &[RawFd]) -> Res {
		let n = fds.len();
		check!(n <= self.0.len(), "received more descriptors than were sent");
		for (i, (fd, p)) in fds.iter().zip(&self.0[self.0.len() - n..]).enumerate() {
			check!(p.is_same(*fd), "descriptor {i} of {n} is not the one that was sent");
		}
		let mut set = fds.to_vec();
		set.sort();
		set.dedup();
		check!(set.len() == n, "a descriptor was received twice");
		Ok(())
	}
}

fn raw_fds(fds: &[OwnedFd]) -> Vec<RawFd> {
	fds.iter().map(|x| x.as_raw_fd()).collect()
}

pub fn p05(c: &mut Check) {
	let limits = [0u32, 1, 2, 10];
	let depth = c.bound(2, 3);
	let fd_opts = || Options { threads: 8, ..opts() };
	// Writing.
	c.run_opts(&format!("written descriptors, sequences of {depth}"), fd_opts(), |ctx: &mut Ctx| {
		let limit = limits[ctx.choose(limits.len())] as usize;
		let other = limits[ctx.choose(limits.len())];
		let counts: Vec<usize> = (0..depth).map(|_| ctx.choose(limit + 8)).collect();
		block_on(async {
			let (socket, raw) = half_raw();
			let mut transport = socket.into_transport(fd_config(other, limit as u32));
			let (_read, mut write) = transport.split();
			let mut probes = Probes(Vec::new());
			for (i, &n) in counts.iter().enumerate() {
				ctx.step();
				ctx.log(|| format!("write a message with {n} descriptors, limit {limit}"));
				let fds = probes.make(n);
				let m = Msg::new(headers(i), body(i, 1));
				let b = UnixBody::new(m.body.clone(), fds);
				let result = must("writing", write.write_msg(&m.header, &b)).await?;
				drop(b);
				let sent = raw_recv(raw.as_raw_fd()).expect("receive");
				ctx.observe(&[n as u8, sent.as_ref().map_or(255, |x| x.1.len() as u8)]);
				match (result, sent) {
					(Ok(()), Some((data, fds))) => {
						check!(n <= limit, "{n} descriptors were sent with a limit of {limit}");
						check!(data == datagram(&m, Endian::LittleEndian), "the message was not sent correctly");
						check!(fds.len() == n, "sent {} descriptors instead of {n}", fds.len());
						probes.same(&raw_fds(&fds))?;
					},
					(Err(e), None) => {
						check!(n > limit, "{n} descriptors were refused with a limit of {limit}: {e}");
						check!(!e.is_fatal(), "refused descriptors make the transport unusable");
					},
					(Ok(()), None) => fail!("a message with {n} descriptors was not sent"),
					(Err(e), Some(_)) => fail!("a message with {n} descriptors was sent although the write failed: {e}"),
				}
				probes.closed("after the message was sent or refused and dropped")?;
			}
			Ok(())
		})
	});
	// Reading: valid, unknown type, too short and too large messages.
	c.run_opts(&format!("received descriptors, sequences of {depth}"), fd_opts(), |ctx: &mut Ctx| {
		let limit = limits[ctx.choose(limits.len())] as usize;
		let other = limits[ctx.choose(limits.len())];
		let acts: Vec<(usize, usize)> = (0..depth)
			.map(|i| {
				// Only the last message may be malformed.
				let kind = if i + 1 == depth { ctx.choose(4) } else { ctx.choose(2) };
				(kind, ctx.choose(limit + 8))
			})
			.collect();
		let read_last = ctx.choose(2) == 0;
		block_on(async {
			let (socket, raw) = half_raw();
			let mut transport = socket.into_transport(fd_config(limit as u32, other));
			let mut probes = Probes(Vec::new());
			{
				let (mut read, _write) = transport.split();
				for (i, &(kind, n)) in acts.iter().enumerate() {
					ctx.step();
					ctx.log(|| format!("receive a message of kind {kind} with {n} descriptors, limit {limit}"));
					let fds = probes.owned(n);
					let m = Msg::new(headers(i), body(if kind == 1 { 65 } else { i }, 1));
					let mut data = datagram(&m, Endian::LittleEndian);
					match kind {
						2 => data[0] = 9,
						3 => data.truncate(5),
						_ => (),
					}
					raw_send(raw.as_raw_fd(), &data, &raw_fds(&fds)).expect("send");
					drop(fds);
					if i + 1 == depth && !read_last {
						break;
					}
					let got = must("reading", read.read_msg()).await?;
					ctx.observe(&[kind as u8, n as u8, got.as_ref().map_or(255, |x| x.body.fds.len() as u8)]);
					match got {
						Ok(x) => {
							check!(kind == 0, "a bad message was delivered");
							check!(n <= limit, "{n} descriptors were accepted with a limit of {limit}");
							check!(of(&x) == m, "received {} instead of {}", of(&x).short(), m.short());
							let fds: Vec<RawFd> = x.body.fds.iter().map(|x| x.as_raw_fd()).collect();
							check!(fds.len() == n, "received {} descriptors instead of {n}", fds.len());
							probes.same(&fds)?;
							drop(x);
						},
						Err(e) => {
							check!(kind != 0 || n > limit, "{n} descriptors were rejected with a limit of {limit}: {e}");
							if kind < 2 {
								check!(!e.is_fatal(), "a message with too many descriptors or bytes makes the transport unusable");
							}
						},
					}
					probes.closed("after the message was dropped or rejected")?;
				}
			}
			drop(transport);
			probes.closed("after the transport was dropped")?;
			drop(raw);
			Ok(())
		})
	});
	// Large limits and many descriptors. The kernel passes up to 253.
	let large = [11u32, 31, 32, 63, 64, 65, 127, 128, 199, 200, 253, 254, 300, 1000, 65535, 65536, 0x0fff_ffff, 0x1000_0000, u32::MAX];
	let many = [0usize, 1, 11, 31, 32, 33, 63, 64, 65, 127, 128, 129, 199, 200, 201, 251, 252, 253];
	c.run_opts("many descriptors and large limits", Options { threads: 1, ..opts() }, |ctx: &mut Ctx| {
		let limit = large[ctx.choose(large.len())];
		let other = [0, 10, u32::MAX][ctx.choose(3)];
		let n = many[ctx.choose(many.len())];
		let write = ctx.choose(2) == 0;
		block_on(async {
			ctx.step();
			ctx.log(|| format!("{} {n} descriptors, limit {limit}, limit of the other direction {other}", if write { "send" } else { "receive" }));
			let (socket, raw) = half_raw();
			let mut transport = socket.into_transport(if write { fd_config(other, limit) } else { fd_config(limit, other) });
			let (mut read_half, mut write_half) = transport.split();
			let mut probes = Probes(Vec::new());
			let fits = n as u64 <= limit as u64;
			let m = Msg::new(headers(n), body(7, 1));
			// The second message has fewer descriptors.
			for n in [n, n / 2] {
				let fits = fits || n as u64 <= limit as u64;
				if write {
					let b = UnixBody::new(m.body.clone(), probes.make(n));
					let result = must("writing", write_half.write_msg(&m.header, &b)).await?;
					drop(b);
					check!(result.is_ok() == fits, "sending {n} descriptors with a limit of {limit}: {result:?}");
					match raw_recv(raw.as_raw_fd()).expect("receive") {
						None => check!(!fits, "{n} descriptors were not sent"),
						Some((data, fds)) => {
							check!(fits, "{n} descriptors were sent with a limit of {limit}");
							check!(data == datagram(&m, Endian::LittleEndian), "the message was not sent correctly");
							check!(fds.len() == n, "sent {} descriptors instead of {n}", fds.len());
							probes.same(&raw_fds(&fds))?;
						},
					}
					if let Err(e) = result {
						check!(!e.is_fatal(), "refused descriptors make the transport unusable");
					}
				} else {
					raw_send(raw.as_raw_fd(), &datagram(&m, Endian::LittleEndian), &raw_fds(&probes.owned(n))).expect("send");
					match must("reading", read_half.read_msg()).await? {
						Ok(x) => {
							check!(fits, "{n} descriptors were accepted with a limit of {limit}");
							check!(of(&x) == m, "received {} instead of {}", of(&x).short(), m.short());
							let fds: Vec<RawFd> = x.body.fds.iter().map(|x| x.as_raw_fd()).collect();
							check!(fds.len() == n, "received {} descriptors instead of {n}", fds.len());
							probes.same(&fds)?;
						},
						Err(e) => {
							check!(!fits, "{n} descriptors were rejected with a limit of {limit}: {e}");
							check!(!e.is_fatal(), "a message with too many descriptors makes the transport unusable");
						},
					}
				}
				probes.closed("after the message was dropped or refused")?;
				probes.0.clear();
			}
			ctx.observe(&[n as u8, fits as u8]);
			Ok(())
		})
	});
	// More descriptors than the kernel passes.
	c.run_opts("more descriptors than the kernel passes", Options { threads: 1, ..opts() }, |ctx: &mut Ctx| {
		let limit = [254, 1000, u32::MAX][ctx.choose(3)];
		let counts = [ctx.choose(4), ctx.choose(4)].map(|i| [1usize, 253, 254, 400][i]);
		block_on(async {
			let (socket, raw) = half_raw();
			let mut transport = socket.into_transport(fd_config(limit, limit));
			let (mut read, mut write) = transport.split();
			let mut probes = Probes(Vec::new());
			for (i, n) in counts.into_iter().enumerate() {
				ctx.step();
				ctx.log(|| format!("send {n} descriptors, limit {limit}"));
				let m = Msg::new(headers(i), body(7, 1));
				let b = UnixBody::new(m.body.clone(), probes.make(n));
				let result = must("writing", write.write_msg(&m.header, &b)).await?;
				drop(b);
				let sent = raw_recv(raw.as_raw_fd()).expect("receive");
				ctx.observe(&[n as u8, result.is_ok() as u8]);
				match result {
					Ok(()) => match sent {
						Some((data, fds)) => {
							check!(data == datagram(&m, Endian::LittleEndian), "the message was not sent correctly");
							check!(fds.len() == n, "sent {} descriptors instead of {n}", fds.len());
							probes.same(&raw_fds(&fds))?;
						},
						None => fail!("{n} descriptors were not sent"),
					},
					Err(e) => {
						check!(n > 253, "{n} descriptors were refused: {e}");
						check!(sent.is_none(), "a refused message was sent");
						check!(!e.is_fatal(), "{n} descriptors that the kernel refuses make the transport unusable: {e}");
					},
				}
				probes.closed("after the message was received or refused")?;
				probes.0.clear();
			}
			let m = Msg::new(headers(9), body(3, 1));
			raw_send(raw.as_raw_fd(), &datagram(&m, Endian::LittleEndian), &[]).expect("send");
			match must("reading", read.read_msg()).await? {
				Ok(x) => check!(of(&x) == m, "received {} instead of {}", of(&x).short(), m.short()),
				Err(e) => fail!("a message is not received after others were refused: {e}"),
			}
			Ok(())
		})
	});
	// The receiving process has not enough descriptors left.
	c.run_opts("no free descriptors left to receive into", Options { threads: 1, ..opts() }, |ctx: &mut Ctx| {
		let limit = [0, 1, 3, 10, u32::MAX][ctx.choose(5)];
		let n = ctx.choose(5);
		let left = ctx.choose(5);
		let peer = ctx.choose(2) == 1;
		block_on(async {
			ctx.step();
			ctx.log(|| format!("receive {n} descriptors with {left} free ones, limit {limit}"));
			let mut probes = Probes(Vec::new());
			let m = Msg::new(headers(0), body(7, 1));
			let next = Msg::new(MessageHeader::stream(0, 6), body(5, 2));
			let m = if peer { Msg::new(MessageHeader::stream(0, 5), m.body) } else { m };
			let (socket, raw) = half_raw();
			let mut transport = socket.into_transport(fd_config(limit, limit));
			let send = |m: &Msg, fds: &[OwnedFd]| {
				raw_send(raw.as_raw_fd(), &datagram(m, Endian::LittleEndian), &raw_fds(fds)).expect("send");
			};
			let mut results = Vec::new();
			if peer {
				let mut handle = Peer::spawn(transport);
				send(&m, &probes.owned(n));
				let few = FewDescriptors::new(left);
				results.push(must("receive", handle.recv_message()).await?.map_err(|e| (e.is_connection_aborted(), e.to_string())));
				drop(few);
				send(&next, &probes.owned(n.min(1)));
				results.push(must("receive", handle.recv_message()).await?.map_err(|e| (e.is_connection_aborted(), e.to_string())));
				let results = results.into_iter().map(|x| match x {
					Ok(ReceivedMessage::Stream(m)) => Ok(m),
					Ok(x) => Err((true, format!("received {x:?}"))),
					Err(e) => Err(e),
				});
				received_with_few(ctx, results.collect(), [&m, &next], n, left, limit, &probes)?;
			} else {
				let (mut read, _write) = transport.split();
				let mut results = Vec::new();
				send(&m, &probes.owned(n));
				let few = FewDescriptors::new(left);
				results.push(must("reading", read.read_msg()).await?.map_err(|e| (e.is_fatal(), e.to_string())));
				drop(few);
				send(&next, &probes.owned(n.min(1)));
				results.push(must("reading", read.read_msg()).await?.map_err(|e| (e.is_fatal(), e.to_string())));
				received_with_few(ctx, results, [&m, &next], n, left, limit, &probes)?;
			}
			probes.closed("after the messages were dropped")?;
			Ok(())
		})
	});
	p05_peers(c);
	c.assumptions.push("The kernel closes descriptors in flight when it drops a datagram.".into());
}

/// Peers with all fates of messages.
/// Leaves only some free descriptors in this process, until it is dropped.
struct FewDescriptors(libc::rlimit);

impl FewDescriptors {
	fn new(free: usize) -> Self {
		let mut old: libc::rlimit = unsafe { std::mem::zeroed() };
		assert!(unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut old) } == 0, "getrlimit");
		let is_free = |fd: RawFd| unsafe { libc::fcntl(fd, libc::F_GETFD) } == -1;
		let mut left = free;
		let mut max = 0;
		while left > 0 || !is_free(max) {
			if is_free(max) {
				left -= 1;
			}
			max += 1;
		}
		let new = libc::rlimit { rlim_cur: max as _, ..old };
		assert!(unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &new) } == 0, "setrlimit");
		Self(old)
	}
}

impl Drop for FewDescriptors {
	fn drop(&mut self) {
		assert!(unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &self.0) } == 0, "setrlimit");
	}
}

/// Two messages were received, the first one with only some descriptors left.
fn received_with_few(
	ctx: &mut Ctx,
	results: Vec<Result<fizyr_rpc::Message<UnixBody>, (bool, String)>>,
	messages: [&Msg; 2],
	n: usize,
	left: usize,
	limit: u32,
	probes: &Probes,
) -> Res {
	let fits = n as u64 <= limit as u64;
	let then = n.min(1);
	for (i, result) in results.into_iter().enumerate() {
		let expected = if i == 0 { fits && n <= left } else { then as u64 <= limit as u64 };
		let range = if i == 0 { 0..n } else { n..n + then };
		ctx.observe(&[n as u8, left as u8, result.is_ok() as u8]);
		match result {
			Ok(x) => {
				let count = range.len();
				check!(of(&x) == *messages[i], "received {} instead of {}", of(&x).short(), messages[i].short());
				check!(x.body.fds.len() == count, "a message was delivered with {} of its {count} descriptors ({left} were free)", x.body.fds.len());
				check!(expected, "a message with {count} descriptors was accepted, {left} were free, limit {limit}");
				for (fd, p) in x.body.fds.iter().zip(&probes.0[range]) {
					check!(p.is_same(fd.as_raw_fd()), "a descriptor is not the one that was sent");
				}
			},
			Err((fatal, e)) => {
				check!(!expected, "a message with {} descriptors was rejected ({left} were free): {e}", range.len());
				check!(!fatal, "a message whose descriptors can not be received makes the connection unusable: {e}");
			},
		}
	}
	Ok(())
}

fn p05_peers(c: &mut Check) {
	// A raw remote sends messages with descriptors, the local application treats them in different ways.
	let depth = c.bound(4, 5);
	c.run_opts(&format!("descriptors of incoming messages and what becomes of them, sequences of {depth}"), opts(), |ctx: &mut Ctx| {
		block_on(async {
			let (socket, raw) = half_raw();
			let peer = Peer::spawn(socket.into_transport(fd_config(2, 2)));
			let (read, write) = peer.split();
			let mut read = Some(read);
			let mut write = Some(write);
			let mut probes = Probes(Vec::new());
			// One request in each direction is open.
			let mut sent = Some(must("send", write.as_ref().unwrap().send_request(1, Vec::new())).await?.map_err(|e| format!("send failed: {e}"))?);
			let (d, _) = raw_recv(raw.as_raw_fd()).expect("receive").ok_or("the request was not transmitted")?;
			let sent_id = u32::from_le_bytes(d[4..8].try_into().unwrap());
			let open = Msg::new(MessageHeader::request(77, 1), vec![]);
			raw_send(raw.as_raw_fd(), &datagram(&open, Endian::LittleEndian), &[]).expect("send");
			let mut received = match must("receive", read.as_mut().unwrap().recv_message()).await? {
				Ok(ReceivedMessage::Request(r, _)) => Some(r),
				x => fail!("received {x:?}"),
			};
			for i in 0..depth {
				ctx.step();
				let x = ctx.choose(15);
				let header = match x {
					0 => Some(MessageHeader::request(100 + i as u32, 1)),
					1 => Some(MessageHeader::request(77, 1)),
					2 => Some(MessageHeader::stream(0, 1)),
					3 => Some(MessageHeader::requester_update(77, 1)),
					4 => Some(MessageHeader::responder_update(sent_id, 1)),
					5 => Some(MessageHeader::response(sent_id, 1)),
					6 => Some(MessageHeader::response(4000, 1)),
					7 => Some(MessageHeader::requester_update(4000, 1)),
					8 => Some(MessageHeader::stream(3, 1)),
					_ => None,
				};
				if let Some(header) = header {
					// One stream message has too many.
					let n = if x == 8 { 5 } else { 2 };
					let m = Msg::new(header, body(3, 3));
					ctx.log(|| format!("remote sends {} with {n} descriptors", m.short()));
					let fds = probes.owned(n);
					// This fails after the connection was closed.
					let r = raw_send(raw.as_raw_fd(), &datagram(&m, Endian::LittleEndian), &raw_fds(&fds));
					ctx.observe(&[r.is_ok() as u8]);
					drop(fds);
					settle().await;
				}
				match x {
					9 => {
						ctx.log(|| "drop the read handle".into());
						read = None;
					},
					10 => {
						ctx.log(|| "drop the handle of the sent request".into());
						sent = None;
					},
					11 => {
						ctx.log(|| "drop the handle of the received request".into());
						received = None;
					},
					12 => {
						if let Some(r) = read.as_mut() {
							let got = try_now(pin!(r.recv_message())).await;
							ctx.log(|| format!("recv_message: {got:?}"));
							if let Some(Ok(ReceivedMessage::Request(r, _))) = got {
								// Keep only the handle.
								received = Some(r);
							}
						}
					},
					13 => {
						if let Some(s) = sent.as_mut() {
							let got = try_now(pin!(s.recv_update())).await;
							ctx.log(|| format!("recv_update: {got:?}"));
							let got = try_now(pin!(s.recv_response())).await;
							ctx.log(|| format!("recv_response: {got:?}"));
						}
					},
					14 => {
						ctx.log(|| "close".into());
						if let Some(w) = write.take() {
							w.close();
						}
					},
					_ => (),
				}
			}
			// In any order of clean up, every descriptor gets closed.
			let order = ctx.choose(3);
			ctx.log(|| format!("clean up in order {order}"));
			match order {
				0 => {
					drop((read, write));
					settle().await;
					drop((sent, received));
					settle().await;
				},
				1 => {
					drop((sent, received));
					settle().await;
					drop((write, read));
					settle().await;
				},
				_ => {
					unsafe { libc::shutdown(raw.as_raw_fd(), libc::SHUT_RDWR) };
					settle().await;
					drop((read, received, sent, write));
					settle().await;
				},
			}
			drop(raw);
			settle().await;
			probes.closed("after all handles were dropped")?;
			Ok(())
		})
	});
	// The descriptors of messages that are sent.
	c.run_opts("descriptors of outgoing messages and what becomes of them", opts(), |ctx: &mut Ctx| {
		let n = ctx.choose(5);
		let kind = ctx.choose(5);
		// Receive at once, receive nothing, close before, connection full, cancel at the first poll.
		let fate = ctx.choose(5);
		let big = ctx.choose(2) == 1;
		block_on(async {
			let (socket, raw) = half_raw();
			let peer = Peer::spawn(socket.into_transport(fd_config(2, 2)));
			let (mut read, write) = peer.split();
			let mut probes = Probes(Vec::new());
			let sent = must("send", write.send_request(1, Vec::new())).await?.map_err(|e| format!("send failed: {e}"))?;
			raw_recv(raw.as_raw_fd()).expect("receive").ok_or("the request was not transmitted")?;
			let open = Msg::new(MessageHeader::request(77, 1), vec![]);
			raw_send(raw.as_raw_fd(), &datagram(&open, Endian::LittleEndian), &[]).expect("send");
			let received = match must("receive", read.recv_message()).await? {
				Ok(ReceivedMessage::Request(r, _)) => r,
				x => fail!("received {x:?}"),
			};
			if fate == 2 {
				write.close();
				settle().await;
			}
			let mut filled = 0;
			if fate == 3 {
				// Fill the socket.
				loop {
					let mut f = Box::pin(write.send_stream(1, body(64, 0)));
					match try_now(f.as_mut()).await {
						Some(Ok(())) => filled += 1,
						Some(Err(e)) => fail!("send failed: {e}"),
						None => break,
					}
					check!(filled < 100_000, "the socket never fills up");
				}
			}
			ctx.step();
			ctx.log(|| format!("send message of kind {kind} with {n} descriptors, fate {fate}, too large: {big}"));
			let data = body(if big { 65 } else { 4 }, 2);
			let b = UnixBody::new(data.clone(), probes.make(n));
			let mut new = None;
			let result = {
				let op = async {
					match kind {
						0 => write.send_stream(5, b).await,
						1 => match write.send_request(5, b).await {
							Ok(x) => {
								new = Some(x);
								Ok(())
							},
							Err(e) => Err(e),
						},
						2 => sent.send_update(5, b).await,
						3 => received.send_update(5, b).await,
						_ => received.send_response(5, b).await,
					}
				};
				let mut op = Box::pin(op);
				match fate {
					4 => {
						let _ = std::future::poll_fn(|cx| std::task::Poll::Ready(op.as_mut().poll(cx))).await;
						None
					},
					3 => try_now(op.as_mut()).await,
					_ => Some(must("send", op).await?),
				}
			};
			settle().await;
			ctx.observe(format!("{n} {kind} {fate} {big} {:?}", result.as_ref().map(|x| x.is_ok())).as_bytes());
			let ok = n <= 2 && !big;
			match fate {
				0 => {
					check!(result.as_ref().is_some_and(|r| r.is_ok()) == ok, "sending {n} descriptors: {result:?}");
					let got = raw_recv(raw.as_raw_fd()).expect("receive");
					check!(got.is_some() == ok, "unexpected transmission");
					if let Some((d, fds)) = got {
						check!(d[12..] == data, "wrong body");
						check!(fds.len() == n, "received {} descriptors instead of {n}", fds.len());
						probes.same(&raw_fds(&fds))?;
					}
					probes.closed("after the message was sent and received, or refused")?;
				},
				1 => {
					check!(result.as_ref().is_some_and(|r| r.is_ok()) == ok, "sending {n} descriptors: {result:?}");
				},
				2 => {
					check!(result.as_ref().is_some_and(|r| r.is_err()), "sent after the connection was closed: {result:?}");
					probes.closed("after the send failed")?;
				},
				3 => {
					if let Some(Ok(())) = result {
						fail!("sent although the socket is full");
					}
				},
				_ => (),
			}
			// The peer and the socket go away, in this order.
			if fate == 1 {
				drop(raw);
				settle().await;
				drop((write, read, sent, received, new));
				settle().await;
			} else {
				drop((write, read, sent, received, new));
				settle().await;
				drop(raw);
				settle().await;
			}
			probes.closed("after everything was dropped")?;
			Ok(())
		})
	});
	// Everything works after messages with too many descriptors.
	c.run_opts("too many descriptors harm nothing else", opts(), |ctx: &mut Ctx| {
		let n = ctx.choose(8);
		let limit = ctx.choose(4);
		let sender = ctx.choose(2) == 0;
		let kind = ctx.choose(3);
		block_on(async {
			let (a, b) = UnixSeqpacket::pair().expect("socket pair");
			let mut probes = Probes(Vec::new());
			{
				let a = Peer::spawn(a.into_transport(if sender { fd_config(20, limit as u32) } else { fd_config(20, 20) }));
				let b = Peer::spawn(b.into_transport(if sender { fd_config(20, 20) } else { fd_config(limit as u32, 20) }));
				let (_a_read, a) = a.split();
				let (mut b_read, _b) = b.split();
				let mut sent = must("send", a.send_request(1, Vec::new())).await?.map_err(|e| format!("send failed: {e}"))?;
				let mut received = match must("receive", b_read.recv_message()).await? {
					Ok(ReceivedMessage::Request(r, _)) => r,
					x => fail!("received {x:?}"),
				};
				ctx.step();
				ctx.log(|| format!("kind {kind}, {n} descriptors, limit {limit} of the {}", if sender { "sender" } else { "receiver" }));
				let data = UnixBody::new(body(4, 2), probes.make(n));
				let mut new = None;
				let result = match kind {
					0 => must("send", a.send_stream(5, data)).await?,
					1 => match must("send", a.send_request(5, data)).await? {
						Ok(x) => {
							new = Some(x);
							Ok(())
						},
						Err(e) => Err(e),
					},
					_ => must("send", sent.send_update(5, data)).await?,
				};
				ctx.observe(&[n as u8, limit as u8, kind as u8, result.is_err() as u8]);
				check!(result.is_err() == (sender && n > limit), "{n} descriptors with limit {limit}: {result:?}");
				if n <= limit || !sender {
					let got = if kind == 2 && n <= limit {
						must("receive", received.recv_update()).await?.map(|m| m.body)
					} else {
						match must("receive", b_read.recv_message()).await? {
							Ok(ReceivedMessage::Stream(m)) => Some(m.body),
							Ok(ReceivedMessage::Request(_, b)) => Some(b),
							Err(e) => {
								check!(!e.is_connection_aborted(), "the connection ended: {e}");
								None
							},
						}
					};
					check!(got.is_some() == (n <= limit), "{n} descriptors with limit {limit} received: {}", got.is_some());
					if let Some(b) = got {
						check!(b.fds.len() == n, "received {} descriptors instead of {n}", b.fds.len());
						probes.same(&b.fds.iter().map(|x| x.as_raw_fd()).collect::<Vec<_>>())?;
					}
				}
				probes.closed("after the message was dropped or refused")?;
				let data = UnixBody::new(body(5, 2), probes.make(limit));
				must("send", received.send_response(8, data)).await?.map_err(|e| format!("later send failed: {e}"))?;
				match must("receive", sent.recv_response()).await? {
					Ok(m) => {
						check!(m.body.fds.len() == limit, "received {} descriptors instead of {limit}", m.body.fds.len());
						probes.same(&m.body.fds.iter().map(|x| x.as_raw_fd()).collect::<Vec<_>>())?;
					},
					Err(e) => fail!("no response: {e}"),
				}
				drop(new);
			}
			probes.closed("after everything was dropped")?;
			Ok(())
		})
	});
}
