//! Byte streams over real sockets: the other end is a raw socket, so that every byte is under control.

use super::bytes::{body, message, specification, ENDIANS};
use super::net::{Config, Net, Stream, Tcp};
use fizyr_rpc::transport::{Transport, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::StreamBody;
use mc::explore::{Ctx, Res};
use mc::mock::Msg;
use mc::pipe::{encode_frame, raw_frame};
use mc::real::*;
use mc::report::Check;
use mc::{check, fail};
use std::os::fd::RawFd;
use std::pin::pin;

fn send_all(fd: RawFd, data: &[u8]) -> Res {
	let n = unsafe { libc::send(fd, data.as_ptr() as *const _, data.len(), libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) };
	check!(n == data.len() as isize, "machinery: the raw socket does not take {} bytes", data.len());
	Ok(())
}

/// Receive at most this many bytes. `None`: there is nothing now.
fn recv_some(fd: RawFd, max: usize) -> Option<Vec<u8>> {
	let mut data = vec![0; max];
	let n = unsafe { libc::recv(fd, data.as_mut_ptr() as *mut _, max, libc::MSG_DONTWAIT) };
	if n < 0 {
		return None;
	}
	data.truncate(n as usize);
	Some(data)
}

fn small_buffers(fd: RawFd) {
	let size: libc::c_int = 2048;
	for option in [libc::SO_SNDBUF, libc::SO_RCVBUF] {
		unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, option, &size as *const _ as *const _, 4) };
	}
}

/// The bytes of some messages arrive in pieces, the receiver reads between the pieces, and may give up waiting in between.
fn reads<N: Net<B = StreamBody>>(ctx: &mut Ctx, cuts: usize) -> Res {
	let endian = ENDIANS[ctx.choose(3)];
	let lens = [[0usize, 3, 0], [1, 0, 9], [5, 40, 1]][ctx.choose(3)];
	let cancel = ctx.choose(2) == 1;
	let messages: Vec<Msg> = (0..3).map(|i| message(i + 1, lens[i])).collect();
	let data: Vec<u8> = messages.iter().flat_map(|m| encode_frame(m, endian)).collect();
	let mut ends = Vec::new();
	let mut at = 0;
	for _ in 0..cuts {
		at += ctx.choose(data.len() - at + 1);
		ends.push(at);
	}
	ends.push(data.len());
	let mut complete = Vec::new();
	let mut offset = 0;
	for m in &messages {
		offset += 16 + m.body.len();
		complete.push(offset);
	}
	block_on(async {
		let (socket, raw) = N::pair().await;
		let mut transport = N::transport(socket, Config::new(40, 40, endian));
		let (mut read, _write) = transport.split();
		let mut received = 0;
		let mut sent = 0;
		for &end in &ends {
			ctx.step();
			send_all(N::fd(&raw), &data[sent..end])?;
			sent = end;
			ctx.log(|| format!("{sent} bytes sent"));
			while received < 3 && complete[received] <= sent {
				match must("read_msg", read.read_msg()).await? {
					Ok(m) => check!(Msg::of(&m) == messages[received], "received {} instead of {}", Msg::of(&m).short(), messages[received].short()),
					Err(e) => fail!("received the error {e} instead of {}", messages[received].short()),
				}
				received += 1;
			}
			if cancel {
				// Nothing more can be received, and giving up waiting loses nothing.
				let r = try_now(pin!(read.read_msg())).await;
				check!(r.is_none(), "received {r:?} before the message is complete");
			}
		}
		drop(raw);
		match must("read_msg", read.read_msg()).await? {
			Err(e) => check!(e.is_fatal() && e.inner().is_connection_aborted(), "the end of the connection is reported as {e}"),
			Ok(m) => fail!("received {} at the end", Msg::of(&m).short()),
		}
		Ok(())
	})
}

/// Large messages are written while the receiver takes them in pieces.
fn writes<N: Net<B = StreamBody>>(ctx: &mut Ctx, small: bool) -> Res {
	let endian = ENDIANS[ctx.choose(2)];
	let large = if small { [2000usize, 9000, 65536, 300_001][ctx.choose(4)] } else { 6_000_001 };
	let lens = [[large, 0, large], [0, large, 1], [large, large - 16, 7]][ctx.choose(3)];
	let pieces = [[1usize, 1], [15, 17], [1, 4096], [5000, 333], [65536, 3]][ctx.choose(if small { 5 } else { 2 })];
	let cycle = match large {
		0..=10_000 => pieces,
		10_001..=1_000_000 => [4096.max(pieces[0]), 8191.max(pieces[1])],
		_ => [1 << 20, 99_999],
	};
	let wait = ctx.choose(2) == 1;
	let messages: Vec<Msg> = (0..3).map(|i| message(i, lens[i])).collect();
	let want: Vec<u8> = messages.iter().flat_map(|m| encode_frame(m, endian)).collect();
	block_on(async {
		let (socket, raw) = N::pair().await;
		// TCP waits for timers if its buffers are small.
		if small {
			small_buffers(N::fd(&socket));
			small_buffers(N::fd(&raw));
		}
		let mut transport = N::transport(socket, Config::new(0, large as u32, endian));
		let (_read, mut write) = transport.split();
		let mut got: Vec<u8> = Vec::new();
		let mut n = 0;
		let mut take = |got: &mut Vec<u8>| {
			let piece = if n < 4 { pieces[n % 2] } else { cycle[n % 2] };
			n += 1;
			recv_some(N::fd(&raw), piece).map(|x| got.extend(x)).is_some()
		};
		for m in &messages {
			ctx.step();
			let b = m.body.clone().into();
			let mut future = pin!(write.write_msg(&m.header, &b));
			let start = std::time::Instant::now();
			loop {
				let now = if wait {
					try_now(future.as_mut()).await
				} else {
					match std::future::poll_fn(|cx| std::task::Poll::Ready(std::future::Future::poll(future.as_mut(), cx))).await {
						std::task::Poll::Ready(x) => Some(x),
						std::task::Poll::Pending => None,
					}
				};
				match now {
					Some(Ok(())) => break,
					Some(Err(e)) => fail!("write failed: {e}"),
					None => (),
				}
				if !take(&mut got) {
					tokio::task::yield_now().await;
				}
				check!(start.elapsed() < PATIENCE * 2, "a write does not complete although the receiver takes everything");
			}
		}
		until("not everything that was written arrives", || {
			while got.len() < want.len() && take(&mut got) {}
			got.len() >= want.len()
		})
		.await?;
		check!(got == want, "{} bytes arrive instead of the {} of the encoded messages, first difference at {:?}", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b));
		check!(recv_some(N::fd(&raw), 1).is_none(), "more bytes than those of the encoded messages are transmitted");
		Ok(())
	})
}

/// Damaged frames after good ones, cut off anywhere.
fn defects<N: Net<B = StreamBody>>(ctx: &mut Ctx) -> Res {
	let endian = ENDIANS[ctx.choose(2)];
	let limit = 6;
	let good = ctx.choose(2);
	let length = [12, 0, 11, 17, 18, 19, u32::MAX][ctx.choose(7)];
	let kind = [4, 0, 5, u32::MAX][ctx.choose(4)];
	let mut data = Vec::new();
	for i in 0..good {
		data.extend(encode_frame(&message(i, 4), endian));
	}
	let start = data.len();
	data.extend(raw_frame(length, kind, 3, 9, &body(6, 9), endian));
	let cut = ctx.choose(data.len() - start + 1);
	data.truncate(data.len() - cut);
	let two = ctx.choose(2) == 1;
	let (want, _) = specification(&data, limit, endian);
	block_on(async {
		let (socket, raw) = N::pair().await;
		let mut transport = N::transport(socket, Config::new(limit, 0, endian));
		let (mut read, _write) = transport.split();
		let middle = if two { start + (data.len() - start) / 2 } else { 0 };
		send_all(N::fd(&raw), &data[..middle])?;
		let mut received = Vec::new();
		if two {
			while let Some(r) = try_now(pin!(read.read_msg())).await {
				match r {
					Ok(m) => received.push(Msg::of(&m)),
					Err(e) => {
						check!(received == want, "received {received:?} instead of {want:?} before the error {e}");
						check!(e.is_fatal(), "the defect does not end the connection");
						return Ok(());
					},
				}
			}
		}
		send_all(N::fd(&raw), &data[middle..])?;
		drop(raw);
		loop {
			ctx.step();
			match must("read_msg", read.read_msg()).await? {
				Ok(m) => received.push(Msg::of(&m)),
				Err(e) => {
					check!(received == want, "received {received:?} instead of {want:?} before the error {e}");
					check!(e.is_fatal(), "the defect does not end the connection");
					return Ok(());
				},
			}
			check!(received.len() <= want.len(), "received {} which was not sent", received.last().unwrap().short());
		}
	})
}

pub fn p01(c: &mut Check) {
	fn one<N: Net<B = StreamBody>>(c: &mut Check, cuts: usize, small: bool) {
		c.run_opts(&format!("{}: received in {} pieces", N::NAME, cuts + 1), opts(), |ctx: &mut Ctx| reads::<N>(ctx, cuts));
		c.run_opts(&format!("{}: large writes to a slow receiver", N::NAME), opts(), |ctx: &mut Ctx| writes::<N>(ctx, small));
	}
	one::<Stream>(c, c.bound(2, 3), true);
	one::<Tcp>(c, c.bound(1, 2), false);
}

pub fn p02(c: &mut Check) {
	c.run_opts("unix stream: defects", opts(), |ctx: &mut Ctx| defects::<Stream>(ctx));
	c.run_opts("tcp: defects", opts(), |ctx: &mut Ctx| defects::<Tcp>(ctx));
}
