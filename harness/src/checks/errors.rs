//! What errors say about their cause.

use super::net::*;
use fizyr_rpc::transport::Endian;
use fizyr_rpc::{Body, Error, Message, MessageHeader, ParseUpdateError, Peer, PeerHandle, ReceivedMessage, ReceivedRequestHandle, RecvMessageError};
use mc::explore::{Ctx, Res};
use mc::real::*;
use mc::report::Check;
use mc::{check, fail};
use std::io::ErrorKind;

/// What can be asked about an error.
#[derive(Clone, Debug, PartialEq, Default)]
struct Class {
	aborted: bool,
	unexpected: bool,
	remote: Option<String>,
}

fn other() -> Class {
	Class::default()
}

fn aborted() -> Class {
	Class { aborted: true, ..other() }
}

fn class(e: Error) -> Res<Class> {
	let c = Class { aborted: e.is_connection_aborted(), unexpected: e.is_unexpected_message_type(), remote: e.as_remote_error().map(String::from) };
	check!(e.is_remote_error() == c.remote.is_some(), "is_remote_error() and as_remote_error() do not agree on {e:?}");
	let text = e.to_string();
	let wrapped = RecvMessageError::<fizyr_rpc::StreamBody>::from(e);
	check!(wrapped.to_string() == text, "{text:?} becomes {:?} in a RecvMessageError", wrapped.to_string());
	check!(wrapped.is_connection_aborted() == c.aborted, "RecvMessageError::is_connection_aborted() is wrong for {wrapped:?}");
	let RecvMessageError::Other(e) = wrapped else { fail!("an error becomes {wrapped:?}") };
	check!(e.to_string() == text, "{text:?} becomes {e}");
	let into = e.into_remote_error();
	check!(into == c.remote, "into_remote_error() and as_remote_error() do not agree: {into:?}, {:?}", c.remote);
	Ok(c)
}

fn is(what: &str, e: Error, want: Class, text: &str) -> Res {
	let shown = e.to_string();
	check!(shown == text, "{what}: the error is {shown:?}, but it should be {text:?}");
	let got = class(e)?;
	check!(got == want, "{what}: the error {shown:?} is {got:?}, but it should be {want:?}");
	Ok(())
}

/// An error about which only some words are known.
fn mentions(what: &str, e: Error, want: Class, words: &[String]) -> Res {
	let shown = e.to_string();
	for w in words {
		check!(shown.split(|c: char| !c.is_alphanumeric() && c != '-').any(|x| x == w), "{what}: the error {shown:?} does not mention {w}");
	}
	let got = class(e)?;
	check!(got == want, "{what}: the error {shown:?} is {got:?}, but it should be {want:?}");
	Ok(())
}

const KINDS: &[ErrorKind] = &[
	ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::NotConnected,
	ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput,
	ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::Interrupted, ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory,
	ErrorKind::Other, ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable, ErrorKind::NetworkDown, ErrorKind::StorageFull, ErrorKind::ResourceBusy,
];

const TEXTS: &[&str] = &["", " ", "x", "connection aborted", "remote error", "{} {0} %s \n", "\u{fc}\u{1f600}", "unexpected message type"];

fn io_errors(ctx: &mut Ctx) -> Res {
	let how = ctx.choose(2);
	let make = |e: std::io::Error| if how == 0 { Error::io_error(e) } else { Error::from(e) };
	let what = ctx.choose(3);
	let new: Box<dyn Fn() -> std::io::Error> = match what {
		0 => {
			let kind = KINDS[ctx.choose(KINDS.len())];
			Box::new(move || kind.into())
		},
		1 => {
			let code = ctx.choose(140) as i32;
			Box::new(move || std::io::Error::from_raw_os_error(code))
		},
		_ => {
			let kind = KINDS[ctx.choose(KINDS.len())];
			let text = TEXTS[ctx.choose(TEXTS.len())];
			Box::new(move || std::io::Error::new(kind, text))
		},
	};
	let e = new();
	let want = if e.kind() == ErrorKind::ConnectionAborted { aborted() } else { other() };
	ctx.observe(e.to_string().as_bytes());
	ctx.step();
	is(&format!("{e:?}"), make(new()), want.clone(), &e.to_string())?;
	// The errors of a transport carry their cause unchanged.
	for fatal in [true, false] {
		let t = mc::hooks::new_error_from(new(), fatal);
		if mc_hooks() {
			check!(t.is_fatal() == fatal, "a transport error that is fatal: {fatal} says {}", t.is_fatal());
			check!(t.inner().to_string() == e.to_string(), "a transport error hides {e:?}");
			check!(t.to_string().contains(&e.to_string()), "a transport error is shown as {t} instead of {e}");
			is("the cause of a transport error", t.into_inner(), want.clone(), &e.to_string())?;
		}
	}
	Ok(())
}

fn mc_hooks() -> bool {
	mc::hooks::HOOKS
}

#[derive(Debug)]
struct Inner(Option<&'static str>);
impl std::error::Error for Inner {}
impl std::fmt::Display for Inner {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str(self.0.unwrap_or("inner"))
	}
}

const NUMBERS: &[u64] = &[0, 1, 5, 11, 12, 13, 255, 256, 4096, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];

fn constructed(ctx: &mut Ctx) -> Res {
	let n = |ctx: &mut Ctx| NUMBERS[ctx.choose(NUMBERS.len())];
	let inner = |which: usize, text| -> Box<dyn std::error::Error + Send> {
		match which {
			0 => Box::new(Inner(Some(text))),
			1 => Box::new(std::io::Error::new(ErrorKind::ConnectionAborted, text)),
			_ => Box::new(Error::remote_error(text.to_string())),
		}
	};
	let kind = ctx.choose(8);
	ctx.observe(&[kind as u8]);
	ctx.step();
	match kind {
		0 => {
			let x = n(ctx);
			mentions("message_too_short", Error::message_too_short(x as usize), other(), &[x.to_string()])
		},
		1 => {
			let x = n(ctx);
			mentions("invalid_message_type", Error::invalid_message_type(x as u32), other(), &[x.to_string()])
		},
		2 => {
			let (x, y) = (n(ctx), n(ctx));
			mentions("payload_too_large", Error::payload_too_large(x as usize, y as usize), other(), &[x.to_string(), y.to_string()])?;
			check!(x == y || Error::payload_too_large(x as usize, y as usize).to_string() != Error::payload_too_large(y as usize, x as usize).to_string(), "the length and the limit look the same");
			Ok(())
		},
		3 => {
			let x = n(ctx) as u32 as i32;
			mentions("unexpected_service_id", Error::unexpected_service_id(x), other(), &[x.to_string()])
		},
		4 => {
			let (which, text) = (ctx.choose(3), TEXTS[ctx.choose(TEXTS.len())]);
			is("encode_failed", Error::encode_failed(inner(which, text)), other(), text)
		},
		5 => {
			let (which, text) = (ctx.choose(3), TEXTS[ctx.choose(TEXTS.len())]);
			is("decode_failed", Error::decode_failed(inner(which, text)), other(), text)
		},
		6 => {
			let text = TEXTS[ctx.choose(TEXTS.len())];
			is("remote_error", Error::remote_error(text.into()), Class { remote: Some(text.into()), ..other() }, text)
		},
		_ => {
			let text = TEXTS[ctx.choose(TEXTS.len())];
			is("custom", Error::custom(text.into()), other(), text)
		},
	}
}

/// A peer, and a socket that is under control.
struct World<N: Net> {
	peer: PeerHandle<N::B>,
	remote: N::Socket,
	endian: Endian,
}

fn word(x: u32, endian: Endian) -> [u8; 4] {
	if endian == Endian::BigEndian { x.to_be_bytes() } else { x.to_le_bytes() }
}

impl<N: Net> World<N> {
	async fn new(c: Config) -> Self {
		let (a, b) = N::pair().await;
		Self { peer: Peer::spawn(N::transport(a, c)), remote: b, endian: c.endian }
	}

	fn is_datagram(&self) -> bool {
		N::NAME == "unix seqpacket"
	}

	fn send(&self, kind: u32, id: u32, service: i32, body: &[u8]) {
		let mut data = Vec::new();
		if !self.is_datagram() {
			data.extend(word(12 + body.len() as u32, self.endian));
		}
		for x in [kind, id, service as u32] {
			data.extend(word(x, self.endian));
		}
		data.extend(body);
		N::send_raw(&self.remote, &data);
	}

	async fn request(&mut self, id: u32, service: i32) -> Res<ReceivedRequestHandle<N::B>> {
		self.send(0, id, service, b"");
		match must("receiving a request", self.peer.recv_message()).await? {
			Ok(ReceivedMessage::Request(r, _)) => Ok(r),
			x => fail!("received {x:?} instead of a request"),
		}
	}

	async fn error(&mut self, what: &str) -> Res<Error> {
		match must(what, self.peer.recv_message()).await? {
			Ok(x) => fail!("{what}: received {x:?} instead of an error"),
			Err(e) => Ok(e),
		}
	}
}

const IDS: &[u32] = &[0, 1, 10, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe];

/// Errors that arise while a connection is used.
async fn arising<N: Net>(ctx: &mut Ctx) -> Res {
	let endian = [Endian::LittleEndian, Endian::BigEndian][ctx.choose(2)];
	let (read, write) = [(40, 60), (60, 40), (0, 1)][ctx.choose(3)];
	let mut w = World::<N>::new(Config::new(read, write, endian)).await;
	// Whether a request in each direction is open.
	let open = ctx.choose(2) == 1;
	let (mut sent, mut received) = (None, None);
	if open {
		sent = Some(send_ok("sending a request", w.peer.send_request(3, data::<N::B>(0, 0))).await?);
		received = Some(w.request(77, 4).await?);
	}
	let kind = ctx.choose(10);
	ctx.observe(&[kind as u8, open as u8]);
	ctx.step();
	match kind {
		// Messages that are too short.
		0 => {
			let n = ctx.choose(12);
			if w.is_datagram() {
				if n == 0 {
					return Ok(());
				}
				N::send_raw(&w.remote, &vec![7; n]);
			} else {
				let mut data = word(n as u32, endian).to_vec();
				data.extend([0; 12]);
				N::send_raw(&w.remote, &data);
			}
			let e = w.error("a message that is too short").await?;
			is("a message that is too short", e, other(), &Error::message_too_short(n).to_string())
		},
		// Unknown types.
		1 => {
			let v = [5, 6, 255, 256, 0x0100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff][ctx.choose(8)];
			w.send(v, 1, 2, b"");
			let e = w.error("an unknown message type").await?;
			is("an unknown message type", e, other(), &Error::invalid_message_type(v).to_string())
		},
		// Messages that are too large to be received.
		2 => {
			let n = read as usize + if w.is_datagram() { 1 } else { 1 + ctx.choose(3) };
			w.send(ctx.choose(5) as u32, 77, 2, &vec![1; n]);
			let e = w.error("a message that is too large").await?;
			is("a message that is too large", e, other(), &Error::payload_too_large(n, read as usize).to_string())
		},
		// Messages that are too large to be sent.
		3 => {
			let n = write as usize + 1 + ctx.choose(3);
			let b = data::<N::B>(n, 1);
			let (what, r) = match ctx.choose(if open { 5 } else { 2 }) {
				0 => ("request", must("sending", w.peer.send_request(1, b)).await?.map(drop)),
				1 => ("stream message", must("sending", w.peer.send_stream(1, b)).await?),
				2 => ("requester update", must("sending", sent.as_ref().unwrap().send_update(1, b)).await?),
				3 => ("responder update", must("sending", received.as_ref().unwrap().send_update(1, b)).await?),
				_ => ("response", must("sending", received.as_ref().unwrap().send_response(1, b)).await?),
			};
			match r {
				Ok(()) => fail!("a {what} that is too large was sent"),
				Err(e) => is(&format!("a {what} that is too large"), e, other(), &Error::payload_too_large(n, write as usize).to_string()),
			}
		},
		// Messages for requests that do not exist.
		4 => {
			let id = IDS[ctx.choose(IDS.len())];
			let kind = 1 + ctx.choose(3) as u32;
			if open && id == 0 && kind != 2 {
				return Ok(());
			}
			w.send(kind, id, 5, b"");
			let e = w.error("a message for an unknown request").await?;
			mentions("a message for an unknown request", e, other(), &[id.to_string()])
		},
		// A request ID that is used already.
		5 => {
			let id = IDS[ctx.choose(IDS.len())];
			let _open = w.request(id, 5).await?;
			w.send(0, id, 6, b"");
			let e = w.error("a duplicate request").await?;
			mentions("a duplicate request", e, other(), &[id.to_string()])
		},
		// An update where a response is expected.
		6 => {
			let Some(mut sent) = sent else { return Ok(()) };
			w.send(3, sent.request_id(), 5, b"");
			w.send(3, sent.request_id(), 6, b"");
			w.send(1, sent.request_id(), 7, b"");
			// Try to receive the response at any time, any number of times.
			for updates in (1..=2).rev() {
				for i in 0..ctx.choose(3) {
					ctx.step();
					match must("receiving the response", sent.recv_response()).await? {
						Ok(m) => fail!("received the response {m:?} instead of an update"),
						Err(e) => {
							let got = class(e)?;
							check!(got == Class { unexpected: true, ..other() }, "an update where a response is expected gives an error that is {got:?} at attempt {}, with {updates} updates", i + 1);
						},
					}
				}
				check!(must("receiving an update", sent.recv_update()).await?.is_some(), "an update is lost");
			}
			check!(must("receiving the response", sent.recv_response()).await?.is_ok(), "the response is lost");
			Ok(())
		},
		// The request is closed.
		7 => {
			let (Some(sent), Some(received)) = (sent, received) else { return Ok(()) };
			send_ok("sending the response", received.send_response(1, data::<N::B>(0, 0))).await?;
			w.send(1, sent.request_id(), 5, b"");
			settle().await;
			let all = [
				must("sending", received.send_response(1, data::<N::B>(0, 0))).await?,
				must("sending", received.send_update(1, data::<N::B>(0, 0))).await?,
				must("sending", received.send_error_response("")).await?,
				must("sending", sent.send_update(1, data::<N::B>(0, 0))).await?,
			];
			for r in all {
				match r {
					Ok(()) => fail!("a message for a closed request was sent"),
					Err(e) => {
						let got = class(e)?;
						check!(got == other(), "sending for a closed request gives an error that is {got:?}");
					},
				}
			}
			Ok(())
		},
		// The remote closes the connection, between messages or in the middle of one.
		8 => {
			if !w.is_datagram() {
				let n = ctx.choose(17);
				let mut data = word(12 + 1, endian).to_vec();
				for x in [4, 1, 2] {
					data.extend(word(x, endian));
				}
				data.push(1);
				if read == 0 && n == 16 {
					return Ok(());
				}
				N::send_raw(&w.remote, &data[..n]);
			}
			let World { mut peer, remote, .. } = w;
			settle().await;
			// TCP resets the connection if something was not read.
			let mut remote = Some(remote);
			if open {
				shutdown::<N>(remote.as_ref().unwrap());
			} else {
				remote = None;
			}
			for _ in 0..3 {
				match must("receiving after the end", peer.recv_message()).await? {
					Ok(m) => fail!("received {m:?} after the end"),
					Err(e) => is("the end of the connection", e, aborted(), &std::io::Error::from(ErrorKind::ConnectionAborted).to_string())?,
				}
			}
			if let Some(sent) = &mut sent {
				check!(must("receiving after the end", sent.recv_update()).await?.is_none(), "received an update after the end");
				match must("receiving after the end", sent.recv_response()).await? {
					Ok(m) => fail!("received {m:?} after the end"),
					Err(e) => is("the end of the connection", e, aborted(), &std::io::Error::from(ErrorKind::ConnectionAborted).to_string())?,
				}
			}
			drop(remote);
			Ok(())
		},
		// The connection is closed locally.
		_ => {
			let (mut read, write) = w.peer.split();
			match ctx.choose(3) {
				0 => read.close(),
				1 => write.close(),
				_ => read.close_handle().close(),
			}
			settle().await;
			let end = std::io::Error::from(ErrorKind::ConnectionAborted).to_string();
			match must("receiving after the end", read.recv_message()).await? {
				Ok(m) => fail!("received {m:?} after the end"),
				Err(e) => is("receiving after the end", e, aborted(), &end)?,
			}
			let mut errors = vec![must("sending", write.send_stream(1, data::<N::B>(0, 0))).await?.err(), must("sending", write.send_request(1, data::<N::B>(0, 0))).await?.err()];
			if let Some(mut sent) = sent {
				errors.push(must("sending", sent.send_update(1, data::<N::B>(0, 0))).await?.err());
				errors.push(must("receiving", sent.recv_response()).await?.err());
			}
			if let Some(received) = received {
				errors.push(must("sending", received.send_update(1, data::<N::B>(0, 0))).await?.err());
				errors.push(must("sending", received.send_response(1, data::<N::B>(0, 0))).await?.err());
			}
			for e in errors {
				match e {
					None => fail!("an operation after the end succeeds"),
					Some(e) => is("an operation after the end", e, aborted(), &end)?,
				}
			}
			Ok(())
		},
	}
}

fn shutdown<N: Net>(socket: &N::Socket) {
	unsafe {
		libc::shutdown(N::fd(socket), libc::SHUT_WR);
	}
}

/// The errors of generated interfaces.
async fn wrapped(ctx: &mut Ctx) -> Res {
	type B = fizyr_rpc::StreamBody;
	let mut w = World::<Stream>::new(Config::new(100, 100, Endian::LittleEndian)).await;
	let id = IDS[ctx.choose(IDS.len())];
	let service = [0, 1, -1, 9, i32::MIN, i32::MAX][ctx.choose(6)];
	let body = [&b""[..], b"body"][ctx.choose(2)];
	let which = ctx.choose(3);
	let inner = || -> Box<dyn std::error::Error + Send> {
		match which {
			0 => Box::new(Inner(None)),
			1 => Box::new(std::io::Error::new(ErrorKind::ConnectionAborted, "inner")),
			_ => Box::new(Error::from(std::io::Error::new(ErrorKind::ConnectionAborted, "inner"))),
		}
	};
	ctx.step();
	ctx.observe(&service.to_le_bytes());
	fn words<E: std::error::Error>(e: &E, name: &str, service: i32, inner: bool) -> Res {
		let shown = e.to_string();
		check!(shown.split(|c: char| !c.is_alphanumeric() && c != '-').any(|x| x == service.to_string()), "the error {shown:?} does not mention the service ID {service}");
		check!(!inner || shown.contains("inner"), "the error {shown:?} does not mention its cause");
		// The output for developers says which error it is and for which message.
		let debug = format!("{e:?}");
		let debug: Vec<_> = debug.split(|c: char| !c.is_alphanumeric() && c != '-').collect();
		check!(debug.contains(&name) && debug.contains(&service.to_string().as_str()), "the error {name} for service ID {service} is shown as {e:?}");
		Ok(())
	}
	let header = MessageHeader::stream(id, service);
	match ctx.choose(6) {
		0 => {
			let mut e = RecvMessageError::<B>::UnknownStream(Message::new(header, B::from(body)));
			words(&e, "UnknownStream", service, false)?;
			check!(!e.is_connection_aborted() && e.request_handle().is_none() && e.request_handle_mut().is_none(), "an unknown stream message is {e:?}");
		},
		1 => {
			let mut e = RecvMessageError::<B>::InvalidStream(header, inner());
			words(&e, "InvalidStream", service, true)?;
			check!(!e.is_connection_aborted() && e.request_handle().is_none() && e.request_handle_mut().is_none(), "an invalid stream message is {e:?}");
		},
		x @ (2 | 3) => {
			let request = w.request(id, service).await?;
			let mut e = if x == 2 { RecvMessageError::UnknownRequest(request, B::from(body)) } else { RecvMessageError::InvalidRequest(request, inner()) };
			words(&e, if x == 2 { "UnknownRequest" } else { "InvalidRequest" }, service, x == 3)?;
			check!(!e.is_connection_aborted(), "a strange request is the end of the connection: {e:?}");
			check!(e.request_handle().is_some_and(|r| r.request_id() == id && r.service_id() == service), "the request of {e:?} is not available");
			// The remote sends an update and gets an answer.
			w.send(2, id, 8, b"u");
			let Some(request) = e.request_handle_mut() else { fail!("the request of {e:?} is not available for changes") };
			let m = must("receiving an update", request.recv_update()).await?;
			check!(m.as_ref().is_some_and(|m| m.header == MessageHeader::requester_update(id, 8)), "received {m:?} instead of an update");
			send_ok("answering", e.request_handle().unwrap().send_error_response("no")).await?;
			check!(must("receiving an update", e.request_handle_mut().unwrap().recv_update()).await?.is_none(), "received an update for an answered request");
		},
		4 => {
			let e = ParseUpdateError::<B>::UnknownUpdate(Message::new(header, B::from(body)));
			words(&e, "UnknownUpdate", service, false)?;
		},
		_ => {
			let e = ParseUpdateError::<B>::InvalidUpdate(header, inner());
			words(&e, "InvalidUpdate", service, true)?;
		},
	}
	let _ = B::empty();
	Ok(())
}

pub fn p28(c: &mut Check) {
	c.run("errors of the operating system", io_errors);
	c.run("errors of each kind", constructed);
	c.run_opts("errors of generated interfaces", opts(), |ctx: &mut Ctx| block_on(wrapped(ctx)));
	fn one<N: Net>(c: &mut Check) {
		c.run_opts(&format!("{}: errors that arise on a connection", N::NAME), opts(), |ctx: &mut Ctx| block_on(arising::<N>(ctx)));
	}
	one::<Stream>(c);
	one::<Seqpacket>(c);
	one::<Tcp>(c);
}
