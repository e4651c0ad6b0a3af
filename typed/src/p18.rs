//! The generated clients and servers against a remote peer that is controlled message by message.
use crate::fmt::{decode, encode, Ty};
use crate::gen::ALL;
use crate::iface::*;
use fizyr_rpc::{Body, Error, Message, MessageHeader, MessageType, ParseUpdateError, Peer, PeerReadHandle, PeerWriteHandle, ReceivedRequestHandle, RecvMessageError, StreamBody};
use mc::exec::{Exec, Slot};
use mc::explore::{Ctx, Options, Res};
use mc::mock::{show, In, Link, MockTransport, Msg};
use mc::report::Check;
use mc::seq::{drive, Got as D};
use mc::{check, fail};
use std::collections::VecDeque;

fn opts() -> Options {
	Options { generated_files: &["gen.rs"], ..Options::default() }
}

/// One peer with a remote that is controlled by the scenario.
struct Side {
	exec: Exec,
	link: Link,
}

impl Side {
	fn new() -> (Side, fizyr_rpc::PeerHandle<StreamBody>) {
		let link = Link::new();
		let (peer, handle) = Peer::<MockTransport>::new(link.transport());
		let mut exec = Exec::new();
		exec.spawn("peer", peer.run());
		(Side { exec, link }, handle)
	}

	fn push(&mut self, ctx: &mut Ctx, m: Msg) -> Res {
		ctx.log(|| format!("remote sends {}", m.short()));
		self.link.push(In::Msg(m));
		self.settle()
	}

	fn settle(&mut self) -> Res {
		check!(self.exec.settle(20_000), "livelock: tasks never come to rest");
		Ok(())
	}

	fn disconnect(&mut self, ctx: &mut Ctx) -> Res {
		ctx.log(|| "remote disconnects".into());
		self.link.push(In::Eof);
		self.settle()
	}

	/// Compare everything that was written with what was expected.
	fn wire(&mut self, want: &[Msg]) -> Res {
		self.settle()?;
		let wire = self.link.wire();
		for (k, m) in wire.iter().enumerate() {
			match want.get(k) {
				None => fail!("the remote receives {}, which nobody sent", m.short()),
				Some(w) => check!(m == w, "the remote receives {}, expected {}", m.short(), w.short()),
			}
		}
		if let Some(w) = want.get(wire.len()) {
			fail!("{} was sent, but the remote never receives it", w.short());
		}
		Ok(())
	}
}

/// A value that is different for every `n`.
fn value(ty: Ty, n: usize) -> Vec<u8> {
	match (ty, n % 3) {
		(Ty::Unit, _) => Vec::new(),
		(_, 0) => vec![n as u8],
		(_, 1) => vec![0, n as u8, 0xee, 0xdd],
		(_, _) => format!("value {n}").into_bytes(),
	}
}

/// Possible bodies on the wire for a type: valid, invalid for the type, valid for another type, empty.
fn wire_body(ty: Ty, class: usize, n: usize) -> Vec<u8> {
	match class {
		0 => encode(ty, &value(ty, n)).unwrap(),
		1 => vec![if ty == Ty::C { 0xc0 } else { 0xb0 }, 0xee, n as u8],
		2 => encode(if ty == Ty::B { Ty::C } else { Ty::B }, &[n as u8, 1]).unwrap(),
		_ => Vec::new(),
	}
}

/// A value that can not be encoded.
const UNENCODABLE: [u8; 2] = [0xdd, 1];

/// The IDs that are used anywhere in an interface, and some that are not but look similar.
fn interesting_ids(spec: &Spec) -> Vec<i32> {
	let mut out = Vec::new();
	let mut add = |x: i32| {
		if !out.contains(&x) {
			out.push(x);
		}
	};
	for s in spec.services {
		add(s.id);
		s.up.iter().chain(s.down).for_each(|u| add(u.id));
	}
	spec.streams.iter().for_each(|u| add(u.id));
	let base = spec.services.first().map(|s| s.id).or(spec.streams.first().map(|u| u.id)).unwrap_or(1);
	for x in [base.wrapping_add(1), base.wrapping_neg(), base ^ 0x100, base ^ 0x10000, base ^ i32::MIN, -1] {
		add(x);
	}
	out
}

fn show_error(e: &Error) -> String {
	format!("error {:?} (aborted={}, unexpected_type={}, remote={:?})", e.to_string(), e.is_connection_aborted(), e.is_unexpected_message_type(), e.as_remote_error())
}

fn same_error(what: &str, got: &Error, want: &Error) -> Res {
	check!(
		got.to_string() == want.to_string() && !got.is_remote_error() && !got.is_connection_aborted() && !got.is_unexpected_message_type(),
		"{what}: {}, expected the error {:?}",
		show_error(got),
		want.to_string()
	);
	Ok(())
}

fn encode_failure(what: &str, ty: Ty, v: &[u8], got: Result<(), Error>) -> Res {
	match got {
		Ok(()) => fail!("{what}: reports success although the body can not be encoded"),
		Err(e) => same_error(what, &e, &Error::encode_failed(Box::new(encode(ty, v).unwrap_err()))),
	}
}

fn decode_failure(what: &str, ty: Ty, body: &[u8], got: &Error) -> Res {
	same_error(what, got, &Error::decode_failed(Box::new(decode(ty, body).unwrap_err())))
}

/// A future that has to complete without any further help.
fn now<T>(side: &mut Side, what: &str, fut: impl std::future::Future<Output = T>) -> Res<T> {
	match drive(&mut side.exec, fut)? {
		D::Ready(x) => Ok(x),
		D::Pending => fail!("{what} does not complete"),
	}
}

fn pick_iface(ctx: &mut Ctx) -> &'static dyn Iface {
	let i = ALL[ctx.choose(ALL.len())];
	ctx.log(|| format!("interface {}", i.spec().name));
	i
}

fn pick_service(ctx: &mut Ctx) -> (&'static dyn Iface, usize) {
	let all: Vec<(&'static dyn Iface, usize)> = ALL.iter().flat_map(|i| (0..i.spec().services.len()).map(move |k| (*i, k))).collect();
	let (i, k) = all[ctx.choose(all.len())];
	ctx.log(|| format!("interface {}, service {}", i.spec().name, i.spec().services[k].name));
	(i, k)
}

struct ServerSide {
	side: Side,
	server: Box<dyn Server>,
	_write: Option<PeerWriteHandle<StreamBody>>,
}

fn server(ctx: &mut Ctx, i: &dyn Iface, keep_write: bool) -> ServerSide {
	let (side, handle) = Side::new();
	ctx.log(|| format!("server, write handle kept: {keep_write}"));
	let (server, write) = if keep_write {
		let (r, w) = handle.split();
		(i.server(r), Some(w))
	} else {
		(i.server_from(handle), None)
	};
	ServerSide { side, server, _write: write }
}

struct ClientSide {
	side: Side,
	client: Option<Box<dyn Client>>,
	_read: Option<PeerReadHandle<StreamBody>>,
}

fn client(ctx: &mut Ctx, i: &dyn Iface, keep_read: bool) -> ClientSide {
	let (side, handle) = Side::new();
	ctx.log(|| format!("client, read handle kept: {keep_read}"));
	let (client, read) = if keep_read {
		let (r, w) = handle.split();
		(i.client(w), Some(r))
	} else {
		(i.client_from(handle), None)
	};
	ClientSide { side, client: Some(client), _read: read }
}

/// A received request, typed or as reported with an error.
enum Handle {
	Typed(usize, Box<dyn Received>),
	Raw(ReceivedRequestHandle<StreamBody>),
}

/// Receive one message with the server and compare it with what the remote sent.
fn server_recv(ctx: &mut Ctx, s: &mut ServerSide, spec: &Spec, sent: &Msg) -> Res<Option<Handle>> {
	let what = format!("the server receives {}", sent.short());
	let got = {
		let fut = s.server.recv();
		match drive(&mut s.side.exec, fut)? {
			D::Ready(x) => x,
			D::Pending => fail!("{what}: nothing is reported"),
		}
	};
	let sid = sent.header.service_id;
	match got {
		Ok(Got::Request(k, h, v)) => {
			ctx.log(|| format!("request for service {} with value {}", spec.services.get(k).map_or("?", |s| s.name), show(&v)));
			check!(sent.header.message_type == MessageType::Request, "{what}: it is reported as a request");
			let service = &spec.services[k];
			check!(service.id == sid, "{what}: it is reported as a request for {} (ID {})", service.name, service.id);
			check!(decode(service.req, &sent.body).is_ok_and(|x| x == v), "{what}: the value is {}", show(&v));
			check!(h.ids() == (sent.header.request_id, sid), "{what}: the handle has request and service ID {:?}", h.ids());
			Ok(Some(Handle::Typed(k, h)))
		},
		Ok(Got::Stream(k, v)) => {
			ctx.log(|| format!("stream {k} with value {}", show(&v)));
			check!(sent.header.message_type == MessageType::Stream, "{what}: it is reported as a stream message");
			let Some(stream) = spec.streams.get(k) else { fail!("{what}: the accessors of the message enum contradict each other") };
			check!(stream.id == sid, "{what}: it is reported as stream {} (ID {})", stream.name, stream.id);
			check!(decode(stream.ty, &sent.body).is_ok_and(|x| x == v), "{what}: the value is {}", show(&v));
			Ok(None)
		},
		Err(mut e) => {
			ctx.log(|| format!("{e:?}"));
			let is_request = sent.header.message_type == MessageType::Request;
			let service = spec.services.iter().find(|s| is_request && s.id == sid);
			let stream = spec.streams.iter().find(|s| !is_request && s.id == sid);
			check!(!e.is_connection_aborted(), "{what}: a lost connection is reported");
			let id = sent.header.request_id;
			let has = e.request_handle().map(|h| (h.request_id(), h.service_id()));
			let has_mut = e.request_handle_mut().map(|h| (h.request_id(), h.service_id()));
			check!(has == is_request.then_some((id, sid)) && has_mut == has, "{what}: the error has the request handle {has:?} and {has_mut:?}");
			let _ = (e.to_string(), format!("{e:?}"));
			match e {
				RecvMessageError::Other(e) => fail!("{what}: {}", show_error(&e)),
				RecvMessageError::UnknownRequest(h, body) => {
					check!(is_request && service.is_none(), "{what}: it is reported as an unknown request");
					check!(body.data == sent.body, "{what}: the body of the unknown request is {}", show(&body.data));
					Ok(Some(Handle::Raw(h)))
				},
				RecvMessageError::InvalidRequest(h, e) => {
					let Some(service) = service else { fail!("{what}: it is reported as an invalid request") };
					match decode(service.req, &sent.body) {
						Ok(_) => fail!("{what}: it is reported as an invalid request"),
						Err(want) => check!(e.to_string() == want.to_string(), "{what}: the decoding error is {e:?}, expected {want:?}"),
					}
					Ok(Some(Handle::Raw(h)))
				},
				RecvMessageError::UnknownStream(m) => {
					check!(!is_request && stream.is_none(), "{what}: it is reported as an unknown stream message");
					check!(Msg::of(&m) == *sent, "{what}: the message in the error is {}", Msg::of(&m).short());
					Ok(None)
				},
				RecvMessageError::InvalidStream(header, e) => {
					let Some(stream) = stream else { fail!("{what}: it is reported as an invalid stream message") };
					check!(header == sent.header, "{what}: the header in the error is {header:?}");
					match decode(stream.ty, &sent.body) {
						Ok(_) => fail!("{what}: it is reported as an invalid stream message"),
						Err(want) => check!(e.to_string() == want.to_string(), "{what}: the decoding error is {e:?}, expected {want:?}"),
					}
					Ok(None)
				},
			}
		},
	}
}

/// Answer a request in one of several ways.
fn answer(ctx: &mut Ctx, s: &mut ServerSide, spec: &Spec, h: Handle, way: usize, n: usize, want: &mut Vec<Msg>) -> Res {
	let side = &mut s.side;
	match h {
		Handle::Raw(h) => {
			let (id, sid) = (h.request_id(), h.service_id());
			match way {
				0 => {
					ctx.log(|| format!("error response for request {id}"));
					let r = now(side, "sending an error response", h.send_error_response("no such thing"))?;
					check!(r.is_ok(), "an unknown or invalid request can not be answered with an error: {r:?}");
					want.push(Msg::new(MessageHeader::error_response(id), *b"no such thing"));
				},
				1 | 2 => {
					ctx.log(|| format!("response for request {id}"));
					let r = now(side, "sending a response", h.send_response(sid, vec![n as u8]))?;
					check!(r.is_ok(), "an unknown or invalid request can not be answered: {r:?}");
					want.push(Msg::new(MessageHeader::response(id, sid), vec![n as u8]));
				},
				3 => {
					let w = h.write_handle();
					drop(h);
					let r = now(side, "sending an error response", w.send_error_response(""))?;
					check!(r.is_ok(), "an unknown or invalid request can not be answered with an error: {r:?}");
					want.push(Msg::new(MessageHeader::error_response(id), *b""));
				},
				_ => drop(h),
			}
		},
		Handle::Typed(k, h) => {
			let service = &spec.services[k];
			let (id, sid) = h.ids();
			let v = value(service.resp, n);
			match way {
				0 => {
					ctx.log(|| format!("response {} for request {id}", show(&v)));
					let r = now(side, "sending a response", h.send_response(v.clone()))?;
					check!(r.is_ok(), "a request can not be answered: {r:?}");
					want.push(Msg::new(MessageHeader::response(id, sid), encode(service.resp, &v).unwrap()));
				},
				1 => {
					if service.resp != Ty::Unit {
						ctx.log(|| format!("response that can not be encoded for request {id}"));
						let r = now(side, "sending a response", h.send_response(UNENCODABLE.into()))?;
						encode_failure("sending a response that can not be encoded", service.resp, &UNENCODABLE, r)?;
					}
					ctx.log(|| format!("error response for request {id}"));
					let r = now(side, "sending an error response", h.send_error("it's \u{e4} failure"))?;
					check!(r.is_ok(), "a request can not be answered with an error (after a response that could not be encoded): {r:?}");
					want.push(Msg::new(MessageHeader::error_response(id), "it's \u{e4} failure".as_bytes()));
				},
				2 => {
					let w = h.write();
					check!(w.ids() == (id, sid), "the write handle has request and service ID {:?}, the handle {:?}", w.ids(), (id, sid));
					drop(h);
					if service.resp != Ty::Unit {
						let r = now(side, "sending a response", w.send_response(UNENCODABLE.into()))?;
						encode_failure("sending a response that can not be encoded through the write handle", service.resp, &UNENCODABLE, r)?;
					}
					ctx.log(|| format!("response {} for request {id} through the write handle", show(&v)));
					let r = now(side, "sending a response through the write handle", w.send_response(v.clone()))?;
					check!(r.is_ok(), "a request can not be answered through the write handle: {r:?}");
					want.push(Msg::new(MessageHeader::response(id, sid), encode(service.resp, &v).unwrap()));
				},
				3 => {
					let w = h.write();
					let r = now(side, "sending an error response through the write handle", w.send_error(""))?;
					check!(r.is_ok(), "a request can not be answered with an error through the write handle: {r:?}");
					want.push(Msg::new(MessageHeader::error_response(id), *b""));
				},
				_ => drop(h),
			}
		},
	}
	Ok(())
}

/// Everything a remote can send to a server, in every order.
fn server_messages(ctx: &mut Ctx, length: usize, full: bool) -> Res {
	let i = pick_iface(ctx);
	let spec = i.spec();
	let keep_write = full && ctx.choose(2) == 1;
	let mut s = server(ctx, i, keep_write);
	let all_first = full && ctx.choose(2) == 1;
	let way = if full { ctx.choose(5) } else { 0 };
	let ids = interesting_ids(spec);
	let mut sent = Vec::new();
	let mut handles = Vec::new();
	for n in 0..length {
		let is_request = ctx.choose(2) == 0;
		let sid = ids[ctx.choose(ids.len())];
		let ty = match is_request {
			true => spec.services.iter().find(|s| s.id == sid).map(|s| s.req),
			false => spec.streams.iter().find(|s| s.id == sid).map(|s| s.ty),
		};
		let classes: &[usize] = if ty.is_some() { &[0, 1, 2, 3] } else { &[0, 1, 3] };
		let class = classes[ctx.choose(classes.len())];
		let body = wire_body(ty.unwrap_or(Ty::B), class, n + 1);
		let header = match is_request {
			true => MessageHeader::request([5, u32::MAX, 0][n % 3], sid),
			false => MessageHeader::stream([0, u32::MAX, 5][n % 3], sid),
		};
		let m = Msg::new(header, body);
		s.side.push(ctx, m.clone())?;
		if all_first {
			sent.push(m);
		} else {
			handles.extend(server_recv(ctx, &mut s, spec, &m)?);
		}
	}
	for m in sent {
		handles.extend(server_recv(ctx, &mut s, spec, &m)?);
	}
	let mut want = Vec::new();
	for (n, h) in handles.into_iter().enumerate() {
		answer(ctx, &mut s, spec, h, (way + n) % 5, n, &mut want)?;
	}
	s.side.wire(&want)?;
	for m in &want {
		ctx.observe(m.short().as_bytes());
	}
	s.side.disconnect(ctx)?;
	let got = drive(&mut s.side.exec, s.server.recv())?;
	match got {
		D::Ready(Err(e)) => check!(e.is_connection_aborted() && e.request_handle().is_none(), "after a disconnect the server reports {e:?}"),
		D::Ready(Ok(_)) => fail!("a message that nobody sent is received"),
		D::Pending => fail!("the server does not report a disconnect"),
	}
	Ok(())
}

/// An update or response with its type, if it is declared.
fn declared<'a>(list: &'a [Entry], sid: i32) -> Option<(usize, &'a Entry)> {
	list.iter().enumerate().find(|(_, u)| u.id == sid)
}

fn check_update(ctx: &mut Ctx, what: &str, list: &[Entry], got: D<Update>, want: Option<Msg>, wait: bool) -> Res {
	match (got, want) {
		(D::Pending, None) => {
			ctx.log(|| format!("{what}: pending, cancelled"));
			check!(wait, "{what}: does not complete although no update can arrive any more");
		},
		(D::Pending, Some(m)) => fail!("{what}: nothing is reported although {} has arrived", m.short()),
		(D::Ready(None), None) => {
			ctx.log(|| format!("{what}: none"));
			check!(!wait, "{what}: the end of the updates is reported while updates can still arrive");
		},
		(D::Ready(None), Some(m)) => fail!("{what}: the end of the updates is reported, expected {}", m.short()),
		(D::Ready(Some(x)), None) => fail!("{what}: {x:?} is reported, but no update was sent"),
		(D::Ready(Some(Ok((k, v)))), Some(m)) => {
			ctx.log(|| format!("{what}: update {k} with value {}", show(&v)));
			let Some(u) = list.get(k) else { fail!("{what}: {}: the accessors of the update enum contradict each other", m.short()) };
			check!(u.id == m.header.service_id, "{what}: {} is reported as {} (ID {})", m.short(), u.name, u.id);
			check!(decode(u.ty, &m.body).is_ok_and(|x| x == v), "{what}: {} is reported with the value {}", m.short(), show(&v));
		},
		(D::Ready(Some(Err(e))), Some(m)) => {
			ctx.log(|| format!("{what}: {e:?}"));
			let _ = e.to_string();
			match (e, declared(list, m.header.service_id)) {
				(ParseUpdateError::UnknownUpdate(x), None) => check!(Msg::of(&x) == m, "{what}: the message in the error is {}, expected {}", Msg::of(&x).short(), m.short()),
				(ParseUpdateError::UnknownUpdate(_), Some(_)) => fail!("{what}: {} is reported as an unknown update", m.short()),
				(ParseUpdateError::InvalidUpdate(header, e), Some((_, u))) => {
					check!(header == m.header, "{what}: the header in the error is {header:?}, expected {:?}", m.header);
					match decode(u.ty, &m.body) {
						Ok(_) => fail!("{what}: {} is reported as an invalid update", m.short()),
						Err(want) => check!(e.to_string() == want.to_string(), "{what}: the decoding error is {e:?}, expected {want:?}"),
					}
				},
				(ParseUpdateError::InvalidUpdate(..), None) => fail!("{what}: {} is reported as an invalid update", m.short()),
			}
		},
	}
	Ok(())
}

/// IDs for updates: declared in either direction, of the service, and undeclared.
fn update_ids(service: &ServiceSpec) -> Vec<i32> {
	let mut out: Vec<i32> = Vec::new();
	for x in service.up.iter().chain(service.down).map(|u| u.id).chain([service.id, service.id.wrapping_add(1), -1]) {
		if !out.contains(&x) {
			out.push(x);
		}
	}
	out
}

/// Classes of bodies for updates.
fn update_classes(declared: bool) -> &'static [usize] {
	match declared {
		true => &[0, 1, 2, 3],
		false => &[0, 3],
	}
}

/// A received request with updates in both directions.
fn server_updates(ctx: &mut Ctx, depth: usize) -> Res {
	let (i, k) = pick_service(ctx);
	let spec = i.spec();
	let service = &spec.services[k];
	let through_write = ctx.choose(2) == 1;
	let mut s = server(ctx, i, false);
	let id = 77;
	let request = Msg::new(MessageHeader::request(id, service.id), encode(service.req, &value(service.req, 1)).unwrap());
	s.side.push(ctx, request.clone())?;
	let Some(Handle::Typed(_, mut h)) = server_recv(ctx, &mut s, spec, &request)? else { fail!("a valid request is not reported as such") };
	let w = h.write();
	let ids = update_ids(service);
	let mut queue: VecDeque<Msg> = VecDeque::new();
	let mut want = Vec::new();
	let (mut open, mut running) = (true, true);
	for n in 0..depth {
		#[derive(Debug, Copy, Clone)]
		enum Op {
			In(i32, usize),
			Recv,
			Send(usize, bool),
			Respond(bool),
			Error,
			Disconnect,
		}
		let mut ops = Vec::new();
		if open && running {
			for &sid in &ids {
				for &class in update_classes(declared(service.up, sid).is_some()) {
					ops.push(Op::In(sid, class));
				}
			}
			ops.push(Op::Disconnect);
		}
		if !service.up.is_empty() {
			ops.push(Op::Recv);
		}
		for (j, u) in service.down.iter().enumerate() {
			ops.push(Op::Send(j, true));
			if u.ty != Ty::Unit {
				ops.push(Op::Send(j, false));
			}
		}
		ops.push(Op::Respond(true));
		if service.resp != Ty::Unit {
			ops.push(Op::Respond(false));
		}
		ops.push(Op::Error);
		let op = ops[ctx.choose(ops.len())];
		ctx.step();
		ctx.log(|| format!("> {op:?}"));
		let out: &dyn ReceivedOut = if through_write { &*w } else { as_out(&*h) };
		let can = open && running;
		match op {
			Op::In(sid, class) => {
				let ty = declared(service.up, sid).map_or(Ty::B, |(_, u)| u.ty);
				let m = Msg::new(MessageHeader::requester_update(id, sid), wire_body(ty, class, n + 1));
				queue.push_back(m.clone());
				s.side.push(ctx, m)?;
			},
			Op::Disconnect => {
				running = false;
				s.side.disconnect(ctx)?;
			},
			Op::Recv => {
				let m = queue.pop_front();
				let wait = m.is_none() && can;
				let got = drive(&mut s.side.exec, h.recv_update())?;
				check_update(ctx, "receiving a request update", service.up, got, m, wait)?;
			},
			Op::Send(j, ok) => {
				let u = &service.down[j];
				let v = if ok { value(u.ty, n) } else { UNENCODABLE.into() };
				let r = now(&mut s.side, "sending a response update", out.send_update(j, v.clone()))?;
				sent(&format!("sending the response update {} with value {}", u.name, show(&v)), u.ty, &v, r, can, MessageHeader::responder_update(id, u.id), &mut want)?;
			},
			Op::Respond(ok) => {
				let v = if ok { value(service.resp, n) } else { UNENCODABLE.into() };
				let r = now(&mut s.side, "sending a response", out.send_response(v.clone()))?;
				sent(&format!("sending the response {}", show(&v)), service.resp, &v, r, can, MessageHeader::response(id, service.id), &mut want)?;
				if ok {
					open = false;
				}
			},
			Op::Error => {
				let r = now(&mut s.side, "sending an error response", out.send_error("oh no"))?;
				check!(r.is_ok() == can, "sending an error response: {r:?}, possible: {can}");
				if can {
					want.push(Msg::new(MessageHeader::error_response(id), *b"oh no"));
				}
				open = false;
			},
		}
		s.side.wire(&want)?;
	}
	for m in &want {
		ctx.observe(m.short().as_bytes());
	}
	// Whatever arrived is still there.
	while !service.up.is_empty() {
		let m = queue.pop_front();
		let last = m.is_none();
		let wait = last && open && running;
		let got = drive(&mut s.side.exec, h.recv_update())?;
		check_update(ctx, "receiving a request update", service.up, got, m, wait)?;
		if last {
			break;
		}
	}
	Ok(())
}

fn as_out(h: &dyn Received) -> &dyn ReceivedOut {
	h
}

/// Compare the result of a send with what has to happen.
fn sent(what: &str, ty: Ty, v: &[u8], r: Result<(), Error>, can: bool, header: MessageHeader, want: &mut Vec<Msg>) -> Res {
	match encode(ty, v) {
		// If both is wrong, either error is fine.
		Err(_) if !can => check!(r.is_err(), "{what}: reports success although nothing can be sent"),
		Err(_) => encode_failure(what, ty, v, r)?,
		Ok(body) => {
			match &r {
				Ok(()) => check!(can, "{what}: reports success although nothing can be sent any more"),
				Err(e) => check!(!can, "{what}: {}", show_error(e)),
			}
			if can {
				want.push(Msg::new(header, body));
			}
		},
	}
	Ok(())
}

/// A response as it arrives.
#[derive(Debug, Copy, Clone)]
enum Resp {
	/// Body class.
	Body(usize),
	Error(&'static [u8]),
}

const RESPONSES: [Resp; 9] = [
	Resp::Body(0),
	Resp::Body(1),
	Resp::Body(2),
	Resp::Body(3),
	Resp::Error(b"went wrong"),
	Resp::Error(b""),
	Resp::Error("\u{2764}\0x".as_bytes()),
	Resp::Error(b"not \xff text"),
	Resp::Error(&[0xb0, 0x31]),
];

fn response(service: &ServiceSpec, id: u32, r: Resp) -> Msg {
	match r {
		Resp::Body(class) => Msg::new(MessageHeader::response(id, service.id), wire_body(service.resp, class, 9)),
		Resp::Error(text) => Msg::new(MessageHeader::error_response(id), text),
	}
}

/// Compare a response as reported by the client with what the remote sent.
fn check_response(what: &str, service: &ServiceSpec, m: &Msg, got: Result<Val, Error>) -> Res {
	if m.header.service_id == fizyr_rpc::service_id::ERROR {
		let e = match got {
			Ok(v) => fail!("{what}: the error response {} is reported as the value {}", m.short(), show(&v)),
			Err(e) => e,
		};
		match String::from_utf8(m.body.clone()) {
			Ok(text) => {
				check!(e.is_remote_error() && e.as_remote_error() == Some(&text), "{what}: {} for the error response {}", show_error(&e), m.short());
				check!(!e.is_connection_aborted() && !e.is_unexpected_message_type(), "{what}: {} for the error response {}", show_error(&e), m.short());
				check!(e.into_remote_error().as_ref() == Some(&text), "{what}: the text of the error is lost");
			},
			Err(_) => match StreamBody::from(m.body.clone()).into_error() {
				Ok(text) => fail!("{what}: {:?} is accepted as text: {text:?}", m.body),
				Err(inner) => same_error(what, &e, &Error::decode_failed(Box::new(inner)))?,
			},
		}
	} else {
		match (got, decode(service.resp, &m.body)) {
			(Ok(v), Ok(w)) => check!(v == w, "{what}: the value is {}, expected {}", show(&v), show(&w)),
			(Ok(v), Err(_)) => fail!("{what}: the value is {} although {} can not be decoded", show(&v), m.short()),
			(Err(e), Ok(_)) => fail!("{what}: {} for {}", show_error(&e), m.short()),
			(Err(e), Err(_)) => decode_failure(what, service.resp, &m.body, &e)?,
		}
	}
	Ok(())
}

/// Start a call. Its first message is checked.
fn call(ctx: &mut Ctx, c: &mut ClientSide, service: &ServiceSpec, k: usize, v: &[u8], want: &mut Vec<Msg>) -> Res<(u32, usize, Slot<Result<Called, Error>>)> {
	ctx.log(|| format!("call {} with value {}", service.name, show(v)));
	let fut = c.client.as_ref().unwrap().call(k, v.to_vec());
	let before = c.side.link.wire().len();
	let (task, slot) = c.side.exec.spawn_with("call", fut);
	c.side.settle()?;
	let wire = c.side.link.wire();
	check!(wire.len() == before + 1, "a call sends {} messages", wire.len() - before);
	let id = wire[before].header.request_id;
	want.push(Msg::new(MessageHeader::request(id, service.id), encode(service.req, v).unwrap()));
	c.side.wire(want)?;
	Ok((id, task, slot))
}

/// Calls of a service without updates, several at the same time, answered in every order.
fn client_calls(ctx: &mut Ctx, calls: usize) -> Res {
	let simple: Vec<&'static dyn Iface> = ALL.iter().copied().filter(|i| i.spec().services.iter().any(|s| s.up.is_empty() && s.down.is_empty())).collect();
	let i = simple[ctx.choose(simple.len())];
	let spec = i.spec();
	ctx.log(|| format!("interface {}", spec.name));
	let keep_read = ctx.choose(2) == 1;
	let mut c = client(ctx, i, keep_read);
	let mut want = Vec::new();
	let mut open = Vec::new();
	let services: Vec<usize> = (0..spec.services.len()).filter(|&k| spec.services[k].up.is_empty() && spec.services[k].down.is_empty()).collect();
	for n in 0..calls {
		let k = services[ctx.choose(services.len())];
		let service = &spec.services[k];
		if service.req != Ty::Unit && ctx.choose(2) == 1 {
			ctx.log(|| format!("call {} with a value that can not be encoded", service.name));
			let r = now(&mut c.side, "a call with a value that can not be encoded", c.client.as_ref().unwrap().call(k, UNENCODABLE.into()))?;
			encode_failure("a call with a value that can not be encoded", service.req, &UNENCODABLE, r.map(|_| ()))?;
			c.side.wire(&want)?;
		}
		let (id, task, slot) = call(ctx, &mut c, service, k, &value(service.req, n), &mut want)?;
		check!(!slot.is_set(), "a call completes before it is answered");
		check!(open.iter().all(|x: &(u32, usize, usize, _)| x.0 != id), "two calls have the same request ID");
		open.push((id, k, task, slot));
	}
	let drop_client = ctx.choose(2) == 1;
	if drop_client {
		ctx.log(|| "the client is dropped".into());
		c.client = None;
	}
	while !open.is_empty() {
		let (id, k, task, slot) = open.remove(ctx.choose(open.len()));
		let service = &spec.services[k];
		let r = ctx.choose(RESPONSES.len() + 2);
		ctx.step();
		if r == RESPONSES.len() {
			c.side.disconnect(ctx)?;
			open.push((id, k, task, slot));
			for (_, k, _, slot) in open {
				match slot.take() {
					None => fail!("the call of {} never completes after a disconnect", spec.services[k].name),
					Some(Ok(_)) => fail!("the call of {} succeeds without a response", spec.services[k].name),
					Some(Err(e)) => check!(e.is_connection_aborted() && !e.is_remote_error(), "the call of {}: {} after a disconnect", spec.services[k].name, show_error(&e)),
				}
			}
			return Ok(());
		}
		if r > RESPONSES.len() {
			ctx.log(|| format!("the call with request ID {id} is cancelled, the response arrives nevertheless"));
			c.side.exec.cancel(task);
			c.side.settle()?;
			c.side.push(ctx, response(service, id, RESPONSES[0]))?;
			for (_, k, _, slot) in &open {
				check!(!slot.is_set(), "the call of {} completes when another call is cancelled", spec.services[*k].name);
			}
			continue;
		}
		let m = response(service, id, RESPONSES[r]);
		ctx.observe(m.short().as_bytes());
		// Updates and streams that do not concern the call must not disturb it. Without a read handle nobody sees the others.
		if ctx.choose(2) == 1 {
			c.side.push(ctx, Msg::new(MessageHeader::stream(id, service.id), wire_body(service.resp, 0, 3)))?;
			c.side.push(ctx, Msg::new(MessageHeader::response(id.wrapping_add(100), service.id), wire_body(service.resp, 0, 4)))?;
			check!(!slot.is_set(), "a call is completed by a message that is not its response");
		}
		c.side.push(ctx, m.clone())?;
		let what = format!("the call of {}", service.name);
		let got = match slot.take() {
			None => fail!("{what} does not complete when {} arrives", m.short()),
			Some(Ok(Called::Handle(_))) => unreachable!(),
			Some(Ok(Called::Response(v))) => Ok(v),
			Some(Err(e)) => Err(e),
		};
		ctx.log(|| format!("{what}: {:?}", got.as_ref().map(|v| show(v)).map_err(show_error)));
		check_response(&what, service, &m, got)?;
		for (_, k, _, slot) in &open {
			check!(!slot.is_set(), "the call of {} completes with the response to another call", spec.services[*k].name);
		}
	}
	c.side.wire(&want)
}

/// A sent request with updates in both directions.
fn client_updates(ctx: &mut Ctx, depth: usize) -> Res {
	let all: Vec<(&'static dyn Iface, usize)> =
		ALL.iter().flat_map(|i| i.spec().services.iter().enumerate().filter(|(_, s)| !s.up.is_empty() || !s.down.is_empty()).map(move |(k, _)| (*i, k))).collect();
	let (i, k) = all[ctx.choose(all.len())];
	let spec = i.spec();
	let service = &spec.services[k];
	ctx.log(|| format!("interface {}, service {}", spec.name, service.name));
	let through_write = ctx.choose(2) == 1;
	let mut c = client(ctx, i, false);
	let mut want = Vec::new();
	let v = value(service.req, 2);
	let (id, _, slot) = call(ctx, &mut c, service, k, &v, &mut want)?;
	let mut h = match slot.take() {
		Some(Ok(Called::Handle(h))) => h,
		Some(Err(e)) => fail!("the call fails: {}", show_error(&e)),
		_ => fail!("the call does not complete although the request was sent"),
	};
	check!(h.ids() == (id, service.id), "the handle of the sent request has request and service ID {:?}, expected {:?}", h.ids(), (id, service.id));
	let w = h.write();
	check!(w.ids() == (id, service.id), "the write handle of the sent request has request and service ID {:?}, expected {:?}", w.ids(), (id, service.id));
	let ids = update_ids(service);
	let mut queue: VecDeque<Msg> = VecDeque::new();
	let (mut open, mut running) = (true, true);
	for n in 0..depth {
		#[derive(Debug, Copy, Clone)]
		enum Op {
			In(i32, usize),
			InResponse(usize),
			RecvUpdate,
			RecvResponse,
			Send(usize, bool),
			Disconnect,
		}
		let mut ops = Vec::new();
		if open && running {
			for &sid in &ids {
				for &class in update_classes(declared(service.down, sid).is_some()) {
					ops.push(Op::In(sid, class));
				}
			}
			for r in 0..RESPONSES.len() {
				ops.push(Op::InResponse(r));
			}
			ops.push(Op::Disconnect);
		}
		if !service.down.is_empty() {
			ops.push(Op::RecvUpdate);
		}
		ops.push(Op::RecvResponse);
		for (j, u) in service.up.iter().enumerate() {
			ops.push(Op::Send(j, true));
			if u.ty != Ty::Unit {
				ops.push(Op::Send(j, false));
			}
		}
		let op = ops[ctx.choose(ops.len())];
		ctx.step();
		ctx.log(|| format!("> {op:?}"));
		match op {
			Op::In(sid, class) => {
				let ty = declared(service.down, sid).map_or(Ty::B, |(_, u)| u.ty);
				let m = Msg::new(MessageHeader::responder_update(id, sid), wire_body(ty, class, n + 1));
				queue.push_back(m.clone());
				c.side.push(ctx, m)?;
			},
			Op::InResponse(r) => {
				let m = response(service, id, RESPONSES[r]);
				ctx.observe(m.short().as_bytes());
				queue.push_back(m.clone());
				open = false;
				c.side.push(ctx, m)?;
			},
			Op::Disconnect => {
				running = false;
				c.side.disconnect(ctx)?;
			},
			Op::RecvUpdate => recv_update(ctx, &mut c, service, &mut h, &mut queue, open && running)?,
			Op::RecvResponse => recv_response(ctx, &mut c, service, &mut h, &mut queue, open, running)?,
			Op::Send(j, ok) => {
				let u = &service.up[j];
				let out: &dyn SentOut = if through_write { &*w } else { as_sent_out(&*h) };
				let v = if ok { value(u.ty, n) } else { UNENCODABLE.into() };
				let r = now(&mut c.side, "sending a request update", out.send_update(j, v.clone()))?;
				sent(&format!("sending the request update {} with value {}", u.name, show(&v)), u.ty, &v, r, open && running, MessageHeader::requester_update(id, u.id), &mut want)?;
			},
		}
		c.side.wire(&want)?;
	}
	// Whatever arrived is still there.
	loop {
		let n = queue.len();
		if !service.down.is_empty() {
			recv_update(ctx, &mut c, service, &mut h, &mut queue, open && running)?;
		} else {
			queue.retain(|m| m.header.message_type == MessageType::Response || !service.down.is_empty());
			if n != queue.len() {
				// Updates that were not declared block the response, and the interface offers no way to receive them.
				return Ok(());
			}
		}
		recv_response(ctx, &mut c, service, &mut h, &mut queue, open, running)?;
		if n == queue.len() {
			break;
		}
	}
	c.side.wire(&want)
}

fn as_sent_out(h: &dyn Sent) -> &dyn SentOut {
	h
}

fn recv_update(ctx: &mut Ctx, c: &mut ClientSide, service: &ServiceSpec, h: &mut Box<dyn Sent>, queue: &mut VecDeque<Msg>, can: bool) -> Res {
	let m = match queue.front() {
		Some(m) if m.header.message_type == MessageType::ResponderUpdate => queue.pop_front(),
		_ => None,
	};
	let wait = m.is_none() && queue.is_empty() && can;
	let got = drive(&mut c.side.exec, h.recv_update())?;
	check_update(ctx, "receiving a response update", service.down, got, m, wait)
}

fn recv_response(ctx: &mut Ctx, c: &mut ClientSide, service: &ServiceSpec, h: &mut Box<dyn Sent>, queue: &mut VecDeque<Msg>, open: bool, running: bool) -> Res {
	let what = "receiving the response";
	let got = drive(&mut c.side.exec, h.recv_response())?;
	match (got, queue.front()) {
		(D::Pending, None) => {
			ctx.log(|| "pending, cancelled".into());
			check!(open && running, "{what}: does not complete although no response can arrive any more");
		},
		(D::Pending, Some(m)) => fail!("{what}: nothing is reported although {} has arrived", m.short()),
		(D::Ready(got), Some(m)) if m.header.message_type == MessageType::Response => {
			ctx.log(|| format!("{what}: {:?}", got.as_ref().map(|v| show(v)).map_err(show_error)));
			check_response(what, service, m, got)?;
			queue.pop_front();
		},
		(D::Ready(Ok(v)), m) => fail!("{what}: the value {} is reported, the next message is {:?}", show(&v), m.map(|m| m.short())),
		(D::Ready(Err(e)), Some(m)) => {
			ctx.log(|| format!("{what}: {}", show_error(&e)));
			check!(e.is_unexpected_message_type(), "{what}: {} while the update {} is waiting", show_error(&e), m.short());
		},
		(D::Ready(Err(e)), None) => {
			ctx.log(|| format!("{what}: {}", show_error(&e)));
			check!(!(open && running), "{what}: {} while the response can still arrive", show_error(&e));
			check!(!e.is_unexpected_message_type() && !e.is_remote_error(), "{what}: {} although there is no message", show_error(&e));
		},
	}
	Ok(())
}

/// Stream messages of the client, and the message enums.
fn streams_and_enums(ctx: &mut Ctx) -> Res {
	let i = pick_iface(ctx);
	let spec = i.spec();
	let mut lists: Vec<(Kind, &[Entry], MessageType)> = Vec::new();
	if !spec.streams.is_empty() {
		lists.push((Kind::Stream, spec.streams, MessageType::Stream));
	}
	for (k, s) in spec.services.iter().enumerate() {
		if !s.up.is_empty() {
			lists.push((Kind::Up(k), s.up, MessageType::RequesterUpdate));
		}
		if !s.down.is_empty() {
			lists.push((Kind::Down(k), s.down, MessageType::ResponderUpdate));
		}
	}
	if lists.is_empty() {
		return Ok(());
	}
	match ctx.choose(3) {
		0 => {
			let (kind, list, message_type) = lists[ctx.choose(lists.len())];
			let ids = interesting_ids(spec);
			let sid = ids[ctx.choose(ids.len())];
			let target = declared(list, sid);
			let class = update_classes(target.is_some())[ctx.choose(update_classes(target.is_some()).len())];
			let body = wire_body(target.map_or(Ty::B, |x| x.1.ty), class, 5);
			let header = MessageHeader { message_type, request_id: 3, service_id: sid };
			let make = || Message::new(header, StreamBody::from(body.clone()));
			let what = format!("decoding {} as {kind:?}", Msg::new(header, body.clone()).short());
			ctx.log(|| what.clone());
			let expect = |j: Option<usize>, got: Result<(usize, Val), Error>| -> Res {
				match (got, target) {
					(Ok((x, v)), Some((k, u))) => {
						check!(x == k && decode(u.ty, &body).is_ok_and(|w| w == v), "{what} (as {j:?}): got variant {x} with value {}", show(&v));
					},
					(Ok((x, v)), None) => fail!("{what} (as {j:?}): got variant {x} with value {}", show(&v)),
					(Err(e), None) => same_error(&what, &e, &Error::unexpected_service_id(sid))?,
					(Err(e), Some((k, u))) => match decode(u.ty, &body) {
						Err(_) => decode_failure(&what, u.ty, &body, &e)?,
						Ok(_) if j.is_some_and(|j| j != k) => same_error(&what, &e, &Error::unexpected_service_id(sid))?,
						Ok(_) => fail!("{what} (as {j:?}): {}", show_error(&e)),
					},
				}
				Ok(())
			};
			expect(None, i.decode(kind, make()))?;
			for j in 0..list.len() {
				expect(Some(j), i.decode_into(kind, make(), j).map(|v| (j, v)))?;
			}
		},
		1 => {
			let (kind, list, _) = lists[ctx.choose(lists.len())];
			let j = ctx.choose(list.len());
			let v = if ctx.choose(2) == 1 { UNENCODABLE.to_vec() } else { value(list[j].ty, 6) };
			let what = format!("encoding {} with value {}", list[j].name, show(&v));
			ctx.log(|| what.clone());
			match (i.encode(kind, j, &v), encode(list[j].ty, &v)) {
				(Ok((sid, body)), Ok(want)) => check!(sid == list[j].id && body == want, "{what}: got service ID {sid} and body {}", show(&body)),
				(Err(e), Err(want)) => check!(e == want.to_string(), "{what}: got the error {e}"),
				(Ok(x), Err(_)) => fail!("{what}: got {x:?}"),
				(Err(e), Ok(_)) => fail!("{what}: got the error {e}"),
			}
		},
		_ => {
			if spec.streams.is_empty() {
				return Ok(());
			}
			let keep_read = ctx.choose(2) == 1;
			let mut c = client(ctx, i, keep_read);
			let mut want: Vec<Msg> = Vec::new();
			for n in 0..3 {
				let j = ctx.choose(spec.streams.len());
				let u = &spec.streams[j];
				let v = if ctx.choose(2) == 1 { UNENCODABLE.to_vec() } else { value(u.ty, n) };
				ctx.log(|| format!("send stream {} with value {}", u.name, show(&v)));
				let r = now(&mut c.side, "sending a stream message", c.client.as_ref().unwrap().stream(j, v.clone()))?;
				c.side.settle()?;
				// The request ID of stream messages is not specified.
				let id = c.side.link.wire().get(want.len()).map_or(0, |m| m.header.request_id);
				sent(&format!("sending the stream message {}", u.name), u.ty, &v, r, true, MessageHeader::stream(id, u.id), &mut want)?;
				c.side.wire(&want)?;
			}
			c.client.take().unwrap().close();
			c.side.settle()?;
			check!(c.side.link.dropped(), "the connection is not closed when the client closes it");
		},
	}
	Ok(())
}

/// A generated client and a generated server talking to each other.
fn both_sides(ctx: &mut Ctx, depth: usize) -> Res {
	let i = pick_iface(ctx);
	let spec = i.spec();
	let (a, b) = Link::pair(None);
	let mut exec = Exec::new();
	let (peer, handle) = Peer::<MockTransport>::new(a.transport());
	exec.spawn("client", peer.run());
	let client = i.client_from(handle);
	let (peer, handle) = Peer::<MockTransport>::new(b.transport());
	exec.spawn("server", peer.run());
	let mut server = i.server_from(handle);

	struct Open {
		service: usize,
		/// Of a service without updates.
		slot: Option<Slot<Result<Called, Error>>>,
		sent: Option<Box<dyn Sent>>,
		received: Option<Box<dyn Received>>,
		up: VecDeque<(usize, Val)>,
		down: VecDeque<(usize, Val)>,
		response: Option<Result<Val, &'static str>>,
		answered: bool,
	}
	/// Messages on the way to the server.
	enum Way {
		Stream(usize, Val),
		Request(usize, Val),
	}
	let mut open: Vec<Open> = Vec::new();
	let mut way: VecDeque<Way> = VecDeque::new();
	#[derive(Debug, Copy, Clone)]
	enum Op {
		Call(usize),
		Stream(usize),
		Recv,
		Up(usize, usize),
		Down(usize, usize),
		RecvUp(usize),
		RecvDown(usize),
		Respond(usize),
		Error(usize),
		Response(usize),
	}
	for n in 0..depth {
		let mut ops = Vec::new();
		if open.len() < 2 {
			ops.extend((0..spec.services.len()).map(Op::Call));
		}
		ops.extend((0..spec.streams.len()).map(Op::Stream));
		if !way.is_empty() {
			ops.push(Op::Recv);
		}
		for (x, o) in open.iter().enumerate() {
			let s = &spec.services[o.service];
			if o.sent.is_some() && !o.answered {
				ops.extend((0..s.up.len()).map(|j| Op::Up(x, j)));
			}
			if o.received.is_some() && !o.answered {
				ops.extend((0..s.down.len()).map(|j| Op::Down(x, j)));
				ops.extend([Op::Respond(x), Op::Error(x)]);
			}
			if o.received.is_some() && !o.up.is_empty() {
				ops.push(Op::RecvUp(x));
			}
			if o.sent.is_some() && !o.down.is_empty() {
				ops.push(Op::RecvDown(x));
			}
			if o.response.is_some() && o.down.is_empty() {
				ops.push(Op::Response(x));
			}
		}
		if ops.is_empty() {
			break;
		}
		let op = ops[ctx.choose(ops.len())];
		ctx.step();
		ctx.log(|| format!("> {op:?}"));
		macro_rules! now {
			($fut:expr) => {
				match drive(&mut exec, $fut)? {
					D::Ready(x) => x,
					D::Pending => fail!("{op:?} does not complete"),
				}
			};
		}
		match op {
			Op::Call(k) => {
				let s = &spec.services[k];
				let v = value(s.req, n);
				let (_, slot) = exec.spawn_with("call", client.call(k, v.clone()));
				check!(exec.settle(20_000), "livelock: tasks never come to rest");
				way.push_back(Way::Request(k, v));
				let mut o = Open { service: k, slot: None, sent: None, received: None, up: VecDeque::new(), down: VecDeque::new(), response: None, answered: false };
				if s.up.is_empty() && s.down.is_empty() {
					check!(!slot.is_set(), "a call completes before it is answered");
					o.slot = Some(slot);
				} else {
					match slot.take() {
						Some(Ok(Called::Handle(h))) => o.sent = Some(h),
						_ => fail!("a call with updates does not give a handle"),
					}
				}
				open.push(o);
			},
			Op::Stream(k) => {
				let v = value(spec.streams[k].ty, n);
				let r = now!(client.stream(k, v.clone()));
				check!(r.is_ok(), "sending a stream message: {r:?}");
				way.push_back(Way::Stream(k, v));
			},
			Op::Recv => match (now!(server.recv()), way.pop_front().unwrap()) {
				(Err(e), _) => fail!("the server reports {e:?} for a message of the client"),
				(Ok(Got::Stream(k, v)), Way::Stream(j, w)) => check!((k, &v) == (j, &w), "stream {j} with value {} arrives as stream {k} with value {}", show(&w), show(&v)),
				(Ok(Got::Request(k, h, v)), Way::Request(j, w)) => {
					check!((k, &v) == (j, &w), "a call of service {j} with value {} arrives as service {k} with value {}", show(&w), show(&v));
					let o = open.iter_mut().find(|o| o.received.is_none() && !o.answered).unwrap();
					o.received = Some(h);
				},
				_ => fail!("a stream message arrives as a call or a call as a stream message"),
			},
			Op::Up(x, j) => {
				let o = &mut open[x];
				let v = value(spec.services[o.service].up[j].ty, n);
				let r = now!(o.sent.as_ref().unwrap().send_update(j, v.clone()));
				check!(r.is_ok(), "sending a request update: {r:?}");
				o.up.push_back((j, v));
			},
			Op::Down(x, j) => {
				let o = &mut open[x];
				let v = value(spec.services[o.service].down[j].ty, n);
				let r = now!(o.received.as_ref().unwrap().send_update(j, v.clone()));
				check!(r.is_ok(), "sending a response update: {r:?}");
				o.down.push_back((j, v));
			},
			Op::RecvUp(x) => {
				let o = &mut open[x];
				let want = o.up.pop_front().unwrap();
				match now!(o.received.as_mut().unwrap().recv_update()) {
					Some(Ok(got)) => check!(got == want, "the request update {want:?} arrives as {got:?}"),
					other => fail!("the request update {want:?} arrives as {other:?}"),
				}
			},
			Op::RecvDown(x) => {
				let o = &mut open[x];
				let want = o.down.pop_front().unwrap();
				match now!(o.sent.as_mut().unwrap().recv_update()) {
					Some(Ok(got)) => check!(got == want, "the response update {want:?} arrives as {got:?}"),
					other => fail!("the response update {want:?} arrives as {other:?}"),
				}
			},
			Op::Respond(x) | Op::Error(x) => {
				let o = &mut open[x];
				let v = value(spec.services[o.service].resp, n);
				let (r, response) = match op {
					Op::Error(_) => (now!(o.received.as_ref().unwrap().send_error("no")), Err("no")),
					_ => (now!(o.received.as_ref().unwrap().send_response(v.clone())), Ok(v)),
				};
				check!(r.is_ok(), "sending a response: {r:?}");
				o.response = Some(response);
				o.answered = true;
			},
			Op::Response(x) => {
				let o = &mut open[x];
				let want = o.response.take().unwrap();
				let got = match (&mut o.sent, &o.slot) {
					(Some(h), _) => now!(h.recv_response()),
					(None, Some(slot)) => match slot.take() {
						Some(Ok(Called::Response(v))) => Ok(v),
						Some(Err(e)) => Err(e),
						_ => fail!("a call does not complete although it was answered"),
					},
					_ => unreachable!(),
				};
				match (got, want) {
					(Ok(v), Ok(w)) => check!(v == w, "the response {} arrives as {}", show(&w), show(&v)),
					(Err(e), Err(text)) => check!(e.as_remote_error() == Some(text), "the error response {text:?} arrives as {}", show_error(&e)),
					(Ok(v), Err(text)) => fail!("the error response {text:?} arrives as the value {}", show(&v)),
					(Err(e), Ok(w)) => fail!("the response {} arrives as {}", show(&w), show_error(&e)),
				}
			},
		}
		check!(exec.settle(20_000), "livelock: tasks never come to rest");
	}
	ctx.observe(&[a.wire().len() as u8, b.wire().len() as u8]);
	Ok(())
}

pub fn p18(c: &mut Check) {
	c.assumptions.push("Generated interfaces of typed/src/gen.rs: every combination of zero to two updates in both directions, and further ones with shared, extreme and similar IDs.".into());
	c.run_opts("pairs of messages to a generated server", opts(), |ctx| server_messages(ctx, 2, true));
	if c.thorough() {
		c.run_opts("triples of messages to a generated server", opts(), |ctx| server_messages(ctx, 3, false));
	}
	let depth = c.bound(4, 5);
	c.run_opts("updates of a received request", opts(), move |ctx| server_updates(ctx, depth));
	c.run_opts("updates of a sent request", opts(), move |ctx| client_updates(ctx, depth));
	let calls = c.bound(2, 3);
	c.run_opts("calls without updates", opts(), move |ctx| client_calls(ctx, calls));
	c.run_opts("stream messages and message enums", opts(), streams_and_enums);
	let depth = c.bound(6, 8);
	c.run_opts("generated client and generated server", opts(), move |ctx| both_sides(ctx, depth));
}
