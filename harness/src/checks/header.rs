//! The header format, for every value of every field.

use crate::checks::bytes::ENDIANS;
use fizyr_rpc::transport::Endian;
use fizyr_rpc::{MessageHeader, MessageType};
use mc::explore::{Ctx, Res};
use mc::report::Check;
use mc::{check, fail};

const TYPES: [(MessageType, u32); 5] = [
	(MessageType::Request, 0),
	(MessageType::Response, 1),
	(MessageType::RequesterUpdate, 2),
	(MessageType::ResponderUpdate, 3),
	(MessageType::Stream, 4),
];

fn bytes(x: u32, endian: Endian) -> [u8; 4] {
	let le = match endian {
		Endian::LittleEndian => true,
		Endian::BigEndian => false,
		Endian::NativeEndian => cfg!(target_endian = "little"),
	};
	let b = [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8];
	if le {
		b
	} else {
		[b[3], b[2], b[1], b[0]]
	}
}

fn expected(kind: u32, id: u32, service: i32, endian: Endian) -> [u8; 12] {
	let mut out = [0; 12];
	out[0..4].copy_from_slice(&bytes(kind, endian));
	out[4..8].copy_from_slice(&bytes(id, endian));
	out[8..12].copy_from_slice(&bytes(service as u32, endian));
	out
}

fn round_trip(t: usize, id: u32, service: i32, endian: Endian) -> Res {
	let (message_type, kind) = TYPES[t];
	let header = MessageHeader { message_type, request_id: id, service_id: service };
	let mut buffer = [0xaa; 15];
	header.encode(&mut buffer, endian);
	let want = expected(kind, id, service, endian);
	check!(buffer[..12] == want, "{header:?} is encoded as {:?} instead of {want:?} ({endian:?})", &buffer[..12]);
	check!(buffer[12..] == [0xaa; 3], "encoding writes beyond the header");
	let mut exact = [0; 12];
	header.encode(&mut exact, endian);
	check!(exact == want, "{header:?} is encoded differently in a buffer of exactly the right size");
	for b in [&want[..], &buffer[..]] {
		match MessageHeader::decode(b, endian) {
			Ok(x) => check!(x == header, "{want:?} is decoded as {x:?} instead of {header:?} ({endian:?})"),
			Err(e) => fail!("{want:?} is not decoded: {e}"),
		}
	}
	Ok(())
}

/// Is this value interesting for every position of a field?
fn corners() -> Vec<u32> {
	let mut out = Vec::new();
	for i in 0..32 {
		for j in 0..=i {
			out.extend([1u32 << i | 1 << j, !(1u32 << i | 1 << j), (1u32 << i) - (1 << j)]);
		}
	}
	out.extend([0, u32::MAX, 0x01020304, 0x80818283, 0xfffefdfc]);
	out.sort();
	out.dedup();
	out
}

/// All combinations of values in which at most two bits are set or cleared.
fn combinations(ctx: &mut Ctx, corners: &[u32]) -> Res {
	let endian = ENDIANS[ctx.choose(3)];
	let t = ctx.choose(5);
	let part = ctx.choose(32);
	for (i, &id) in corners.iter().enumerate() {
		if i % 32 == part {
			for &service in corners {
				ctx.step();
				round_trip(t, id, service as i32, endian)?;
			}
		}
	}
	Ok(())
}

/// All values of a field, `1 / stride` of them in the quick tier (stride is odd, so all bits change).
fn every_value(ctx: &mut Ctx, field: usize, stride: u64) -> Res {
	let endian = ENDIANS[ctx.choose(3)];
	const PARTS: u64 = 64;
	let part = ctx.choose(PARTS as usize) as u64;
	let size = (1u64 << 32) / PARTS;
	let mut x = part * size;
	while x < (part + 1) * size {
		ctx.step();
		let v = x as u32;
		match field {
			0 => {
				let mut b = expected(v, 0x01020304, -2, endian);
				match (MessageHeader::decode(&b, endian), TYPES.get(v as usize)) {
					(Ok(h), Some((t, _))) => check!(h == (MessageHeader { message_type: *t, request_id: 0x01020304, service_id: -2 }), "type {v} is decoded as {h:?}"),
					(Err(_), None) => (),
					(Ok(h), None) => fail!("unknown type {v} is decoded as {h:?}"),
					(Err(e), Some(_)) => fail!("type {v} is not decoded: {e}"),
				}
				match (MessageType::from_u32(v), TYPES.get(v as usize)) {
					(Ok(t), Some((want, _))) => check!(t == *want, "type {v} is taken for {t:?}"),
					(Err(_), None) => (),
					(r, _) => fail!("type {v} is taken for {r:?}"),
				}
				b[0] = 0;
			},
			1 => round_trip((v % 5) as usize, v, 7, endian)?,
			_ => round_trip((v % 5) as usize, 7, v as i32, endian)?,
		}
		x += stride;
	}
	Ok(())
}

/// Buffers that are too small panic instead of giving a wrong header.
fn constructors(ctx: &mut Ctx) -> Res {
	let c = [0, 1, 7, 0x7fffffff, 0x80000000, u32::MAX];
	let (id, service) = (c[ctx.choose(6)], c[ctx.choose(6)] as i32);
	let h = |message_type| MessageHeader { message_type, request_id: id, service_id: service };
	check!(MessageHeader::request(id, service) == h(MessageType::Request), "request header");
	check!(MessageHeader::response(id, service) == h(MessageType::Response), "response header");
	check!(MessageHeader::requester_update(id, service) == h(MessageType::RequesterUpdate), "requester update header");
	check!(MessageHeader::responder_update(id, service) == h(MessageType::ResponderUpdate), "responder update header");
	check!(MessageHeader::stream(id, service) == h(MessageType::Stream), "stream header");
	check!(MessageHeader::error_response(id) == (MessageHeader { message_type: MessageType::Response, request_id: id, service_id: -1 }), "error response header");
	for (t, kind) in TYPES {
		check!(t as u32 == kind, "{t:?} has the value {}", t as u32);
		let is = [t.is_request(), t.is_response(), t.is_requester_update(), t.is_responder_update(), t.is_stream()];
		check!((0..5).all(|i| is[i] == (i == kind as usize)), "{t:?} is classified as {is:?}");
	}
	Ok(())
}

pub fn p06(c: &mut Check) {
	let corners = corners();
	c.run("combinations of values", |ctx| combinations(ctx, &corners));
	c.run("constructors", constructors);
	// The type field is the one with values that must be rejected.
	c.run("every message type", |ctx| every_value(ctx, 0, 1));
	let stride = c.bound(1009, 1);
	c.run("every request ID", |ctx| every_value(ctx, 1, stride));
	c.run("every service ID", |ctx| every_value(ctx, 2, stride));
	crate::checks::bytes::p06(c);
}
