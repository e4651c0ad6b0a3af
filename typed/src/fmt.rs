//! A format with bodies that can fail to encode and to decode.
use fizyr_rpc::format::{DecodeBody, EncodeBody, Format};
use fizyr_rpc::StreamBody;

pub struct Fmt;

/// Bodies with a first byte of 0xDD can not be encoded, bodies with a first byte of 0xEE can not be decoded.
#[derive(Debug, Clone, PartialEq)]
pub struct B(pub Vec<u8>);

/// The same with another representation.
#[derive(Debug, Clone, PartialEq)]
pub struct C(pub Vec<u8>);

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Ty {
	B,
	C,
	Unit,
}

#[derive(Debug)]
pub struct Bad(pub String);
impl std::fmt::Display for Bad {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str(&self.0)
	}
}
impl std::error::Error for Bad {}

/// The body on the wire, or the reason why there is none.
pub fn encode(ty: Ty, value: &[u8]) -> Result<Vec<u8>, Bad> {
	let first = match ty {
		Ty::B => 0xb0,
		Ty::C => 0xc0,
		Ty::Unit => return Ok(Vec::new()),
	};
	if value.first() == Some(&0xdd) {
		return Err(Bad(format!("{ty:?} can not be encoded: {value:?}")));
	}
	let mut out = vec![first];
	out.extend_from_slice(value);
	Ok(out)
}

/// The value of a body, or the reason why there is none.
pub fn decode(ty: Ty, body: &[u8]) -> Result<Vec<u8>, Bad> {
	let first = match ty {
		Ty::B => 0xb0,
		Ty::C => 0xc0,
		Ty::Unit if body.is_empty() => return Ok(Vec::new()),
		Ty::Unit => return Err(Bad(format!("a unit can not be decoded: {body:?}"))),
	};
	if body.first() != Some(&first) || body.get(1) == Some(&0xee) {
		return Err(Bad(format!("{ty:?} can not be decoded: {body:?}")));
	}
	Ok(body[1..].to_vec())
}

pub trait Value: Sized {
	const TY: Ty;
	fn make(value: &[u8]) -> Self;
	fn get(&self) -> Vec<u8>;
}

impl Value for B {
	const TY: Ty = Ty::B;
	fn make(value: &[u8]) -> Self {
		B(value.to_vec())
	}
	fn get(&self) -> Vec<u8> {
		self.0.clone()
	}
}

impl Value for C {
	const TY: Ty = Ty::C;
	fn make(value: &[u8]) -> Self {
		C(value.to_vec())
	}
	fn get(&self) -> Vec<u8> {
		self.0.clone()
	}
}

impl Value for () {
	const TY: Ty = Ty::Unit;
	fn make(_: &[u8]) -> Self {}
	fn get(&self) -> Vec<u8> {
		Vec::new()
	}
}

impl Format for Fmt {
	type Body = StreamBody;
}

impl<T: Value> EncodeBody<T> for Fmt {
	fn encode_body(value: &T) -> Result<StreamBody, Box<dyn std::error::Error + Send>> {
		encode(T::TY, &value.get()).map(StreamBody::from).map_err(|e| Box::new(e) as _)
	}
}

impl<T: Value> DecodeBody<T> for Fmt {
	fn decode_body(body: StreamBody) -> Result<T, Box<dyn std::error::Error + Send>> {
		decode(T::TY, &body.data).map(|v| T::make(&v)).map_err(|e| Box::new(e) as _)
	}
}
