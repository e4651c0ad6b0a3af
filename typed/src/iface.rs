//! What the generated interfaces look like to the explorer.
use crate::fmt::Ty;
use fizyr_rpc::{Error, Message, ParseUpdateError, PeerHandle, PeerReadHandle, PeerWriteHandle, RecvMessageError, StreamBody};
use std::future::Future;
use std::pin::Pin;

pub type Val = Vec<u8>;
pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub type Update = Option<Result<(usize, Val), ParseUpdateError<StreamBody>>>;

#[derive(Debug)]
pub struct Entry {
	pub name: &'static str,
	pub id: i32,
	pub ty: Ty,
}

#[derive(Debug)]
pub struct ServiceSpec {
	pub name: &'static str,
	pub id: i32,
	pub req: Ty,
	pub resp: Ty,
	/// Updates sent by the requester.
	pub up: &'static [Entry],
	/// Updates sent by the responder.
	pub down: &'static [Entry],
}

#[derive(Debug)]
pub struct Spec {
	pub name: &'static str,
	pub services: &'static [ServiceSpec],
	pub streams: &'static [Entry],
}

/// The message enums of an interface.
#[derive(Debug, Copy, Clone)]
pub enum Kind {
	Stream,
	Up(usize),
	Down(usize),
}

pub trait Iface: Sync {
	fn spec(&self) -> &'static Spec;
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client>;
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client>;
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server>;
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server>;
	/// Decode a message as message enum. An index of `usize::MAX` means that the accessors of the enum contradict each other.
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error>;
	/// Decode a message as message enum and convert it to the given variant.
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error>;
	/// Encode a variant of a message enum.
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String>;
}

pub enum Called {
	Response(Val),
	Handle(Box<dyn Sent>),
}

pub trait Client {
	fn call(&self, service: usize, value: Val) -> Fut<'static, Result<Called, Error>>;
	fn stream(&self, stream: usize, value: Val) -> Fut<'static, Result<(), Error>>;
	fn close(self: Box<Self>);
}

pub trait SentOut {
	fn ids(&self) -> (u32, i32);
	fn send_update(&self, update: usize, value: Val) -> Fut<'_, Result<(), Error>>;
}

pub trait Sent: SentOut {
	fn write(&self) -> Box<dyn SentOut>;
	fn recv_update(&mut self) -> Fut<'_, Update>;
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>>;
}

pub enum Got {
	Request(usize, Box<dyn Received>, Val),
	Stream(usize, Val),
}

pub trait Server {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>>;
}

pub trait ReceivedOut {
	fn ids(&self) -> (u32, i32);
	fn send_update(&self, update: usize, value: Val) -> Fut<'_, Result<(), Error>>;
	fn send_response(&self, value: Val) -> Fut<'_, Result<(), Error>>;
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>>;
}

pub trait Received: ReceivedOut {
	fn write(&self) -> Box<dyn ReceivedOut>;
	fn recv_update(&mut self) -> Fut<'_, Update>;
}
