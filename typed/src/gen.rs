// Written by tools/gen_typed.py.
use crate::fmt::{Fmt, Ty, Value, B, C};
use crate::iface::*;
use fizyr_rpc::format::Format as _;
use fizyr_rpc::{Error, Message, PeerHandle, PeerReadHandle, PeerWriteHandle, RecvMessageError, StreamBody};

pub mod i0 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I0 {
			service 7 alpha: B -> B,
		}
	}
}
static SPEC_0: Spec = Spec {
	name: "I0",
	services: &[
		ServiceSpec { name: "alpha", id: 7, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
	],
	streams: &[],
};
struct Iface0;
impl Iface for Iface0 {
	fn spec(&self) -> &'static Spec {
		&SPEC_0
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client0(i0::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client0(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server0(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server0(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client0(i0::Client<Fmt>);
impl Client for Client0 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.alpha(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server0(i0::Server<Fmt>);
impl Server for Server0 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i0::ReceivedMessage::Request(i0::ReceivedRequestHandle::Alpha(h, b)) => Got::Request(0, Box::new(Received0_0(h)), b.get()),
			})
		})
	}
}
struct Received0_0(i0::alpha::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received0_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW0_0(i0::alpha::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW0_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received0_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW0_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i1 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I1 {
			service -3 alpha: () -> B {
				response_update -3 stop_it: C,
			},
			stream 21 tick: B,
		}
	}
}
static SPEC_1: Spec = Spec {
	name: "I1",
	services: &[
		ServiceSpec { name: "alpha", id: -3, req: Ty::Unit, resp: Ty::B, up: &[], down: &[Entry { name: "stop_it", id: -3, ty: Ty::C }] },
	],
	streams: &[Entry { name: "tick", id: 21, ty: Ty::B }],
};
fn open_stream_1(e: i1::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i1::StreamMessage::Tick(v) => (0, v.get()),
	};
	if e.is_tick() != (index == 0) || e.as_tick().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_tick().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_1_0(e: i1::alpha::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i1::alpha::ResponseUpdate::StopIt(v) => (0, v.get()),
	};
	if e.is_stop_it() != (index == 0) || e.as_stop_it().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_stop_it().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface1;
impl Iface for Iface1 {
	fn spec(&self) -> &'static Spec {
		&SPEC_1
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client1(i1::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client1(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server1(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server1(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i1::StreamMessage>(message).map(open_stream_1),
			Kind::Down(0) => Fmt::decode_message::<i1::alpha::ResponseUpdate>(message).map(open_down_1_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i1::StreamMessage>(message)?.into_tick().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i1::alpha::ResponseUpdate>(message)?.into_stop_it().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i1::StreamMessage::Tick(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i1::alpha::ResponseUpdate::StopIt(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client1(i1::Client<Fmt>);
impl Client for Client1 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.alpha().await.map(|r| Called::Handle(Box::new(Sent1_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_tick(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server1(i1::Server<Fmt>);
impl Server for Server1 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i1::ReceivedMessage::Request(i1::ReceivedRequestHandle::Alpha(h, b)) => Got::Request(0, Box::new(Received1_0(h)), b.get()),
				i1::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_1(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Sent1_0(i1::alpha::SentRequestHandle<Fmt>);
impl SentOut for Sent1_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
}
struct SentW1_0(i1::alpha::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW1_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent1_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW1_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_1_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received1_0(i1::alpha::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received1_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&C::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW1_0(i1::alpha::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW1_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&C::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received1_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW1_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i2 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I2 {
			service 300 alpha: B -> () {
				response_update 300 stop_it: B,
				response_update 21 go: B,
			},
			stream 21 tick: B,
			stream 300 tock: (),
		}
	}
}
static SPEC_2: Spec = Spec {
	name: "I2",
	services: &[
		ServiceSpec { name: "alpha", id: 300, req: Ty::B, resp: Ty::Unit, up: &[], down: &[Entry { name: "stop_it", id: 300, ty: Ty::B }, Entry { name: "go", id: 21, ty: Ty::B }] },
	],
	streams: &[Entry { name: "tick", id: 21, ty: Ty::B }, Entry { name: "tock", id: 300, ty: Ty::Unit }],
};
fn open_stream_2(e: i2::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i2::StreamMessage::Tick(v) => (0, v.get()),
		i2::StreamMessage::Tock(v) => (1, v.get()),
	};
	if e.is_tick() != (index == 0) || e.as_tick().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_tock() != (index == 1) || e.as_tock().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_tick().ok().map(|v| v.get()),
		1 => e.into_tock().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_2_0(e: i2::alpha::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i2::alpha::ResponseUpdate::StopIt(v) => (0, v.get()),
		i2::alpha::ResponseUpdate::Go(v) => (1, v.get()),
	};
	if e.is_stop_it() != (index == 0) || e.as_stop_it().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_go() != (index == 1) || e.as_go().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_stop_it().ok().map(|v| v.get()),
		1 => e.into_go().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface2;
impl Iface for Iface2 {
	fn spec(&self) -> &'static Spec {
		&SPEC_2
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client2(i2::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client2(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server2(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server2(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i2::StreamMessage>(message).map(open_stream_2),
			Kind::Down(0) => Fmt::decode_message::<i2::alpha::ResponseUpdate>(message).map(open_down_2_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i2::StreamMessage>(message)?.into_tick().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i2::StreamMessage>(message)?.into_tock().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i2::alpha::ResponseUpdate>(message)?.into_stop_it().map(|v| v.get()),
			(Kind::Down(0), 1) => Fmt::decode_message::<i2::alpha::ResponseUpdate>(message)?.into_go().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i2::StreamMessage::Tick(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i2::StreamMessage::Tock(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i2::alpha::ResponseUpdate::StopIt(Value::make(value))),
			(Kind::Down(0), 1) => Fmt::encode_message(&i2::alpha::ResponseUpdate::Go(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client2(i2::Client<Fmt>);
impl Client for Client2 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.alpha(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent2_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_tick(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_tock().await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server2(i2::Server<Fmt>);
impl Server for Server2 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i2::ReceivedMessage::Request(i2::ReceivedRequestHandle::Alpha(h, b)) => Got::Request(0, Box::new(Received2_0(h)), b.get()),
				i2::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_2(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Sent2_0(i2::alpha::SentRequestHandle<Fmt>);
impl SentOut for Sent2_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
}
struct SentW2_0(i2::alpha::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW2_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent2_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW2_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_2_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received2_0(i2::alpha::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received2_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW2_0(i2::alpha::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW2_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received2_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW2_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i3 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I3 {
			service 7 alpha: C -> B {
				request_update 7 go: B,
			},
		}
	}
}
static SPEC_3: Spec = Spec {
	name: "I3",
	services: &[
		ServiceSpec { name: "alpha", id: 7, req: Ty::C, resp: Ty::B, up: &[Entry { name: "go", id: 7, ty: Ty::B }], down: &[] },
	],
	streams: &[],
};
fn open_up_3_0(e: i3::alpha::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i3::alpha::RequestUpdate::Go(v) => (0, v.get()),
	};
	if e.is_go() != (index == 0) || e.as_go().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_go().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface3;
impl Iface for Iface3 {
	fn spec(&self) -> &'static Spec {
		&SPEC_3
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client3(i3::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client3(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server3(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server3(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Up(0) => Fmt::decode_message::<i3::alpha::RequestUpdate>(message).map(open_up_3_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Up(0), 0) => Fmt::decode_message::<i3::alpha::RequestUpdate>(message)?.into_go().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Up(0), 0) => Fmt::encode_message(&i3::alpha::RequestUpdate::Go(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client3(i3::Client<Fmt>);
impl Client for Client3 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.alpha(&C::make(&v)).await.map(|r| Called::Handle(Box::new(Sent3_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server3(i3::Server<Fmt>);
impl Server for Server3 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i3::ReceivedMessage::Request(i3::ReceivedRequestHandle::Alpha(h, b)) => Got::Request(0, Box::new(Received3_0(h)), b.get()),
			})
		})
	}
}
struct Sent3_0(i3::alpha::SentRequestHandle<Fmt>);
impl SentOut for Sent3_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW3_0(i3::alpha::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW3_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent3_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW3_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received3_0(i3::alpha::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received3_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW3_0(i3::alpha::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW3_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received3_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW3_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_3_0)) })
	}
}

pub mod i4 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I4 {
			service -3 alpha: B -> B {
				request_update -3 go: B,
				response_update -3 stop_it: B,
			},
			stream 21 tick: B,
		}
	}
}
static SPEC_4: Spec = Spec {
	name: "I4",
	services: &[
		ServiceSpec { name: "alpha", id: -3, req: Ty::B, resp: Ty::B, up: &[Entry { name: "go", id: -3, ty: Ty::B }], down: &[Entry { name: "stop_it", id: -3, ty: Ty::B }] },
	],
	streams: &[Entry { name: "tick", id: 21, ty: Ty::B }],
};
fn open_stream_4(e: i4::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i4::StreamMessage::Tick(v) => (0, v.get()),
	};
	if e.is_tick() != (index == 0) || e.as_tick().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_tick().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_4_0(e: i4::alpha::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i4::alpha::RequestUpdate::Go(v) => (0, v.get()),
	};
	if e.is_go() != (index == 0) || e.as_go().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_go().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_4_0(e: i4::alpha::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i4::alpha::ResponseUpdate::StopIt(v) => (0, v.get()),
	};
	if e.is_stop_it() != (index == 0) || e.as_stop_it().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_stop_it().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface4;
impl Iface for Iface4 {
	fn spec(&self) -> &'static Spec {
		&SPEC_4
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client4(i4::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client4(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server4(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server4(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i4::StreamMessage>(message).map(open_stream_4),
			Kind::Up(0) => Fmt::decode_message::<i4::alpha::RequestUpdate>(message).map(open_up_4_0),
			Kind::Down(0) => Fmt::decode_message::<i4::alpha::ResponseUpdate>(message).map(open_down_4_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i4::StreamMessage>(message)?.into_tick().map(|v| v.get()),
			(Kind::Up(0), 0) => Fmt::decode_message::<i4::alpha::RequestUpdate>(message)?.into_go().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i4::alpha::ResponseUpdate>(message)?.into_stop_it().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i4::StreamMessage::Tick(Value::make(value))),
			(Kind::Up(0), 0) => Fmt::encode_message(&i4::alpha::RequestUpdate::Go(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i4::alpha::ResponseUpdate::StopIt(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client4(i4::Client<Fmt>);
impl Client for Client4 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.alpha(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent4_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_tick(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server4(i4::Server<Fmt>);
impl Server for Server4 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i4::ReceivedMessage::Request(i4::ReceivedRequestHandle::Alpha(h, b)) => Got::Request(0, Box::new(Received4_0(h)), b.get()),
				i4::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_4(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Sent4_0(i4::alpha::SentRequestHandle<Fmt>);
impl SentOut for Sent4_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW4_0(i4::alpha::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW4_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent4_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW4_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_4_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received4_0(i4::alpha::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received4_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW4_0(i4::alpha::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW4_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received4_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW4_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_4_0)) })
	}
}

pub mod i5 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I5 {
			service 300 alpha: () -> () {
				request_update 300 go: B,
				response_update 300 stop_it: C,
				response_update 21 go: B,
			},
			stream 21 tick: B,
			stream 300 tock: B,
		}
	}
}
static SPEC_5: Spec = Spec {
	name: "I5",
	services: &[
		ServiceSpec { name: "alpha", id: 300, req: Ty::Unit, resp: Ty::Unit, up: &[Entry { name: "go", id: 300, ty: Ty::B }], down: &[Entry { name: "stop_it", id: 300, ty: Ty::C }, Entry { name: "go", id: 21, ty: Ty::B }] },
	],
	streams: &[Entry { name: "tick", id: 21, ty: Ty::B }, Entry { name: "tock", id: 300, ty: Ty::B }],
};
fn open_stream_5(e: i5::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i5::StreamMessage::Tick(v) => (0, v.get()),
		i5::StreamMessage::Tock(v) => (1, v.get()),
	};
	if e.is_tick() != (index == 0) || e.as_tick().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_tock() != (index == 1) || e.as_tock().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_tick().ok().map(|v| v.get()),
		1 => e.into_tock().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_5_0(e: i5::alpha::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i5::alpha::RequestUpdate::Go(v) => (0, v.get()),
	};
	if e.is_go() != (index == 0) || e.as_go().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_go().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_5_0(e: i5::alpha::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i5::alpha::ResponseUpdate::StopIt(v) => (0, v.get()),
		i5::alpha::ResponseUpdate::Go(v) => (1, v.get()),
	};
	if e.is_stop_it() != (index == 0) || e.as_stop_it().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_go() != (index == 1) || e.as_go().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_stop_it().ok().map(|v| v.get()),
		1 => e.into_go().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface5;
impl Iface for Iface5 {
	fn spec(&self) -> &'static Spec {
		&SPEC_5
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client5(i5::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client5(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server5(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server5(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i5::StreamMessage>(message).map(open_stream_5),
			Kind::Up(0) => Fmt::decode_message::<i5::alpha::RequestUpdate>(message).map(open_up_5_0),
			Kind::Down(0) => Fmt::decode_message::<i5::alpha::ResponseUpdate>(message).map(open_down_5_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i5::StreamMessage>(message)?.into_tick().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i5::StreamMessage>(message)?.into_tock().map(|v| v.get()),
			(Kind::Up(0), 0) => Fmt::decode_message::<i5::alpha::RequestUpdate>(message)?.into_go().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i5::alpha::ResponseUpdate>(message)?.into_stop_it().map(|v| v.get()),
			(Kind::Down(0), 1) => Fmt::decode_message::<i5::alpha::ResponseUpdate>(message)?.into_go().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i5::StreamMessage::Tick(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i5::StreamMessage::Tock(Value::make(value))),
			(Kind::Up(0), 0) => Fmt::encode_message(&i5::alpha::RequestUpdate::Go(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i5::alpha::ResponseUpdate::StopIt(Value::make(value))),
			(Kind::Down(0), 1) => Fmt::encode_message(&i5::alpha::ResponseUpdate::Go(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client5(i5::Client<Fmt>);
impl Client for Client5 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.alpha().await.map(|r| Called::Handle(Box::new(Sent5_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_tick(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_tock(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server5(i5::Server<Fmt>);
impl Server for Server5 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i5::ReceivedMessage::Request(i5::ReceivedRequestHandle::Alpha(h, b)) => Got::Request(0, Box::new(Received5_0(h)), b.get()),
				i5::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_5(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Sent5_0(i5::alpha::SentRequestHandle<Fmt>);
impl SentOut for Sent5_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW5_0(i5::alpha::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW5_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent5_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW5_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_5_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received5_0(i5::alpha::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received5_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&C::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW5_0(i5::alpha::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW5_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&C::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received5_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW5_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_5_0)) })
	}
}

pub mod i6 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I6 {
			service 7 alpha: B -> B {
				request_update 7 go: B,
				request_update 21 stop_it: B,
			},
		}
	}
}
static SPEC_6: Spec = Spec {
	name: "I6",
	services: &[
		ServiceSpec { name: "alpha", id: 7, req: Ty::B, resp: Ty::B, up: &[Entry { name: "go", id: 7, ty: Ty::B }, Entry { name: "stop_it", id: 21, ty: Ty::B }], down: &[] },
	],
	streams: &[],
};
fn open_up_6_0(e: i6::alpha::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i6::alpha::RequestUpdate::Go(v) => (0, v.get()),
		i6::alpha::RequestUpdate::StopIt(v) => (1, v.get()),
	};
	if e.is_go() != (index == 0) || e.as_go().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_stop_it() != (index == 1) || e.as_stop_it().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_go().ok().map(|v| v.get()),
		1 => e.into_stop_it().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface6;
impl Iface for Iface6 {
	fn spec(&self) -> &'static Spec {
		&SPEC_6
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client6(i6::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client6(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server6(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server6(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Up(0) => Fmt::decode_message::<i6::alpha::RequestUpdate>(message).map(open_up_6_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Up(0), 0) => Fmt::decode_message::<i6::alpha::RequestUpdate>(message)?.into_go().map(|v| v.get()),
			(Kind::Up(0), 1) => Fmt::decode_message::<i6::alpha::RequestUpdate>(message)?.into_stop_it().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Up(0), 0) => Fmt::encode_message(&i6::alpha::RequestUpdate::Go(Value::make(value))),
			(Kind::Up(0), 1) => Fmt::encode_message(&i6::alpha::RequestUpdate::StopIt(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client6(i6::Client<Fmt>);
impl Client for Client6 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.alpha(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent6_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server6(i6::Server<Fmt>);
impl Server for Server6 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i6::ReceivedMessage::Request(i6::ReceivedRequestHandle::Alpha(h, b)) => Got::Request(0, Box::new(Received6_0(h)), b.get()),
			})
		})
	}
}
struct Sent6_0(i6::alpha::SentRequestHandle<Fmt>);
impl SentOut for Sent6_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_stop_it_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW6_0(i6::alpha::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW6_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_stop_it_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent6_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW6_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received6_0(i6::alpha::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received6_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW6_0(i6::alpha::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW6_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received6_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW6_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_6_0)) })
	}
}

pub mod i7 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I7 {
			service -3 alpha: C -> B {
				request_update -3 go: B,
				request_update 21 stop_it: (),
				response_update -3 stop_it: C,
			},
			stream 21 tick: B,
		}
	}
}
static SPEC_7: Spec = Spec {
	name: "I7",
	services: &[
		ServiceSpec { name: "alpha", id: -3, req: Ty::C, resp: Ty::B, up: &[Entry { name: "go", id: -3, ty: Ty::B }, Entry { name: "stop_it", id: 21, ty: Ty::Unit }], down: &[Entry { name: "stop_it", id: -3, ty: Ty::C }] },
	],
	streams: &[Entry { name: "tick", id: 21, ty: Ty::B }],
};
fn open_stream_7(e: i7::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i7::StreamMessage::Tick(v) => (0, v.get()),
	};
	if e.is_tick() != (index == 0) || e.as_tick().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_tick().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_7_0(e: i7::alpha::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i7::alpha::RequestUpdate::Go(v) => (0, v.get()),
		i7::alpha::RequestUpdate::StopIt(v) => (1, v.get()),
	};
	if e.is_go() != (index == 0) || e.as_go().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_stop_it() != (index == 1) || e.as_stop_it().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_go().ok().map(|v| v.get()),
		1 => e.into_stop_it().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_7_0(e: i7::alpha::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i7::alpha::ResponseUpdate::StopIt(v) => (0, v.get()),
	};
	if e.is_stop_it() != (index == 0) || e.as_stop_it().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_stop_it().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface7;
impl Iface for Iface7 {
	fn spec(&self) -> &'static Spec {
		&SPEC_7
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client7(i7::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client7(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server7(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server7(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i7::StreamMessage>(message).map(open_stream_7),
			Kind::Up(0) => Fmt::decode_message::<i7::alpha::RequestUpdate>(message).map(open_up_7_0),
			Kind::Down(0) => Fmt::decode_message::<i7::alpha::ResponseUpdate>(message).map(open_down_7_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i7::StreamMessage>(message)?.into_tick().map(|v| v.get()),
			(Kind::Up(0), 0) => Fmt::decode_message::<i7::alpha::RequestUpdate>(message)?.into_go().map(|v| v.get()),
			(Kind::Up(0), 1) => Fmt::decode_message::<i7::alpha::RequestUpdate>(message)?.into_stop_it().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i7::alpha::ResponseUpdate>(message)?.into_stop_it().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i7::StreamMessage::Tick(Value::make(value))),
			(Kind::Up(0), 0) => Fmt::encode_message(&i7::alpha::RequestUpdate::Go(Value::make(value))),
			(Kind::Up(0), 1) => Fmt::encode_message(&i7::alpha::RequestUpdate::StopIt(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i7::alpha::ResponseUpdate::StopIt(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client7(i7::Client<Fmt>);
impl Client for Client7 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.alpha(&C::make(&v)).await.map(|r| Called::Handle(Box::new(Sent7_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_tick(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server7(i7::Server<Fmt>);
impl Server for Server7 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i7::ReceivedMessage::Request(i7::ReceivedRequestHandle::Alpha(h, b)) => Got::Request(0, Box::new(Received7_0(h)), b.get()),
				i7::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_7(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Sent7_0(i7::alpha::SentRequestHandle<Fmt>);
impl SentOut for Sent7_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_stop_it_update().await }),
			_ => unreachable!(),
		}
	}
}
struct SentW7_0(i7::alpha::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW7_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_stop_it_update().await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent7_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW7_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_7_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received7_0(i7::alpha::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received7_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&C::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW7_0(i7::alpha::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW7_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&C::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received7_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW7_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_7_0)) })
	}
}

pub mod i8 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I8 {
			service 300 alpha: B -> () {
				request_update 300 go: B,
				request_update 21 stop_it: B,
				response_update 300 stop_it: B,
				response_update 21 go: B,
			},
			stream 21 tick: B,
			stream 300 tock: (),
		}
	}
}
static SPEC_8: Spec = Spec {
	name: "I8",
	services: &[
		ServiceSpec { name: "alpha", id: 300, req: Ty::B, resp: Ty::Unit, up: &[Entry { name: "go", id: 300, ty: Ty::B }, Entry { name: "stop_it", id: 21, ty: Ty::B }], down: &[Entry { name: "stop_it", id: 300, ty: Ty::B }, Entry { name: "go", id: 21, ty: Ty::B }] },
	],
	streams: &[Entry { name: "tick", id: 21, ty: Ty::B }, Entry { name: "tock", id: 300, ty: Ty::Unit }],
};
fn open_stream_8(e: i8::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i8::StreamMessage::Tick(v) => (0, v.get()),
		i8::StreamMessage::Tock(v) => (1, v.get()),
	};
	if e.is_tick() != (index == 0) || e.as_tick().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_tock() != (index == 1) || e.as_tock().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_tick().ok().map(|v| v.get()),
		1 => e.into_tock().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_8_0(e: i8::alpha::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i8::alpha::RequestUpdate::Go(v) => (0, v.get()),
		i8::alpha::RequestUpdate::StopIt(v) => (1, v.get()),
	};
	if e.is_go() != (index == 0) || e.as_go().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_stop_it() != (index == 1) || e.as_stop_it().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_go().ok().map(|v| v.get()),
		1 => e.into_stop_it().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_8_0(e: i8::alpha::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i8::alpha::ResponseUpdate::StopIt(v) => (0, v.get()),
		i8::alpha::ResponseUpdate::Go(v) => (1, v.get()),
	};
	if e.is_stop_it() != (index == 0) || e.as_stop_it().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_go() != (index == 1) || e.as_go().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_stop_it().ok().map(|v| v.get()),
		1 => e.into_go().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface8;
impl Iface for Iface8 {
	fn spec(&self) -> &'static Spec {
		&SPEC_8
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client8(i8::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client8(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server8(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server8(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i8::StreamMessage>(message).map(open_stream_8),
			Kind::Up(0) => Fmt::decode_message::<i8::alpha::RequestUpdate>(message).map(open_up_8_0),
			Kind::Down(0) => Fmt::decode_message::<i8::alpha::ResponseUpdate>(message).map(open_down_8_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i8::StreamMessage>(message)?.into_tick().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i8::StreamMessage>(message)?.into_tock().map(|v| v.get()),
			(Kind::Up(0), 0) => Fmt::decode_message::<i8::alpha::RequestUpdate>(message)?.into_go().map(|v| v.get()),
			(Kind::Up(0), 1) => Fmt::decode_message::<i8::alpha::RequestUpdate>(message)?.into_stop_it().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i8::alpha::ResponseUpdate>(message)?.into_stop_it().map(|v| v.get()),
			(Kind::Down(0), 1) => Fmt::decode_message::<i8::alpha::ResponseUpdate>(message)?.into_go().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i8::StreamMessage::Tick(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i8::StreamMessage::Tock(Value::make(value))),
			(Kind::Up(0), 0) => Fmt::encode_message(&i8::alpha::RequestUpdate::Go(Value::make(value))),
			(Kind::Up(0), 1) => Fmt::encode_message(&i8::alpha::RequestUpdate::StopIt(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i8::alpha::ResponseUpdate::StopIt(Value::make(value))),
			(Kind::Down(0), 1) => Fmt::encode_message(&i8::alpha::ResponseUpdate::Go(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client8(i8::Client<Fmt>);
impl Client for Client8 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.alpha(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent8_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_tick(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_tock().await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server8(i8::Server<Fmt>);
impl Server for Server8 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i8::ReceivedMessage::Request(i8::ReceivedRequestHandle::Alpha(h, b)) => Got::Request(0, Box::new(Received8_0(h)), b.get()),
				i8::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_8(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Sent8_0(i8::alpha::SentRequestHandle<Fmt>);
impl SentOut for Sent8_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_stop_it_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW8_0(i8::alpha::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW8_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_stop_it_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent8_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW8_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_8_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received8_0(i8::alpha::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received8_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW8_0(i8::alpha::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW8_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_stop_it_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_go_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received8_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW8_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_8_0)) })
	}
}

pub mod i9 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I9 {
			service -2147483648 lowest: B -> B {
				request_update 2147483647 u: B,
				request_update -2147483648 v: B,
				response_update -2147483648 u: B,
				response_update 2147483647 v: B,
			},
			service 2147483647 highest: B -> B,
			stream 2147483647 s: B,
			stream -2147483648 t: B,
		}
	}
}
static SPEC_9: Spec = Spec {
	name: "I9",
	services: &[
		ServiceSpec { name: "lowest", id: -2147483648, req: Ty::B, resp: Ty::B, up: &[Entry { name: "u", id: 2147483647, ty: Ty::B }, Entry { name: "v", id: -2147483648, ty: Ty::B }], down: &[Entry { name: "u", id: -2147483648, ty: Ty::B }, Entry { name: "v", id: 2147483647, ty: Ty::B }] },
		ServiceSpec { name: "highest", id: 2147483647, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
	],
	streams: &[Entry { name: "s", id: 2147483647, ty: Ty::B }, Entry { name: "t", id: -2147483648, ty: Ty::B }],
};
fn open_stream_9(e: i9::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i9::StreamMessage::S(v) => (0, v.get()),
		i9::StreamMessage::T(v) => (1, v.get()),
	};
	if e.is_s() != (index == 0) || e.as_s().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_t() != (index == 1) || e.as_t().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_s().ok().map(|v| v.get()),
		1 => e.into_t().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_9_0(e: i9::lowest::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i9::lowest::RequestUpdate::U(v) => (0, v.get()),
		i9::lowest::RequestUpdate::V(v) => (1, v.get()),
	};
	if e.is_u() != (index == 0) || e.as_u().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_v() != (index == 1) || e.as_v().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_u().ok().map(|v| v.get()),
		1 => e.into_v().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_9_0(e: i9::lowest::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i9::lowest::ResponseUpdate::U(v) => (0, v.get()),
		i9::lowest::ResponseUpdate::V(v) => (1, v.get()),
	};
	if e.is_u() != (index == 0) || e.as_u().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_v() != (index == 1) || e.as_v().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_u().ok().map(|v| v.get()),
		1 => e.into_v().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface9;
impl Iface for Iface9 {
	fn spec(&self) -> &'static Spec {
		&SPEC_9
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client9(i9::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client9(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server9(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server9(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i9::StreamMessage>(message).map(open_stream_9),
			Kind::Up(0) => Fmt::decode_message::<i9::lowest::RequestUpdate>(message).map(open_up_9_0),
			Kind::Down(0) => Fmt::decode_message::<i9::lowest::ResponseUpdate>(message).map(open_down_9_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i9::StreamMessage>(message)?.into_s().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i9::StreamMessage>(message)?.into_t().map(|v| v.get()),
			(Kind::Up(0), 0) => Fmt::decode_message::<i9::lowest::RequestUpdate>(message)?.into_u().map(|v| v.get()),
			(Kind::Up(0), 1) => Fmt::decode_message::<i9::lowest::RequestUpdate>(message)?.into_v().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i9::lowest::ResponseUpdate>(message)?.into_u().map(|v| v.get()),
			(Kind::Down(0), 1) => Fmt::decode_message::<i9::lowest::ResponseUpdate>(message)?.into_v().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i9::StreamMessage::S(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i9::StreamMessage::T(Value::make(value))),
			(Kind::Up(0), 0) => Fmt::encode_message(&i9::lowest::RequestUpdate::U(Value::make(value))),
			(Kind::Up(0), 1) => Fmt::encode_message(&i9::lowest::RequestUpdate::V(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i9::lowest::ResponseUpdate::U(Value::make(value))),
			(Kind::Down(0), 1) => Fmt::encode_message(&i9::lowest::ResponseUpdate::V(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client9(i9::Client<Fmt>);
impl Client for Client9 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.lowest(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent9_0(r)))) }),
			1 => Box::pin(async move { c.highest(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_s(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_t(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server9(i9::Server<Fmt>);
impl Server for Server9 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i9::ReceivedMessage::Request(i9::ReceivedRequestHandle::Lowest(h, b)) => Got::Request(0, Box::new(Received9_0(h)), b.get()),
				i9::ReceivedMessage::Request(i9::ReceivedRequestHandle::Highest(h, b)) => Got::Request(1, Box::new(Received9_1(h)), b.get()),
				i9::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_9(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Sent9_0(i9::lowest::SentRequestHandle<Fmt>);
impl SentOut for Sent9_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_u_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_v_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW9_0(i9::lowest::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW9_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_u_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_v_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent9_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW9_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_9_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received9_0(i9::lowest::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received9_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_u_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_v_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW9_0(i9::lowest::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW9_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_u_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_v_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received9_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW9_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_9_0)) })
	}
}
struct Received9_1(i9::highest::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received9_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW9_1(i9::highest::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW9_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received9_1 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW9_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i10 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I10 {
			service 0 zero: B -> B {
				response_update 0 z: B,
			},
			service -2 minus_two: B -> B {
				request_update 0 z: B,
			},
			stream 0 zz: B,
			stream -2 minus: B,
		}
	}
}
static SPEC_10: Spec = Spec {
	name: "I10",
	services: &[
		ServiceSpec { name: "zero", id: 0, req: Ty::B, resp: Ty::B, up: &[], down: &[Entry { name: "z", id: 0, ty: Ty::B }] },
		ServiceSpec { name: "minus_two", id: -2, req: Ty::B, resp: Ty::B, up: &[Entry { name: "z", id: 0, ty: Ty::B }], down: &[] },
	],
	streams: &[Entry { name: "zz", id: 0, ty: Ty::B }, Entry { name: "minus", id: -2, ty: Ty::B }],
};
fn open_stream_10(e: i10::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i10::StreamMessage::Zz(v) => (0, v.get()),
		i10::StreamMessage::Minus(v) => (1, v.get()),
	};
	if e.is_zz() != (index == 0) || e.as_zz().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_minus() != (index == 1) || e.as_minus().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_zz().ok().map(|v| v.get()),
		1 => e.into_minus().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_10_0(e: i10::zero::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i10::zero::ResponseUpdate::Z(v) => (0, v.get()),
	};
	if e.is_z() != (index == 0) || e.as_z().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_z().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_10_1(e: i10::minus_two::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i10::minus_two::RequestUpdate::Z(v) => (0, v.get()),
	};
	if e.is_z() != (index == 0) || e.as_z().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_z().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface10;
impl Iface for Iface10 {
	fn spec(&self) -> &'static Spec {
		&SPEC_10
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client10(i10::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client10(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server10(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server10(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i10::StreamMessage>(message).map(open_stream_10),
			Kind::Down(0) => Fmt::decode_message::<i10::zero::ResponseUpdate>(message).map(open_down_10_0),
			Kind::Up(1) => Fmt::decode_message::<i10::minus_two::RequestUpdate>(message).map(open_up_10_1),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i10::StreamMessage>(message)?.into_zz().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i10::StreamMessage>(message)?.into_minus().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i10::zero::ResponseUpdate>(message)?.into_z().map(|v| v.get()),
			(Kind::Up(1), 0) => Fmt::decode_message::<i10::minus_two::RequestUpdate>(message)?.into_z().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i10::StreamMessage::Zz(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i10::StreamMessage::Minus(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i10::zero::ResponseUpdate::Z(Value::make(value))),
			(Kind::Up(1), 0) => Fmt::encode_message(&i10::minus_two::RequestUpdate::Z(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client10(i10::Client<Fmt>);
impl Client for Client10 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.zero(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent10_0(r)))) }),
			1 => Box::pin(async move { c.minus_two(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent10_1(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_zz(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_minus(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server10(i10::Server<Fmt>);
impl Server for Server10 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i10::ReceivedMessage::Request(i10::ReceivedRequestHandle::Zero(h, b)) => Got::Request(0, Box::new(Received10_0(h)), b.get()),
				i10::ReceivedMessage::Request(i10::ReceivedRequestHandle::MinusTwo(h, b)) => Got::Request(1, Box::new(Received10_1(h)), b.get()),
				i10::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_10(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Sent10_0(i10::zero::SentRequestHandle<Fmt>);
impl SentOut for Sent10_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
}
struct SentW10_0(i10::zero::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW10_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent10_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW10_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_10_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received10_0(i10::zero::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received10_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_z_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW10_0(i10::zero::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW10_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_z_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received10_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW10_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}
struct Sent10_1(i10::minus_two::SentRequestHandle<Fmt>);
impl SentOut for Sent10_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_z_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW10_1(i10::minus_two::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW10_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_z_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent10_1 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW10_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received10_1(i10::minus_two::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received10_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW10_1(i10::minus_two::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW10_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received10_1 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW10_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_10_1)) })
	}
}

pub mod i11 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I11 {
			service 1 a: B -> B,
			service 257 b: B -> B,
			service 65537 c: B -> B,
			stream 16777217 a: B,
			stream 1 b: B,
			stream -2147483647 c: B,
		}
	}
}
static SPEC_11: Spec = Spec {
	name: "I11",
	services: &[
		ServiceSpec { name: "a", id: 1, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
		ServiceSpec { name: "b", id: 257, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
		ServiceSpec { name: "c", id: 65537, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
	],
	streams: &[Entry { name: "a", id: 16777217, ty: Ty::B }, Entry { name: "b", id: 1, ty: Ty::B }, Entry { name: "c", id: -2147483647, ty: Ty::B }],
};
fn open_stream_11(e: i11::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i11::StreamMessage::A(v) => (0, v.get()),
		i11::StreamMessage::B(v) => (1, v.get()),
		i11::StreamMessage::C(v) => (2, v.get()),
	};
	if e.is_a() != (index == 0) || e.as_a().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_b() != (index == 1) || e.as_b().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_c() != (index == 2) || e.as_c().map(|v| v.get()) != (index == 2).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_a().ok().map(|v| v.get()),
		1 => e.into_b().ok().map(|v| v.get()),
		2 => e.into_c().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface11;
impl Iface for Iface11 {
	fn spec(&self) -> &'static Spec {
		&SPEC_11
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client11(i11::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client11(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server11(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server11(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i11::StreamMessage>(message).map(open_stream_11),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i11::StreamMessage>(message)?.into_a().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i11::StreamMessage>(message)?.into_b().map(|v| v.get()),
			(Kind::Stream, 2) => Fmt::decode_message::<i11::StreamMessage>(message)?.into_c().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i11::StreamMessage::A(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i11::StreamMessage::B(Value::make(value))),
			(Kind::Stream, 2) => Fmt::encode_message(&i11::StreamMessage::C(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client11(i11::Client<Fmt>);
impl Client for Client11 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.a(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			1 => Box::pin(async move { c.b(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			2 => Box::pin(async move { c.c(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_a(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_b(&B::make(&v)).await }),
			2 => Box::pin(async move { c.send_c(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server11(i11::Server<Fmt>);
impl Server for Server11 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i11::ReceivedMessage::Request(i11::ReceivedRequestHandle::A(h, b)) => Got::Request(0, Box::new(Received11_0(h)), b.get()),
				i11::ReceivedMessage::Request(i11::ReceivedRequestHandle::B(h, b)) => Got::Request(1, Box::new(Received11_1(h)), b.get()),
				i11::ReceivedMessage::Request(i11::ReceivedRequestHandle::C(h, b)) => Got::Request(2, Box::new(Received11_2(h)), b.get()),
				i11::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_11(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Received11_0(i11::a::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received11_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW11_0(i11::a::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW11_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received11_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW11_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}
struct Received11_1(i11::b::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received11_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW11_1(i11::b::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW11_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received11_1 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW11_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}
struct Received11_2(i11::c::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received11_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW11_2(i11::c::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW11_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received11_2 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW11_2(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i12 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I12 {
			service 5 d: B -> B {
				request_update 5 a: B,
				request_update 261 b: B,
				request_update -5 c: B,
				response_update -5 a: B,
				response_update 5 b: B,
				response_update 261 c: B,
			},
		}
	}
}
static SPEC_12: Spec = Spec {
	name: "I12",
	services: &[
		ServiceSpec { name: "d", id: 5, req: Ty::B, resp: Ty::B, up: &[Entry { name: "a", id: 5, ty: Ty::B }, Entry { name: "b", id: 261, ty: Ty::B }, Entry { name: "c", id: -5, ty: Ty::B }], down: &[Entry { name: "a", id: -5, ty: Ty::B }, Entry { name: "b", id: 5, ty: Ty::B }, Entry { name: "c", id: 261, ty: Ty::B }] },
	],
	streams: &[],
};
fn open_up_12_0(e: i12::d::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i12::d::RequestUpdate::A(v) => (0, v.get()),
		i12::d::RequestUpdate::B(v) => (1, v.get()),
		i12::d::RequestUpdate::C(v) => (2, v.get()),
	};
	if e.is_a() != (index == 0) || e.as_a().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_b() != (index == 1) || e.as_b().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_c() != (index == 2) || e.as_c().map(|v| v.get()) != (index == 2).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_a().ok().map(|v| v.get()),
		1 => e.into_b().ok().map(|v| v.get()),
		2 => e.into_c().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_12_0(e: i12::d::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i12::d::ResponseUpdate::A(v) => (0, v.get()),
		i12::d::ResponseUpdate::B(v) => (1, v.get()),
		i12::d::ResponseUpdate::C(v) => (2, v.get()),
	};
	if e.is_a() != (index == 0) || e.as_a().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_b() != (index == 1) || e.as_b().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_c() != (index == 2) || e.as_c().map(|v| v.get()) != (index == 2).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_a().ok().map(|v| v.get()),
		1 => e.into_b().ok().map(|v| v.get()),
		2 => e.into_c().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface12;
impl Iface for Iface12 {
	fn spec(&self) -> &'static Spec {
		&SPEC_12
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client12(i12::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client12(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server12(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server12(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Up(0) => Fmt::decode_message::<i12::d::RequestUpdate>(message).map(open_up_12_0),
			Kind::Down(0) => Fmt::decode_message::<i12::d::ResponseUpdate>(message).map(open_down_12_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Up(0), 0) => Fmt::decode_message::<i12::d::RequestUpdate>(message)?.into_a().map(|v| v.get()),
			(Kind::Up(0), 1) => Fmt::decode_message::<i12::d::RequestUpdate>(message)?.into_b().map(|v| v.get()),
			(Kind::Up(0), 2) => Fmt::decode_message::<i12::d::RequestUpdate>(message)?.into_c().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i12::d::ResponseUpdate>(message)?.into_a().map(|v| v.get()),
			(Kind::Down(0), 1) => Fmt::decode_message::<i12::d::ResponseUpdate>(message)?.into_b().map(|v| v.get()),
			(Kind::Down(0), 2) => Fmt::decode_message::<i12::d::ResponseUpdate>(message)?.into_c().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Up(0), 0) => Fmt::encode_message(&i12::d::RequestUpdate::A(Value::make(value))),
			(Kind::Up(0), 1) => Fmt::encode_message(&i12::d::RequestUpdate::B(Value::make(value))),
			(Kind::Up(0), 2) => Fmt::encode_message(&i12::d::RequestUpdate::C(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i12::d::ResponseUpdate::A(Value::make(value))),
			(Kind::Down(0), 1) => Fmt::encode_message(&i12::d::ResponseUpdate::B(Value::make(value))),
			(Kind::Down(0), 2) => Fmt::encode_message(&i12::d::ResponseUpdate::C(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client12(i12::Client<Fmt>);
impl Client for Client12 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.d(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent12_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server12(i12::Server<Fmt>);
impl Server for Server12 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i12::ReceivedMessage::Request(i12::ReceivedRequestHandle::D(h, b)) => Got::Request(0, Box::new(Received12_0(h)), b.get()),
			})
		})
	}
}
struct Sent12_0(i12::d::SentRequestHandle<Fmt>);
impl SentOut for Sent12_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_a_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_b_update(&B::make(&v)).await }),
			2 => Box::pin(async move { self.0.send_c_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW12_0(i12::d::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW12_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_a_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_b_update(&B::make(&v)).await }),
			2 => Box::pin(async move { self.0.send_c_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent12_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW12_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_12_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received12_0(i12::d::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received12_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_a_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_b_update(&B::make(&v)).await }),
			2 => Box::pin(async move { self.0.send_c_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW12_0(i12::d::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW12_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_a_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_b_update(&B::make(&v)).await }),
			2 => Box::pin(async move { self.0.send_c_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received12_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW12_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_12_0)) })
	}
}

pub mod i13 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I13 {
			service 1 one: B -> B,
			service 2 two: B -> B {
				request_update 2 x: B,
			},
			service 3 three: B -> B {
				response_update 2 x: B,
				response_update 1 y: B,
			},
			stream 3 one: B,
			stream 2 two: B,
			stream 1 three: B,
		}
	}
}
static SPEC_13: Spec = Spec {
	name: "I13",
	services: &[
		ServiceSpec { name: "one", id: 1, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
		ServiceSpec { name: "two", id: 2, req: Ty::B, resp: Ty::B, up: &[Entry { name: "x", id: 2, ty: Ty::B }], down: &[] },
		ServiceSpec { name: "three", id: 3, req: Ty::B, resp: Ty::B, up: &[], down: &[Entry { name: "x", id: 2, ty: Ty::B }, Entry { name: "y", id: 1, ty: Ty::B }] },
	],
	streams: &[Entry { name: "one", id: 3, ty: Ty::B }, Entry { name: "two", id: 2, ty: Ty::B }, Entry { name: "three", id: 1, ty: Ty::B }],
};
fn open_stream_13(e: i13::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i13::StreamMessage::One(v) => (0, v.get()),
		i13::StreamMessage::Two(v) => (1, v.get()),
		i13::StreamMessage::Three(v) => (2, v.get()),
	};
	if e.is_one() != (index == 0) || e.as_one().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_two() != (index == 1) || e.as_two().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_three() != (index == 2) || e.as_three().map(|v| v.get()) != (index == 2).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_one().ok().map(|v| v.get()),
		1 => e.into_two().ok().map(|v| v.get()),
		2 => e.into_three().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_13_1(e: i13::two::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i13::two::RequestUpdate::X(v) => (0, v.get()),
	};
	if e.is_x() != (index == 0) || e.as_x().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_x().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_13_2(e: i13::three::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i13::three::ResponseUpdate::X(v) => (0, v.get()),
		i13::three::ResponseUpdate::Y(v) => (1, v.get()),
	};
	if e.is_x() != (index == 0) || e.as_x().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_y() != (index == 1) || e.as_y().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_x().ok().map(|v| v.get()),
		1 => e.into_y().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface13;
impl Iface for Iface13 {
	fn spec(&self) -> &'static Spec {
		&SPEC_13
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client13(i13::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client13(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server13(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server13(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i13::StreamMessage>(message).map(open_stream_13),
			Kind::Up(1) => Fmt::decode_message::<i13::two::RequestUpdate>(message).map(open_up_13_1),
			Kind::Down(2) => Fmt::decode_message::<i13::three::ResponseUpdate>(message).map(open_down_13_2),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i13::StreamMessage>(message)?.into_one().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i13::StreamMessage>(message)?.into_two().map(|v| v.get()),
			(Kind::Stream, 2) => Fmt::decode_message::<i13::StreamMessage>(message)?.into_three().map(|v| v.get()),
			(Kind::Up(1), 0) => Fmt::decode_message::<i13::two::RequestUpdate>(message)?.into_x().map(|v| v.get()),
			(Kind::Down(2), 0) => Fmt::decode_message::<i13::three::ResponseUpdate>(message)?.into_x().map(|v| v.get()),
			(Kind::Down(2), 1) => Fmt::decode_message::<i13::three::ResponseUpdate>(message)?.into_y().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i13::StreamMessage::One(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i13::StreamMessage::Two(Value::make(value))),
			(Kind::Stream, 2) => Fmt::encode_message(&i13::StreamMessage::Three(Value::make(value))),
			(Kind::Up(1), 0) => Fmt::encode_message(&i13::two::RequestUpdate::X(Value::make(value))),
			(Kind::Down(2), 0) => Fmt::encode_message(&i13::three::ResponseUpdate::X(Value::make(value))),
			(Kind::Down(2), 1) => Fmt::encode_message(&i13::three::ResponseUpdate::Y(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client13(i13::Client<Fmt>);
impl Client for Client13 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.one(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			1 => Box::pin(async move { c.two(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent13_1(r)))) }),
			2 => Box::pin(async move { c.three(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent13_2(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_one(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_two(&B::make(&v)).await }),
			2 => Box::pin(async move { c.send_three(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server13(i13::Server<Fmt>);
impl Server for Server13 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i13::ReceivedMessage::Request(i13::ReceivedRequestHandle::One(h, b)) => Got::Request(0, Box::new(Received13_0(h)), b.get()),
				i13::ReceivedMessage::Request(i13::ReceivedRequestHandle::Two(h, b)) => Got::Request(1, Box::new(Received13_1(h)), b.get()),
				i13::ReceivedMessage::Request(i13::ReceivedRequestHandle::Three(h, b)) => Got::Request(2, Box::new(Received13_2(h)), b.get()),
				i13::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_13(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Received13_0(i13::one::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received13_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW13_0(i13::one::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW13_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received13_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW13_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}
struct Sent13_1(i13::two::SentRequestHandle<Fmt>);
impl SentOut for Sent13_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_x_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW13_1(i13::two::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW13_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_x_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent13_1 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW13_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received13_1(i13::two::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received13_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW13_1(i13::two::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW13_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received13_1 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW13_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_13_1)) })
	}
}
struct Sent13_2(i13::three::SentRequestHandle<Fmt>);
impl SentOut for Sent13_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
}
struct SentW13_2(i13::three::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW13_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent13_2 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW13_2(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_13_2)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received13_2(i13::three::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received13_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_x_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_y_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW13_2(i13::three::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW13_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_x_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_y_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received13_2 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW13_2(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i14 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I14 {
			service 3 one: () -> (),
			service 1 two: C -> B {
				request_update 1 x: C,
				request_update 3 y: B,
				response_update 1 y: B,
				response_update 3 x: C,
			},
			service 2 three: B -> C,
			stream 1 x: C,
			stream 2 y: (),
		}
	}
}
static SPEC_14: Spec = Spec {
	name: "I14",
	services: &[
		ServiceSpec { name: "one", id: 3, req: Ty::Unit, resp: Ty::Unit, up: &[], down: &[] },
		ServiceSpec { name: "two", id: 1, req: Ty::C, resp: Ty::B, up: &[Entry { name: "x", id: 1, ty: Ty::C }, Entry { name: "y", id: 3, ty: Ty::B }], down: &[Entry { name: "y", id: 1, ty: Ty::B }, Entry { name: "x", id: 3, ty: Ty::C }] },
		ServiceSpec { name: "three", id: 2, req: Ty::B, resp: Ty::C, up: &[], down: &[] },
	],
	streams: &[Entry { name: "x", id: 1, ty: Ty::C }, Entry { name: "y", id: 2, ty: Ty::Unit }],
};
fn open_stream_14(e: i14::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i14::StreamMessage::X(v) => (0, v.get()),
		i14::StreamMessage::Y(v) => (1, v.get()),
	};
	if e.is_x() != (index == 0) || e.as_x().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_y() != (index == 1) || e.as_y().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_x().ok().map(|v| v.get()),
		1 => e.into_y().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_14_1(e: i14::two::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i14::two::RequestUpdate::X(v) => (0, v.get()),
		i14::two::RequestUpdate::Y(v) => (1, v.get()),
	};
	if e.is_x() != (index == 0) || e.as_x().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_y() != (index == 1) || e.as_y().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_x().ok().map(|v| v.get()),
		1 => e.into_y().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_14_1(e: i14::two::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i14::two::ResponseUpdate::Y(v) => (0, v.get()),
		i14::two::ResponseUpdate::X(v) => (1, v.get()),
	};
	if e.is_y() != (index == 0) || e.as_y().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_x() != (index == 1) || e.as_x().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_y().ok().map(|v| v.get()),
		1 => e.into_x().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface14;
impl Iface for Iface14 {
	fn spec(&self) -> &'static Spec {
		&SPEC_14
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client14(i14::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client14(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server14(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server14(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i14::StreamMessage>(message).map(open_stream_14),
			Kind::Up(1) => Fmt::decode_message::<i14::two::RequestUpdate>(message).map(open_up_14_1),
			Kind::Down(1) => Fmt::decode_message::<i14::two::ResponseUpdate>(message).map(open_down_14_1),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i14::StreamMessage>(message)?.into_x().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i14::StreamMessage>(message)?.into_y().map(|v| v.get()),
			(Kind::Up(1), 0) => Fmt::decode_message::<i14::two::RequestUpdate>(message)?.into_x().map(|v| v.get()),
			(Kind::Up(1), 1) => Fmt::decode_message::<i14::two::RequestUpdate>(message)?.into_y().map(|v| v.get()),
			(Kind::Down(1), 0) => Fmt::decode_message::<i14::two::ResponseUpdate>(message)?.into_y().map(|v| v.get()),
			(Kind::Down(1), 1) => Fmt::decode_message::<i14::two::ResponseUpdate>(message)?.into_x().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i14::StreamMessage::X(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i14::StreamMessage::Y(Value::make(value))),
			(Kind::Up(1), 0) => Fmt::encode_message(&i14::two::RequestUpdate::X(Value::make(value))),
			(Kind::Up(1), 1) => Fmt::encode_message(&i14::two::RequestUpdate::Y(Value::make(value))),
			(Kind::Down(1), 0) => Fmt::encode_message(&i14::two::ResponseUpdate::Y(Value::make(value))),
			(Kind::Down(1), 1) => Fmt::encode_message(&i14::two::ResponseUpdate::X(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client14(i14::Client<Fmt>);
impl Client for Client14 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.one().await.map(|r| Called::Response(r.get())) }),
			1 => Box::pin(async move { c.two(&C::make(&v)).await.map(|r| Called::Handle(Box::new(Sent14_1(r)))) }),
			2 => Box::pin(async move { c.three(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_x(&C::make(&v)).await }),
			1 => Box::pin(async move { c.send_y().await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server14(i14::Server<Fmt>);
impl Server for Server14 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i14::ReceivedMessage::Request(i14::ReceivedRequestHandle::One(h, b)) => Got::Request(0, Box::new(Received14_0(h)), b.get()),
				i14::ReceivedMessage::Request(i14::ReceivedRequestHandle::Two(h, b)) => Got::Request(1, Box::new(Received14_1(h)), b.get()),
				i14::ReceivedMessage::Request(i14::ReceivedRequestHandle::Three(h, b)) => Got::Request(2, Box::new(Received14_2(h)), b.get()),
				i14::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_14(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Received14_0(i14::one::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received14_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW14_0(i14::one::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW14_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received14_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW14_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}
struct Sent14_1(i14::two::SentRequestHandle<Fmt>);
impl SentOut for Sent14_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_x_update(&C::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_y_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW14_1(i14::two::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW14_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_x_update(&C::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_y_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent14_1 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW14_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_14_1)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received14_1(i14::two::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received14_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_y_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_x_update(&C::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW14_1(i14::two::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW14_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_y_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_x_update(&C::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received14_1 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW14_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_14_1)) })
	}
}
struct Received14_2(i14::three::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received14_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<C>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW14_2(i14::three::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW14_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<C>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received14_2 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW14_2(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i15 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I15 {
			service 11 first: B -> B {
				request_update 1 p: B,
				request_update 2 q: B,
				response_update 3 p: B,
				response_update 4 q: B,
			},
			service 12 second: B -> B {
				request_update 2 p: B,
				request_update 1 q: B,
				response_update 4 p: B,
				response_update 3 q: B,
			},
		}
	}
}
static SPEC_15: Spec = Spec {
	name: "I15",
	services: &[
		ServiceSpec { name: "first", id: 11, req: Ty::B, resp: Ty::B, up: &[Entry { name: "p", id: 1, ty: Ty::B }, Entry { name: "q", id: 2, ty: Ty::B }], down: &[Entry { name: "p", id: 3, ty: Ty::B }, Entry { name: "q", id: 4, ty: Ty::B }] },
		ServiceSpec { name: "second", id: 12, req: Ty::B, resp: Ty::B, up: &[Entry { name: "p", id: 2, ty: Ty::B }, Entry { name: "q", id: 1, ty: Ty::B }], down: &[Entry { name: "p", id: 4, ty: Ty::B }, Entry { name: "q", id: 3, ty: Ty::B }] },
	],
	streams: &[],
};
fn open_up_15_0(e: i15::first::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i15::first::RequestUpdate::P(v) => (0, v.get()),
		i15::first::RequestUpdate::Q(v) => (1, v.get()),
	};
	if e.is_p() != (index == 0) || e.as_p().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_q() != (index == 1) || e.as_q().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_p().ok().map(|v| v.get()),
		1 => e.into_q().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_15_0(e: i15::first::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i15::first::ResponseUpdate::P(v) => (0, v.get()),
		i15::first::ResponseUpdate::Q(v) => (1, v.get()),
	};
	if e.is_p() != (index == 0) || e.as_p().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_q() != (index == 1) || e.as_q().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_p().ok().map(|v| v.get()),
		1 => e.into_q().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_15_1(e: i15::second::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i15::second::RequestUpdate::P(v) => (0, v.get()),
		i15::second::RequestUpdate::Q(v) => (1, v.get()),
	};
	if e.is_p() != (index == 0) || e.as_p().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_q() != (index == 1) || e.as_q().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_p().ok().map(|v| v.get()),
		1 => e.into_q().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_15_1(e: i15::second::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i15::second::ResponseUpdate::P(v) => (0, v.get()),
		i15::second::ResponseUpdate::Q(v) => (1, v.get()),
	};
	if e.is_p() != (index == 0) || e.as_p().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_q() != (index == 1) || e.as_q().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_p().ok().map(|v| v.get()),
		1 => e.into_q().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface15;
impl Iface for Iface15 {
	fn spec(&self) -> &'static Spec {
		&SPEC_15
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client15(i15::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client15(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server15(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server15(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Up(0) => Fmt::decode_message::<i15::first::RequestUpdate>(message).map(open_up_15_0),
			Kind::Down(0) => Fmt::decode_message::<i15::first::ResponseUpdate>(message).map(open_down_15_0),
			Kind::Up(1) => Fmt::decode_message::<i15::second::RequestUpdate>(message).map(open_up_15_1),
			Kind::Down(1) => Fmt::decode_message::<i15::second::ResponseUpdate>(message).map(open_down_15_1),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Up(0), 0) => Fmt::decode_message::<i15::first::RequestUpdate>(message)?.into_p().map(|v| v.get()),
			(Kind::Up(0), 1) => Fmt::decode_message::<i15::first::RequestUpdate>(message)?.into_q().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i15::first::ResponseUpdate>(message)?.into_p().map(|v| v.get()),
			(Kind::Down(0), 1) => Fmt::decode_message::<i15::first::ResponseUpdate>(message)?.into_q().map(|v| v.get()),
			(Kind::Up(1), 0) => Fmt::decode_message::<i15::second::RequestUpdate>(message)?.into_p().map(|v| v.get()),
			(Kind::Up(1), 1) => Fmt::decode_message::<i15::second::RequestUpdate>(message)?.into_q().map(|v| v.get()),
			(Kind::Down(1), 0) => Fmt::decode_message::<i15::second::ResponseUpdate>(message)?.into_p().map(|v| v.get()),
			(Kind::Down(1), 1) => Fmt::decode_message::<i15::second::ResponseUpdate>(message)?.into_q().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Up(0), 0) => Fmt::encode_message(&i15::first::RequestUpdate::P(Value::make(value))),
			(Kind::Up(0), 1) => Fmt::encode_message(&i15::first::RequestUpdate::Q(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i15::first::ResponseUpdate::P(Value::make(value))),
			(Kind::Down(0), 1) => Fmt::encode_message(&i15::first::ResponseUpdate::Q(Value::make(value))),
			(Kind::Up(1), 0) => Fmt::encode_message(&i15::second::RequestUpdate::P(Value::make(value))),
			(Kind::Up(1), 1) => Fmt::encode_message(&i15::second::RequestUpdate::Q(Value::make(value))),
			(Kind::Down(1), 0) => Fmt::encode_message(&i15::second::ResponseUpdate::P(Value::make(value))),
			(Kind::Down(1), 1) => Fmt::encode_message(&i15::second::ResponseUpdate::Q(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client15(i15::Client<Fmt>);
impl Client for Client15 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.first(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent15_0(r)))) }),
			1 => Box::pin(async move { c.second(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent15_1(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server15(i15::Server<Fmt>);
impl Server for Server15 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i15::ReceivedMessage::Request(i15::ReceivedRequestHandle::First(h, b)) => Got::Request(0, Box::new(Received15_0(h)), b.get()),
				i15::ReceivedMessage::Request(i15::ReceivedRequestHandle::Second(h, b)) => Got::Request(1, Box::new(Received15_1(h)), b.get()),
			})
		})
	}
}
struct Sent15_0(i15::first::SentRequestHandle<Fmt>);
impl SentOut for Sent15_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_p_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_q_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW15_0(i15::first::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW15_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_p_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_q_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent15_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW15_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_15_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received15_0(i15::first::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received15_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_p_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_q_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW15_0(i15::first::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW15_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_p_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_q_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received15_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW15_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_15_0)) })
	}
}
struct Sent15_1(i15::second::SentRequestHandle<Fmt>);
impl SentOut for Sent15_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_p_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_q_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW15_1(i15::second::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW15_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_p_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_q_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent15_1 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW15_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_15_1)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received15_1(i15::second::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received15_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_p_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_q_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW15_1(i15::second::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW15_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_p_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_q_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received15_1 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW15_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_15_1)) })
	}
}

pub mod i16 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I16 {
			service -5 down_one: B -> B,
			service 5 up_one: B -> B,
			service -2147483648 bottom: B -> C,
			service -257 below: () -> (),
			stream -5 down_one: B,
			stream 255 below: B,
		}
	}
}
static SPEC_16: Spec = Spec {
	name: "I16",
	services: &[
		ServiceSpec { name: "down_one", id: -5, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
		ServiceSpec { name: "up_one", id: 5, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
		ServiceSpec { name: "bottom", id: -2147483648, req: Ty::B, resp: Ty::C, up: &[], down: &[] },
		ServiceSpec { name: "below", id: -257, req: Ty::Unit, resp: Ty::Unit, up: &[], down: &[] },
	],
	streams: &[Entry { name: "down_one", id: -5, ty: Ty::B }, Entry { name: "below", id: 255, ty: Ty::B }],
};
fn open_stream_16(e: i16::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i16::StreamMessage::DownOne(v) => (0, v.get()),
		i16::StreamMessage::Below(v) => (1, v.get()),
	};
	if e.is_down_one() != (index == 0) || e.as_down_one().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_below() != (index == 1) || e.as_below().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_down_one().ok().map(|v| v.get()),
		1 => e.into_below().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface16;
impl Iface for Iface16 {
	fn spec(&self) -> &'static Spec {
		&SPEC_16
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client16(i16::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client16(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server16(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server16(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i16::StreamMessage>(message).map(open_stream_16),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i16::StreamMessage>(message)?.into_down_one().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i16::StreamMessage>(message)?.into_below().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i16::StreamMessage::DownOne(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i16::StreamMessage::Below(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client16(i16::Client<Fmt>);
impl Client for Client16 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.down_one(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			1 => Box::pin(async move { c.up_one(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			2 => Box::pin(async move { c.bottom(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			3 => Box::pin(async move { c.below().await.map(|r| Called::Response(r.get())) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_down_one(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_below(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server16(i16::Server<Fmt>);
impl Server for Server16 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i16::ReceivedMessage::Request(i16::ReceivedRequestHandle::DownOne(h, b)) => Got::Request(0, Box::new(Received16_0(h)), b.get()),
				i16::ReceivedMessage::Request(i16::ReceivedRequestHandle::UpOne(h, b)) => Got::Request(1, Box::new(Received16_1(h)), b.get()),
				i16::ReceivedMessage::Request(i16::ReceivedRequestHandle::Bottom(h, b)) => Got::Request(2, Box::new(Received16_2(h)), b.get()),
				i16::ReceivedMessage::Request(i16::ReceivedRequestHandle::Below(h, b)) => Got::Request(3, Box::new(Received16_3(h)), b.get()),
				i16::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_16(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Received16_0(i16::down_one::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received16_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW16_0(i16::down_one::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW16_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received16_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW16_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}
struct Received16_1(i16::up_one::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received16_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW16_1(i16::up_one::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW16_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received16_1 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW16_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}
struct Received16_2(i16::bottom::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received16_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<C>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW16_2(i16::bottom::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW16_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<C>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received16_2 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW16_2(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}
struct Received16_3(i16::below::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received16_3 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW16_3(i16::below::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW16_3 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received16_3 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW16_3(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i17 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I17 {
			service -1000 bare: C -> B,
			stream -7 neg: B,
			stream 7 pos: B,
		}
	}
}
static SPEC_17: Spec = Spec {
	name: "I17",
	services: &[
		ServiceSpec { name: "bare", id: -1000, req: Ty::C, resp: Ty::B, up: &[], down: &[] },
	],
	streams: &[Entry { name: "neg", id: -7, ty: Ty::B }, Entry { name: "pos", id: 7, ty: Ty::B }],
};
fn open_stream_17(e: i17::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i17::StreamMessage::Neg(v) => (0, v.get()),
		i17::StreamMessage::Pos(v) => (1, v.get()),
	};
	if e.is_neg() != (index == 0) || e.as_neg().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_pos() != (index == 1) || e.as_pos().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_neg().ok().map(|v| v.get()),
		1 => e.into_pos().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface17;
impl Iface for Iface17 {
	fn spec(&self) -> &'static Spec {
		&SPEC_17
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client17(i17::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client17(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server17(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server17(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i17::StreamMessage>(message).map(open_stream_17),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i17::StreamMessage>(message)?.into_neg().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i17::StreamMessage>(message)?.into_pos().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i17::StreamMessage::Neg(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i17::StreamMessage::Pos(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client17(i17::Client<Fmt>);
impl Client for Client17 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.bare(&C::make(&v)).await.map(|r| Called::Response(r.get())) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_neg(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_pos(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server17(i17::Server<Fmt>);
impl Server for Server17 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i17::ReceivedMessage::Request(i17::ReceivedRequestHandle::Bare(h, b)) => Got::Request(0, Box::new(Received17_0(h)), b.get()),
				i17::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_17(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Received17_0(i17::bare::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received17_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW17_0(i17::bare::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW17_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received17_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW17_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i18 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I18 {
			service -65537 far: B -> B {
				request_update -2 g: B,
				request_update -256 h: C,
				response_update -256 g: B,
				response_update -2 h: C,
			},
		}
	}
}
static SPEC_18: Spec = Spec {
	name: "I18",
	services: &[
		ServiceSpec { name: "far", id: -65537, req: Ty::B, resp: Ty::B, up: &[Entry { name: "g", id: -2, ty: Ty::B }, Entry { name: "h", id: -256, ty: Ty::C }], down: &[Entry { name: "g", id: -256, ty: Ty::B }, Entry { name: "h", id: -2, ty: Ty::C }] },
	],
	streams: &[],
};
fn open_up_18_0(e: i18::far::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i18::far::RequestUpdate::G(v) => (0, v.get()),
		i18::far::RequestUpdate::H(v) => (1, v.get()),
	};
	if e.is_g() != (index == 0) || e.as_g().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_h() != (index == 1) || e.as_h().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_g().ok().map(|v| v.get()),
		1 => e.into_h().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_18_0(e: i18::far::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i18::far::ResponseUpdate::G(v) => (0, v.get()),
		i18::far::ResponseUpdate::H(v) => (1, v.get()),
	};
	if e.is_g() != (index == 0) || e.as_g().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_h() != (index == 1) || e.as_h().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_g().ok().map(|v| v.get()),
		1 => e.into_h().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface18;
impl Iface for Iface18 {
	fn spec(&self) -> &'static Spec {
		&SPEC_18
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client18(i18::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client18(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server18(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server18(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Up(0) => Fmt::decode_message::<i18::far::RequestUpdate>(message).map(open_up_18_0),
			Kind::Down(0) => Fmt::decode_message::<i18::far::ResponseUpdate>(message).map(open_down_18_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Up(0), 0) => Fmt::decode_message::<i18::far::RequestUpdate>(message)?.into_g().map(|v| v.get()),
			(Kind::Up(0), 1) => Fmt::decode_message::<i18::far::RequestUpdate>(message)?.into_h().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i18::far::ResponseUpdate>(message)?.into_g().map(|v| v.get()),
			(Kind::Down(0), 1) => Fmt::decode_message::<i18::far::ResponseUpdate>(message)?.into_h().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Up(0), 0) => Fmt::encode_message(&i18::far::RequestUpdate::G(Value::make(value))),
			(Kind::Up(0), 1) => Fmt::encode_message(&i18::far::RequestUpdate::H(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i18::far::ResponseUpdate::G(Value::make(value))),
			(Kind::Down(0), 1) => Fmt::encode_message(&i18::far::ResponseUpdate::H(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client18(i18::Client<Fmt>);
impl Client for Client18 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.far(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent18_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server18(i18::Server<Fmt>);
impl Server for Server18 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i18::ReceivedMessage::Request(i18::ReceivedRequestHandle::Far(h, b)) => Got::Request(0, Box::new(Received18_0(h)), b.get()),
			})
		})
	}
}
struct Sent18_0(i18::far::SentRequestHandle<Fmt>);
impl SentOut for Sent18_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_g_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_h_update(&C::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW18_0(i18::far::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW18_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_g_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_h_update(&C::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent18_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW18_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_18_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received18_0(i18::far::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received18_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_g_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_h_update(&C::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW18_0(i18::far::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW18_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_g_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_h_update(&C::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received18_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW18_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_18_0)) })
	}
}

pub mod i19 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I19 {
			service 1 request: B -> B {
				request_update 1 message: B,
				request_update 2 body: B,
				response_update 1 update: B,
				response_update 2 response: B,
			},
			service 2 peer: B -> B,
			service 3 error: B -> B,
			service 4 f: B -> B,
			stream 1 body: B,
			stream 2 encoded: B,
			stream 3 message: B,
		}
	}
}
static SPEC_19: Spec = Spec {
	name: "I19",
	services: &[
		ServiceSpec { name: "request", id: 1, req: Ty::B, resp: Ty::B, up: &[Entry { name: "message", id: 1, ty: Ty::B }, Entry { name: "body", id: 2, ty: Ty::B }], down: &[Entry { name: "update", id: 1, ty: Ty::B }, Entry { name: "response", id: 2, ty: Ty::B }] },
		ServiceSpec { name: "peer", id: 2, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
		ServiceSpec { name: "error", id: 3, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
		ServiceSpec { name: "f", id: 4, req: Ty::B, resp: Ty::B, up: &[], down: &[] },
	],
	streams: &[Entry { name: "body", id: 1, ty: Ty::B }, Entry { name: "encoded", id: 2, ty: Ty::B }, Entry { name: "message", id: 3, ty: Ty::B }],
};
fn open_stream_19(e: i19::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i19::StreamMessage::Body(v) => (0, v.get()),
		i19::StreamMessage::Encoded(v) => (1, v.get()),
		i19::StreamMessage::Message(v) => (2, v.get()),
	};
	if e.is_body() != (index == 0) || e.as_body().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_encoded() != (index == 1) || e.as_encoded().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_message() != (index == 2) || e.as_message().map(|v| v.get()) != (index == 2).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_body().ok().map(|v| v.get()),
		1 => e.into_encoded().ok().map(|v| v.get()),
		2 => e.into_message().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_19_0(e: i19::request::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i19::request::RequestUpdate::Message(v) => (0, v.get()),
		i19::request::RequestUpdate::Body(v) => (1, v.get()),
	};
	if e.is_message() != (index == 0) || e.as_message().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_body() != (index == 1) || e.as_body().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_message().ok().map(|v| v.get()),
		1 => e.into_body().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_19_0(e: i19::request::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i19::request::ResponseUpdate::Update(v) => (0, v.get()),
		i19::request::ResponseUpdate::Response(v) => (1, v.get()),
	};
	if e.is_update() != (index == 0) || e.as_update().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_response() != (index == 1) || e.as_response().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_update().ok().map(|v| v.get()),
		1 => e.into_response().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface19;
impl Iface for Iface19 {
	fn spec(&self) -> &'static Spec {
		&SPEC_19
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client19(i19::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client19(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server19(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server19(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i19::StreamMessage>(message).map(open_stream_19),
			Kind::Up(0) => Fmt::decode_message::<i19::request::RequestUpdate>(message).map(open_up_19_0),
			Kind::Down(0) => Fmt::decode_message::<i19::request::ResponseUpdate>(message).map(open_down_19_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i19::StreamMessage>(message)?.into_body().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i19::StreamMessage>(message)?.into_encoded().map(|v| v.get()),
			(Kind::Stream, 2) => Fmt::decode_message::<i19::StreamMessage>(message)?.into_message().map(|v| v.get()),
			(Kind::Up(0), 0) => Fmt::decode_message::<i19::request::RequestUpdate>(message)?.into_message().map(|v| v.get()),
			(Kind::Up(0), 1) => Fmt::decode_message::<i19::request::RequestUpdate>(message)?.into_body().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i19::request::ResponseUpdate>(message)?.into_update().map(|v| v.get()),
			(Kind::Down(0), 1) => Fmt::decode_message::<i19::request::ResponseUpdate>(message)?.into_response().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i19::StreamMessage::Body(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i19::StreamMessage::Encoded(Value::make(value))),
			(Kind::Stream, 2) => Fmt::encode_message(&i19::StreamMessage::Message(Value::make(value))),
			(Kind::Up(0), 0) => Fmt::encode_message(&i19::request::RequestUpdate::Message(Value::make(value))),
			(Kind::Up(0), 1) => Fmt::encode_message(&i19::request::RequestUpdate::Body(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i19::request::ResponseUpdate::Update(Value::make(value))),
			(Kind::Down(0), 1) => Fmt::encode_message(&i19::request::ResponseUpdate::Response(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client19(i19::Client<Fmt>);
impl Client for Client19 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.request(&B::make(&v)).await.map(|r| Called::Handle(Box::new(Sent19_0(r)))) }),
			1 => Box::pin(async move { c.peer(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			2 => Box::pin(async move { c.error(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			3 => Box::pin(async move { c.f(&B::make(&v)).await.map(|r| Called::Response(r.get())) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_body(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_encoded(&B::make(&v)).await }),
			2 => Box::pin(async move { c.send_message(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server19(i19::Server<Fmt>);
impl Server for Server19 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i19::ReceivedMessage::Request(i19::ReceivedRequestHandle::Request(h, b)) => Got::Request(0, Box::new(Received19_0(h)), b.get()),
				i19::ReceivedMessage::Request(i19::ReceivedRequestHandle::Peer(h, b)) => Got::Request(1, Box::new(Received19_1(h)), b.get()),
				i19::ReceivedMessage::Request(i19::ReceivedRequestHandle::Error(h, b)) => Got::Request(2, Box::new(Received19_2(h)), b.get()),
				i19::ReceivedMessage::Request(i19::ReceivedRequestHandle::F(h, b)) => Got::Request(3, Box::new(Received19_3(h)), b.get()),
				i19::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_19(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Sent19_0(i19::request::SentRequestHandle<Fmt>);
impl SentOut for Sent19_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_message_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_body_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
struct SentW19_0(i19::request::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW19_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_message_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_body_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent19_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW19_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_19_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received19_0(i19::request::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received19_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_update_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_response_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW19_0(i19::request::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW19_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_update_update(&B::make(&v)).await }),
			1 => Box::pin(async move { self.0.send_response_update(&B::make(&v)).await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received19_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW19_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_19_0)) })
	}
}
struct Received19_1(i19::peer::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received19_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW19_1(i19::peer::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW19_1 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received19_1 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW19_1(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}
struct Received19_2(i19::error::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received19_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW19_2(i19::error::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW19_2 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received19_2 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW19_2(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}
struct Received19_3(i19::f::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received19_3 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW19_3(i19::f::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW19_3 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<B>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received19_3 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW19_3(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i20 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I20 {
			stream 1 only: B,
		}
	}
}
static SPEC_20: Spec = Spec {
	name: "I20",
	services: &[
	],
	streams: &[Entry { name: "only", id: 1, ty: Ty::B }],
};
fn open_stream_20(e: i20::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i20::StreamMessage::Only(v) => (0, v.get()),
	};
	if e.is_only() != (index == 0) || e.as_only().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_only().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface20;
impl Iface for Iface20 {
	fn spec(&self) -> &'static Spec {
		&SPEC_20
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client20(i20::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client20(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server20(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server20(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i20::StreamMessage>(message).map(open_stream_20),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i20::StreamMessage>(message)?.into_only().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i20::StreamMessage::Only(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client20(i20::Client<Fmt>);
impl Client for Client20 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_only(&B::make(&v)).await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server20(i20::Server<Fmt>);
impl Server for Server20 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i20::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_20(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}

pub mod i21 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I21 {
			stream 1 first_one: B,
			stream 2 second_one: C,
			stream -1000 third_one: (),
		}
	}
}
static SPEC_21: Spec = Spec {
	name: "I21",
	services: &[
	],
	streams: &[Entry { name: "first_one", id: 1, ty: Ty::B }, Entry { name: "second_one", id: 2, ty: Ty::C }, Entry { name: "third_one", id: -1000, ty: Ty::Unit }],
};
fn open_stream_21(e: i21::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i21::StreamMessage::FirstOne(v) => (0, v.get()),
		i21::StreamMessage::SecondOne(v) => (1, v.get()),
		i21::StreamMessage::ThirdOne(v) => (2, v.get()),
	};
	if e.is_first_one() != (index == 0) || e.as_first_one().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_second_one() != (index == 1) || e.as_second_one().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_third_one() != (index == 2) || e.as_third_one().map(|v| v.get()) != (index == 2).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_first_one().ok().map(|v| v.get()),
		1 => e.into_second_one().ok().map(|v| v.get()),
		2 => e.into_third_one().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface21;
impl Iface for Iface21 {
	fn spec(&self) -> &'static Spec {
		&SPEC_21
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client21(i21::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client21(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server21(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server21(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i21::StreamMessage>(message).map(open_stream_21),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i21::StreamMessage>(message)?.into_first_one().map(|v| v.get()),
			(Kind::Stream, 1) => Fmt::decode_message::<i21::StreamMessage>(message)?.into_second_one().map(|v| v.get()),
			(Kind::Stream, 2) => Fmt::decode_message::<i21::StreamMessage>(message)?.into_third_one().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i21::StreamMessage::FirstOne(Value::make(value))),
			(Kind::Stream, 1) => Fmt::encode_message(&i21::StreamMessage::SecondOne(Value::make(value))),
			(Kind::Stream, 2) => Fmt::encode_message(&i21::StreamMessage::ThirdOne(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client21(i21::Client<Fmt>);
impl Client for Client21 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_first_one(&B::make(&v)).await }),
			1 => Box::pin(async move { c.send_second_one(&C::make(&v)).await }),
			2 => Box::pin(async move { c.send_third_one().await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server21(i21::Server<Fmt>);
impl Server for Server21 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i21::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_21(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}

pub mod i22 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I22 {
			service 0 ping: () -> (),
		}
	}
}
static SPEC_22: Spec = Spec {
	name: "I22",
	services: &[
		ServiceSpec { name: "ping", id: 0, req: Ty::Unit, resp: Ty::Unit, up: &[], down: &[] },
	],
	streams: &[],
};
struct Iface22;
impl Iface for Iface22 {
	fn spec(&self) -> &'static Spec {
		&SPEC_22
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client22(i22::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client22(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server22(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server22(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client22(i22::Client<Fmt>);
impl Client for Client22 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.ping().await.map(|r| Called::Response(r.get())) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server22(i22::Server<Fmt>);
impl Server for Server22 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i22::ReceivedMessage::Request(i22::ReceivedRequestHandle::Ping(h, b)) => Got::Request(0, Box::new(Received22_0(h)), b.get()),
			})
		})
	}
}
struct Received22_0(i22::ping::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received22_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW22_0(i22::ping::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW22_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received22_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW22_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		unreachable!()
	}
}

pub mod i23 {
	#[allow(unused_imports)]
	use crate::fmt::{B, C};
	fizyr_rpc::interface! {
		pub interface I23 {
			service 9 units: () -> () {
				request_update 9 u: (),
				request_update 8 v: (),
				response_update 8 u: (),
				response_update 9 v: (),
			},
			stream 9 u: (),
		}
	}
}
static SPEC_23: Spec = Spec {
	name: "I23",
	services: &[
		ServiceSpec { name: "units", id: 9, req: Ty::Unit, resp: Ty::Unit, up: &[Entry { name: "u", id: 9, ty: Ty::Unit }, Entry { name: "v", id: 8, ty: Ty::Unit }], down: &[Entry { name: "u", id: 8, ty: Ty::Unit }, Entry { name: "v", id: 9, ty: Ty::Unit }] },
	],
	streams: &[Entry { name: "u", id: 9, ty: Ty::Unit }],
};
fn open_stream_23(e: i23::StreamMessage) -> (usize, Val) {
	let (index, value) = match &e {
		i23::StreamMessage::U(v) => (0, v.get()),
	};
	if e.is_u() != (index == 0) || e.as_u().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_u().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_up_23_0(e: i23::units::RequestUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i23::units::RequestUpdate::U(v) => (0, v.get()),
		i23::units::RequestUpdate::V(v) => (1, v.get()),
	};
	if e.is_u() != (index == 0) || e.as_u().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_v() != (index == 1) || e.as_v().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_u().ok().map(|v| v.get()),
		1 => e.into_v().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
fn open_down_23_0(e: i23::units::ResponseUpdate) -> (usize, Val) {
	let (index, value) = match &e {
		i23::units::ResponseUpdate::U(v) => (0, v.get()),
		i23::units::ResponseUpdate::V(v) => (1, v.get()),
	};
	if e.is_u() != (index == 0) || e.as_u().map(|v| v.get()) != (index == 0).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	if e.is_v() != (index == 1) || e.as_v().map(|v| v.get()) != (index == 1).then(|| value.clone()) {
		return (usize::MAX, value);
	}
	let again = match index {
		0 => e.into_u().ok().map(|v| v.get()),
		1 => e.into_v().ok().map(|v| v.get()),
		_ => None,
	};
	if again.as_ref() != Some(&value) {
		return (usize::MAX, value);
	}
	(index, value)
}
struct Iface23;
impl Iface for Iface23 {
	fn spec(&self) -> &'static Spec {
		&SPEC_23
	}
	fn client(&self, peer: PeerWriteHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client23(i23::Client::new(peer)))
	}
	fn client_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Client> {
		Box::new(Client23(peer.into()))
	}
	fn server(&self, peer: PeerReadHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server23(peer.into()))
	}
	fn server_from(&self, peer: PeerHandle<StreamBody>) -> Box<dyn Server> {
		Box::new(Server23(peer.into()))
	}
	fn decode(&self, kind: Kind, message: Message<StreamBody>) -> Result<(usize, Val), Error> {
		match kind {
			Kind::Stream => Fmt::decode_message::<i23::StreamMessage>(message).map(open_stream_23),
			Kind::Up(0) => Fmt::decode_message::<i23::units::RequestUpdate>(message).map(open_up_23_0),
			Kind::Down(0) => Fmt::decode_message::<i23::units::ResponseUpdate>(message).map(open_down_23_0),
			_ => unreachable!("{message:?}"),
		}
	}
	fn decode_into(&self, kind: Kind, message: Message<StreamBody>, variant: usize) -> Result<Val, Error> {
		match (kind, variant) {
			(Kind::Stream, 0) => Fmt::decode_message::<i23::StreamMessage>(message)?.into_u().map(|v| v.get()),
			(Kind::Up(0), 0) => Fmt::decode_message::<i23::units::RequestUpdate>(message)?.into_u().map(|v| v.get()),
			(Kind::Up(0), 1) => Fmt::decode_message::<i23::units::RequestUpdate>(message)?.into_v().map(|v| v.get()),
			(Kind::Down(0), 0) => Fmt::decode_message::<i23::units::ResponseUpdate>(message)?.into_u().map(|v| v.get()),
			(Kind::Down(0), 1) => Fmt::decode_message::<i23::units::ResponseUpdate>(message)?.into_v().map(|v| v.get()),
			_ => unreachable!("{message:?}"),
		}
	}
	fn encode(&self, kind: Kind, variant: usize, value: &[u8]) -> Result<(i32, Vec<u8>), String> {
		let r: Result<(i32, StreamBody), Box<dyn std::error::Error + Send>> = match (kind, variant) {
			(Kind::Stream, 0) => Fmt::encode_message(&i23::StreamMessage::U(Value::make(value))),
			(Kind::Up(0), 0) => Fmt::encode_message(&i23::units::RequestUpdate::U(Value::make(value))),
			(Kind::Up(0), 1) => Fmt::encode_message(&i23::units::RequestUpdate::V(Value::make(value))),
			(Kind::Down(0), 0) => Fmt::encode_message(&i23::units::ResponseUpdate::U(Value::make(value))),
			(Kind::Down(0), 1) => Fmt::encode_message(&i23::units::ResponseUpdate::V(Value::make(value))),
			_ => unreachable!("{value:?}"),
		};
		r.map(|(id, body)| (id, body.data)).map_err(|e| e.to_string())
	}
}
struct Client23(i23::Client<Fmt>);
impl Client for Client23 {
	fn call(&self, service: usize, v: Val) -> Fut<'static, Result<Called, Error>> {
		let _ = &v;
		let c = self.0.clone();
		match service {
			0 => Box::pin(async move { c.units().await.map(|r| Called::Handle(Box::new(Sent23_0(r)))) }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn stream(&self, stream: usize, v: Val) -> Fut<'static, Result<(), Error>> {
		let _ = &v;
		let c = self.0.clone();
		match stream {
			0 => Box::pin(async move { c.send_u().await }),
			_ => unreachable!("{c:?}"),
		}
	}
	fn close(self: Box<Self>) {
		self.0.close()
	}
}
struct Server23(i23::Server<Fmt>);
impl Server for Server23 {
	fn recv(&mut self) -> Fut<'_, Result<Got, RecvMessageError<StreamBody>>> {
		Box::pin(async move {
			let m = self.0.recv_message().await?;
			Ok(match m {
				i23::ReceivedMessage::Request(i23::ReceivedRequestHandle::Units(h, b)) => Got::Request(0, Box::new(Received23_0(h)), b.get()),
				i23::ReceivedMessage::Stream(m) => {
					let (j, v) = open_stream_23(m);
					Got::Stream(j, v)
				},
			})
		})
	}
}
struct Sent23_0(i23::units::SentRequestHandle<Fmt>);
impl SentOut for Sent23_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_u_update().await }),
			1 => Box::pin(async move { self.0.send_v_update().await }),
			_ => unreachable!(),
		}
	}
}
struct SentW23_0(i23::units::SentRequestWriteHandle<Fmt>);
impl SentOut for SentW23_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_u_update().await }),
			1 => Box::pin(async move { self.0.send_v_update().await }),
			_ => unreachable!(),
		}
	}
}
impl Sent for Sent23_0 {
	fn write(&self) -> Box<dyn SentOut> {
		Box::new(SentW23_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_down_23_0)) })
	}
	fn recv_response(&mut self) -> Fut<'_, Result<Val, Error>> {
		Box::pin(async move { self.0.recv_response().await.map(|v| v.get()) })
	}
}
struct Received23_0(i23::units::ReceivedRequestHandle<Fmt>);
impl ReceivedOut for Received23_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_u_update().await }),
			1 => Box::pin(async move { self.0.send_v_update().await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
struct ReceivedW23_0(i23::units::ReceivedRequestWriteHandle<Fmt>);
impl ReceivedOut for ReceivedW23_0 {
	fn ids(&self) -> (u32, i32) {
		(self.0.request_id(), self.0.service_id())
	}
	fn send_update(&self, update: usize, v: Val) -> Fut<'_, Result<(), Error>> {
		let _ = &v;
		match update {
			0 => Box::pin(async move { self.0.send_u_update().await }),
			1 => Box::pin(async move { self.0.send_v_update().await }),
			_ => unreachable!(),
		}
	}
	fn send_response(&self, v: Val) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_response(&<()>::make(&v)).await })
	}
	fn send_error(&self, text: &'static str) -> Fut<'_, Result<(), Error>> {
		Box::pin(async move { self.0.send_error_response(text).await })
	}
}
impl Received for Received23_0 {
	fn write(&self) -> Box<dyn ReceivedOut> {
		Box::new(ReceivedW23_0(self.0.write_handle().clone()))
	}
	fn recv_update(&mut self) -> Fut<'_, Update> {
		Box::pin(async move { Some(self.0.recv_update().await?.map(open_up_23_0)) })
	}
}

pub static ALL: &[&dyn Iface] = &[&Iface0, &Iface1, &Iface2, &Iface3, &Iface4, &Iface5, &Iface6, &Iface7, &Iface8, &Iface9, &Iface10, &Iface11, &Iface12, &Iface13, &Iface14, &Iface15, &Iface16, &Iface17, &Iface18, &Iface19, &Iface20, &Iface21, &Iface22, &Iface23];
