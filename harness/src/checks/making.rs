//! Every way to make a connection, with a raw socket as the other end: it must follow its configuration.

use super::bytes::body;
use super::net::*;
use fizyr_rpc::transport::{Endian, StreamTransport, Transport, UnixTransport};
use fizyr_rpc::util::{self, Bind, Connect, IntoTransport};
use fizyr_rpc::{Listener, MessageHeader, Peer, PeerHandle, ReceivedMessage, StreamBody, StreamConfig, UnixBody, UnixConfig};
use mc::explore::{Ctx, Res};
use mc::mock::Msg;
use mc::pipe::{encode_frame, encode_header};
use mc::real::*;
use mc::report::Check;
use mc::{check, fail};
use std::os::fd::{AsFd, AsRawFd, RawFd};
use std::path::Path;
use std::pin::pin;

/// What a configuration says.
#[derive(Copy, Clone, Debug)]
struct Fields {
	read: u32,
	write: u32,
	fds_read: u32,
	fds_write: u32,
	endian: Endian,
}

/// The configurations other than the default one.
const FIELDS: [Fields; 3] = [
	Fields { read: 0, write: 5, fds_read: 0, fds_write: 1, endian: Endian::BigEndian },
	Fields { read: 70_000, write: 3, fds_read: 2, fds_write: 0, endian: Endian::LittleEndian },
	Fields { read: 4, write: 60_000, fds_read: 1, fds_write: 12, endian: Endian::NativeEndian },
];

const WAYS: [&str; 14] = [
	"spawned from a new transport",
	"spawned from a socket",
	"run after it was made from a transport",
	"run after it was made from a socket and the transport was accessed",
	"connected",
	"spawned from a connected transport",
	"accepted by a listener",
	"accepted by a listener bound to an address",
	"served by a running listener",
	"accepted by a listener behind a box",
	"accepted by a listener as the third one",
	"spawned from a socket that was taken out of another transport",
	"spawned from a new transport without configuration",
	"spawned from a socket without configuration",
];
/// The last ways are for the default configuration.
const CONFIGURED: usize = 12;

type Made<N> = (PeerHandle<<N as Net>::B>, <N as Net>::Socket, Vec<Box<dyn std::any::Any>>);

#[allow(async_fn_in_trait)]
trait Make: Net {
	type Conf: Clone + Default;
	/// Can messages carry file descriptors?
	const FDS: bool;
	fn conf(f: Fields) -> Self::Conf;
	fn fields(c: &Self::Conf) -> Fields;
	fn fds(b: &Self::B) -> usize;
	async fn make(way: usize, c: Self::Conf, dir: &Path) -> Res<Made<Self>>
	where
		Self: Sized;
}

macro_rules! make {
	($net:ident, $body:ty, $socket:ty, $transport:ty, $listener:ty, $conf:ty, $look:ident, $take:ident, $fds:expr, $conf_of:expr, $fields_of:expr, $count:expr, $address:ident: $bind:expr, $connect:expr, $bound:expr) => {
		impl Make for $net {
			type Conf = $conf;
			const FDS: bool = $fds;
			fn conf(f: Fields) -> $conf {
				let mut c = <$conf>::default();
				$conf_of(&mut c, f);
				c
			}
			fn fields(c: &$conf) -> Fields {
				$fields_of(c)
			}
			fn fds(b: &$body) -> usize {
				$count(b)
			}
			async fn make(way: usize, c: $conf, dir: &Path) -> Res<Made<Self>> {
				let mut kept: Vec<Box<dyn std::any::Any>> = Vec::new();
				match way {
					0..=3 | 11..=13 => {
						let (socket, raw) = Self::pair().await;
						let fd = Self::fd(&socket);
						let transport: $transport = match way {
							0 | 2 => <$transport>::new(socket, c),
							1 | 3 => socket.into_transport(c),
							11 => {
								let other = Self::conf(Fields { read: 1, write: 2, fds_read: 3, fds_write: 4, endian: Endian::BigEndian });
								let transport = <$transport>::new(socket, other);
								let socket = transport.$take();
								check!(Self::fd(&socket) == fd, "another socket comes out of a transport");
								socket.into_transport(c)
							},
							12 => <$transport>::new_default(socket),
							_ => socket.into_default_transport(),
						};
						check!(Self::fd(transport.$look()) == fd, "a transport has another socket");
						let peer = match way {
							2 => {
								let (peer, handle) = Peer::new(transport);
								check!(Self::fd(peer.transport().$look()) == fd, "the transport of a peer has another socket");
								tokio::spawn(peer.run());
								handle
							},
							3 => {
								let (mut peer, handle) = Peer::new(transport);
								drop(peer.transport_mut().split());
								check!(peer.transport_mut().info().is_ok(), "there is no information about a connection");
								tokio::spawn(peer.run());
								handle
							},
							_ => Peer::spawn(transport),
						};
						Ok((peer, raw, kept))
					},
					4 | 5 => {
						let $address = Self::address(dir);
						let mut listener: $listener = $bind.await.expect("bind");
						let $address = $bound(&listener, $address);
						let peer = if way == 4 {
							must("connect", Peer::<$transport>::connect($connect, c)).await?.expect("connect").0
						} else {
							let transport = must("connect", <$transport as Connect<_>>::connect($connect, c)).await?.expect("connect");
							Peer::spawn(transport)
						};
						let (raw, _) = must("accept", util::Listener::accept(&mut listener)).await?.expect("accept");
						Ok((peer, raw, kept))
					},
					_ => {
						let $address = Self::address(dir);
						if way == 9 {
							let listener: $listener = $bind.await.expect("bind");
							let $address = $bound(&listener, $address);
							let mut listener = Listener::new(Box::new(listener), c);
							let raw = must("connect", Self::connect($address)).await?.expect("connect");
							let (peer, _) = must("accept", listener.accept()).await?.expect("accept");
							return Ok((peer, raw, kept));
						}
						// The default configuration comes from the listener too.
						let (mut listener, $address) = if way == 7 {
							Self::bound($address, c).await
						} else {
							let listener: $listener = $bind.await.expect("bind");
							let $address = $bound(&listener, $address);
							(Listener::new(listener, c), $address)
						};
						if way == 8 {
							let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
							tokio::spawn(async move {
								let _ = listener.run(move |peer, info| {
									let _ = tx.send((peer, info));
									async {}
								}).await;
							});
							let raw = must("connect", Self::connect($address)).await?.expect("connect");
							let Some((peer, _)) = must("accept", rx.recv()).await? else { fail!("the listener stopped") };
							return Ok((peer, raw, kept));
						}
						if way == 10 {
							for _ in 0..2 {
								let raw = must("connect", Self::connect($address.clone())).await?.expect("connect");
								let (peer, _) = must("accept", listener.accept()).await?.expect("accept");
								kept.push(Box::new((peer, raw)));
							}
						}
						let raw = must("connect", Self::connect($address)).await?.expect("connect");
						let (peer, _) = must("accept", listener.accept()).await?.expect("accept");
						Ok((peer, raw, kept))
					},
				}
			}
		}
	};
}

fn of_stream(x: &mut StreamConfig, f: Fields) {
	(x.max_body_len_read, x.max_body_len_write, x.endian) = (f.read, f.write, f.endian);
}

fn stream_fields(x: &StreamConfig) -> Fields {
	Fields { read: x.max_body_len_read, write: x.max_body_len_write, fds_read: 0, fds_write: 0, endian: x.endian }
}

fn of_unix(x: &mut UnixConfig, f: Fields) {
	(x.max_body_len_read, x.max_body_len_write, x.endian) = (f.read, f.write, f.endian);
	(x.max_fds_read, x.max_fds_write) = (f.fds_read, f.fds_write);
}

fn unix_fields(x: &UnixConfig) -> Fields {
	Fields { read: x.max_body_len_read, write: x.max_body_len_write, fds_read: x.max_fds_read, fds_write: x.max_fds_write, endian: x.endian }
}

type Address<N> = <N as Net>::Address;

/// A listener that was bound by the library.
trait Bound: Net {
	fn bound(address: Address<Self>, c: Self::Config) -> impl std::future::Future<Output = (Listener<Self::Listener>, Address<Self>)>;
	type Config;
}

impl Bound for Tcp {
	type Config = StreamConfig;
	async fn bound(address: Address<Self>, c: StreamConfig) -> (Listener<Self::Listener>, Address<Self>) {
		// A listener does not tell its address: take a port that is free.
		for _ in 0..100 {
			let port = {
				let x = std::net::TcpListener::bind(address).expect("bind");
				x.local_addr().expect("address").port()
			};
			let address = std::net::SocketAddr::new(address.ip(), port);
			if let Ok(x) = Listener::<tokio::net::TcpListener>::bind(address, c.clone()).await {
				return (x, address);
			}
		}
		panic!("there is no free port");
	}
}
impl Bound for Stream {
	type Config = StreamConfig;
	async fn bound(address: Address<Self>, c: StreamConfig) -> (Listener<Self::Listener>, Address<Self>) {
		(Listener::bind(address.clone(), c).await.expect("bind"), address)
	}
}
impl Bound for Seqpacket {
	type Config = UnixConfig;
	async fn bound(address: Address<Self>, c: UnixConfig) -> (Listener<Self::Listener>, Address<Self>) {
		(Listener::bind(address.clone(), c).await.expect("bind"), address)
	}
}

make!(Tcp, StreamBody, tokio::net::TcpStream, StreamTransport<tokio::net::TcpStream>, tokio::net::TcpListener, StreamConfig, stream, into_stream, false, of_stream, stream_fields, |_: &StreamBody| 0,
	address: <tokio::net::TcpListener as Bind<_>>::bind(address), (address.ip(), address.port()), |l: &tokio::net::TcpListener, _| l.local_addr().expect("address"));
make!(Stream, StreamBody, tokio::net::UnixStream, StreamTransport<tokio::net::UnixStream>, tokio::net::UnixListener, StreamConfig, stream, into_stream, false, of_stream, stream_fields, |_: &StreamBody| 0,
	address: <tokio::net::UnixListener as Bind<_>>::bind(address.clone()), address.to_str().expect("a path").to_string(), |_: &tokio::net::UnixListener, x| x);
make!(Seqpacket, UnixBody, tokio_seqpacket::UnixSeqpacket, UnixTransport<tokio_seqpacket::UnixSeqpacket>, tokio_seqpacket::UnixSeqpacketListener, UnixConfig, socket, into_socket, true, of_unix, unix_fields, |b: &UnixBody| b.fds.len(),
	address: <tokio_seqpacket::UnixSeqpacketListener as Bind<_>>::bind(address.clone()), address.to_str().expect("a path").to_string(), |_: &tokio_seqpacket::UnixSeqpacketListener, x| x);

fn frame<N: Make>(m: &Msg, endian: Endian) -> Vec<u8> {
	if N::FDS {
		let mut x = encode_header(m, endian);
		x.extend(&m.body);
		x
	} else {
		encode_frame(m, endian)
	}
}

const PROBES: [&str; 8] = ["the largest body is sent", "a larger body is sent", "the largest body is received", "most descriptors are sent", "more descriptors are sent", "most descriptors are received", "more descriptors are received", "a larger body is received"];

struct Connection<N: Make> {
	peer: PeerHandle<N::B>,
	raw: N::Socket,
	fields: Fields,
	ended: bool,
	_kept: Vec<Box<dyn std::any::Any>>,
}

/// What arrives at the raw socket.
async fn arrives<N: Make>(raw: &N::Socket, expected: &[u8], fds: usize) -> Res {
	let (mut data, mut files) = (Vec::new(), 0);
	let mut failed = None;
	until("a message does not arrive", || {
		match raw_recv(N::fd(raw)) {
			Ok(Some((d, f))) => {
				if d.is_empty() {
					failed = Some("the connection was closed".to_string());
				}
				data.extend(d);
				files += f.len();
			},
			Ok(None) => {},
			Err(e) => failed = Some(e.to_string()),
		}
		failed.is_some() || data.len() >= expected.len()
	})
	.await?;
	check!(failed.is_none(), "{failed:?} instead of a message");
	check!(data == expected, "{} bytes are transmitted: {:?} instead of {} bytes: {:?}", data.len(), &data[..data.len().min(40)], expected.len(), &expected[..expected.len().min(40)]);
	check!(files == fds, "{files} descriptors instead of {fds} are transmitted");
	Ok(())
}

impl<N: Make> Connection<N> {
	/// Is there such a probe? (Only messages of some transports have descriptors.)
	fn has(&self, probe: usize) -> bool {
		(N::FDS || ![3, 4, 5, 6].contains(&probe)) && !self.ended
	}

	async fn probe(&mut self, probe: usize, n: usize) -> Res {
		let f = self.fields;
		let header = MessageHeader::stream(0, 0x0102 + n as i32);
		match probe {
			0 | 1 | 3 | 4 => {
				let len = if probe < 2 { f.write as usize + probe } else { f.write.min(1) as usize };
				let fds = if probe < 2 { 0 } else { f.fds_write as usize + probe - 3 };
				let b = if fds > 0 { N::B::with_fds(body(len, n as u8), fds).expect("a body with descriptors") } else { data::<N::B>(len, n as u8) };
				let r = must("send_stream", self.peer.send_stream(header.service_id, b)).await?;
				check!(r.is_ok() == (probe == 0 || probe == 3), "sending {len} bytes with {fds} descriptors results in {r:?}");
				if r.is_ok() {
					arrives::<N>(&self.raw, &frame::<N>(&Msg::new(header, body(len, n as u8)), f.endian), fds).await?;
				} else {
					settle().await;
					let r = raw_recv(N::fd(&self.raw));
					check!(matches!(r, Ok(None)), "something was transmitted: {r:?}");
				}
			},
			_ => {
				let len = match probe {
					2 => f.read as usize,
					7 => f.read as usize + 1,
					_ => f.read.min(1) as usize,
				};
				let fds = match probe {
					5 => f.fds_read as usize,
					6 => f.fds_read as usize + 1,
					_ => 0,
				};
				let file = std::fs::File::open("/dev/null").expect("open /dev/null");
				let files: Vec<RawFd> = (0..fds).map(|_| file.as_fd().as_raw_fd()).collect();
				let bytes = frame::<N>(&Msg::new(header, body(len, n as u8)), f.endian);
				let mut sent = 0;
				while sent < bytes.len() {
					match raw_send(N::fd(&self.raw), &bytes[sent..], &files) {
						Ok(n) => sent += n,
						Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => settle().await,
						Err(e) if probe == 7 => {
							let _ = e;
							break;
						},
						Err(e) => fail!("the other end can not send: {e}"),
					}
				}
				match must("recv_message", self.peer.recv_message()).await? {
					Ok(ReceivedMessage::Stream(m)) => {
						check!(probe == 2 || probe == 5, "{len} bytes with {fds} descriptors are received");
						check!(m.header == header && m.body.bytes() == body(len, n as u8) && N::fds(&m.body) == fds, "received {m:?}");
					},
					Err(e) => {
						check!(probe > 5, "receiving {len} bytes with {fds} descriptors fails: {e}");
						check!(!e.is_connection_aborted(), "a message beyond the limits was reported as a closed connection");
						// A byte stream can not go on.
						self.ended = !N::FDS;
					},
					m => fail!("received {m:?}"),
				}
			},
		}
		Ok(())
	}
}

/// Choose a way and a configuration, and make a connection.
fn choose(ctx: &mut Ctx) -> (usize, Option<Fields>) {
	let config = ctx.choose(FIELDS.len() + 1);
	let way = ctx.choose(if config == 0 { WAYS.len() } else { CONFIGURED });
	(way, (config > 0).then(|| FIELDS[config - 1]))
}

async fn connection<N: Make>(ctx: &mut Ctx, (way, config): (usize, Option<Fields>), dir: &Path) -> Res<Connection<N>> {
	let conf = config.map_or(N::Conf::default(), N::conf);
	let fields = N::fields(&conf);
	ctx.step();
	ctx.log(|| format!("a connection that is {} with {}{fields:?}", WAYS[way], if config.is_none() { "the default " } else { "" }));
	let (peer, raw, kept) = N::make(way, conf, dir).await?;
	Ok(Connection { peer, raw, fields, ended: false, _kept: kept })
}

/// All sequences of probes of a connection that is made in any way.
fn single<N: Make>(ctx: &mut Ctx, depth: usize) -> Res {
	let which = choose(ctx);
	let probes: Vec<usize> = (0..depth).map(|_| ctx.choose(PROBES.len())).collect();
	block_on(async {
		let dir = Scratch::new();
		let mut c = connection::<N>(ctx, which, &dir.0).await?;
		for (n, probe) in probes.into_iter().enumerate() {
			if !c.has(probe) {
				break;
			}
			ctx.step();
			ctx.log(|| PROBES[probe].into());
			c.probe(probe, n).await?;
			ctx.observe(&[probe as u8, c.ended as u8]);
		}
		Ok(())
	})
}

/// Two connections at once do not affect each other.
fn double<N: Make>(ctx: &mut Ctx) -> Res {
	let (first, second) = (choose(ctx), choose(ctx));
	block_on(async {
		let (x, y) = (Scratch::new(), Scratch::new());
		let mut a = connection::<N>(ctx, first, &x.0).await?;
		a.probe(0, 0).await?;
		let mut b = connection::<N>(ctx, second, &y.0).await?;
		for probe in 0..PROBES.len() {
			for (n, c) in [&mut a, &mut b].into_iter().enumerate() {
				if c.has(probe) {
					ctx.step();
					ctx.log(|| format!("{}: {}", ["first", "second"][n], PROBES[probe]));
					c.probe(probe, n + probe).await?;
				}
			}
		}
		Ok(())
	})
}

/// Whatever a connection with the default configuration may send, another one accepts.
fn defaults<N: Make>(ctx: &mut Ctx) -> Res {
	let (first, second) = (ctx.choose(WAYS.len()), ctx.choose(WAYS.len()));
	let part = ctx.choose(4);
	let fds = if N::FDS { ctx.choose(3) } else { 0 };
	block_on(async {
		let (x, y) = (Scratch::new(), Scratch::new());
		let a = connection::<N>(ctx, (first, None), &x.0).await?;
		let mut b = connection::<N>(ctx, (second, None), &y.0).await?;
		let f = a.fields;
		let len = [0, 1, f.write as usize / 2, f.write as usize][part];
		let fds = [0, 1, f.fds_write as usize][fds];
		let message = if fds > 0 { N::B::with_fds(body(len, 3), fds).expect("a body with descriptors") } else { data::<N::B>(len, 3) };
		send_ok("send_stream", a.peer.send_stream(9, message)).await?;
		// The raw ends pass it on.
		let mut passed = 0;
		let expected = frame::<N>(&Msg::new(MessageHeader::stream(0, 9), body(len, 3)), f.endian).len();
		while passed < expected {
			let mut received = None;
			until("a message does not arrive", || {
				received = raw_recv(N::fd(&a.raw)).ok().flatten();
				received.is_some()
			})
			.await?;
			let Some((bytes, files)) = received else { fail!("a message does not arrive") };
			check!(!bytes.is_empty(), "the connection was closed");
			let files: Vec<RawFd> = files.iter().map(|x| x.as_raw_fd()).collect();
			let mut sent = 0;
			while sent < bytes.len() {
				match raw_send(N::fd(&b.raw), &bytes[sent..], &files) {
					Ok(n) => sent += n,
					Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => settle().await,
					Err(e) => fail!("the message can not be passed on: {e}"),
				}
			}
			passed += bytes.len();
		}
		let received = must("recv_message", pin!(b.peer.recv_message())).await?;
		match received {
			Ok(ReceivedMessage::Stream(m)) => check!(m.header == MessageHeader::stream(0, 9) && m.body.bytes() == body(len, 3) && N::fds(&m.body) == fds, "received {m:?}"),
			m => fail!("{len} bytes with {fds} descriptors are sent but not accepted by default: {m:?}"),
		}
		Ok(())
	})
}

pub fn p30(c: &mut Check) {
	fn one<N: Make>(c: &mut Check, depth: usize) {
		c.run_opts(&format!("{}: every way to make a connection, sequences of {depth}", N::NAME), opts(), move |ctx: &mut Ctx| single::<N>(ctx, depth));
		c.run_opts(&format!("{}: two connections at once", N::NAME), opts(), double::<N>);
		c.run_opts(&format!("{}: default configurations fit each other", N::NAME), opts(), defaults::<N>);
	}
	let depth = c.bound(3, 4);
	one::<Stream>(c, depth as usize);
	one::<Seqpacket>(c, depth as usize);
	one::<Tcp>(c, 2);
}
