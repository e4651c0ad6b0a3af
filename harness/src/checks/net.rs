//! Peers and listeners over real sockets, for every built-in transport.

use super::bytes::body;
use fizyr_rpc::transport::{Endian, StreamTransport, Transport, UnixTransport};
use fizyr_rpc::util::{Bind, Connect, IntoTransport};
use fizyr_rpc::{Body, ListeningSocket, Peer, PeerHandle, StreamBody, StreamConfig, UnixBody, UnixConfig};
use mc::explore::Res;
use mc::real::*;
use std::future::Future;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::path::Path;
use std::sync::atomic::{AtomicU32, Ordering};
use tokio::net::{TcpListener, TcpStream, UnixListener, UnixStream};
use tokio_seqpacket::{UnixSeqpacket, UnixSeqpacketListener};

pub trait Bytes: Body + From<Vec<u8>> + Send + 'static {
	fn bytes(&self) -> &[u8];
	/// A body with a number of file descriptors, if it can have any.
	fn with_fds(data: Vec<u8>, count: usize) -> Option<Self>;
}

impl Bytes for StreamBody {
	fn bytes(&self) -> &[u8] {
		&self.data
	}
	fn with_fds(_: Vec<u8>, _: usize) -> Option<Self> {
		None
	}
}

impl Bytes for UnixBody {
	fn bytes(&self) -> &[u8] {
		&self.data
	}
	fn with_fds(data: Vec<u8>, count: usize) -> Option<Self> {
		let file = || filedesc::FileDesc::new(std::fs::File::open("/dev/null").expect("open /dev/null").into());
		Some(UnixBody::new(data, (0..count).map(|_| file()).collect::<Vec<_>>()))
	}
}

/// Settings that all transports have.
#[derive(Copy, Clone, Debug)]
pub struct Config {
	pub read: u32,
	pub write: u32,
	pub endian: Endian,
}

impl Config {
	pub fn new(read: u32, write: u32, endian: Endian) -> Self {
		Self { read, write, endian }
	}
}

fn stream_config(c: Config) -> StreamConfig {
	let mut x = StreamConfig::default();
	x.max_body_len_read = c.read;
	x.max_body_len_write = c.write;
	x.endian = c.endian;
	x
}

fn unix_config(c: Config) -> UnixConfig {
	let mut x = UnixConfig::default();
	x.max_fds_read = 2;
	x.max_fds_write = 3;
	x.max_body_len_read = c.read;
	x.max_body_len_write = c.write;
	x.endian = c.endian;
	x
}

/// A built-in transport.
#[allow(async_fn_in_trait)]
pub trait Net: 'static {
	const NAME: &'static str;
	type B: Bytes;
	type Socket: IntoTransport<Body = Self::B, Transport = Self::T> + std::fmt::Debug + 'static;
	type T: Transport<Body = Self::B> + Send + 'static;
	type Listener: ListeningSocket<Body = Self::B> + Unpin + Send + 'static;
	type Address: Clone;

	fn config(c: Config) -> <Self::Socket as IntoTransport>::Config;
	async fn pair() -> (Self::Socket, Self::Socket);
	fn transport(socket: Self::Socket, c: Config) -> Self::T;
	fn address(dir: &Path) -> Self::Address;
	/// Bind a listener with the given configuration. Returns the address to connect to.
	async fn listen(address: Self::Address, c: Config) -> std::io::Result<(fizyr_rpc::Listener<Self::Listener>, Self::Address)>;
	async fn connect(address: Self::Address) -> std::io::Result<Self::Socket>;
	async fn connect_peer(address: Self::Address, c: Config) -> std::io::Result<(PeerHandle<Self::B>, <Self::T as Transport>::Info)>;
	/// Connect without giving any other task a chance to run.
	fn connect_now(address: &Self::Address) -> std::io::Result<Self::Socket>;
	/// Send raw bytes.
	fn send_raw(socket: &Self::Socket, data: &[u8]) {
		unsafe {
			libc::send(Self::fd(socket), data.as_ptr() as *const _, data.len(), libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT);
		}
	}
	fn fd(socket: &Self::Socket) -> RawFd;
	/// Close a connection as abruptly as possible.
	fn abort(socket: Self::Socket);
	/// Does the information describe this client?
	fn check_info(info: &<Self::Listener as ListeningSocket>::TransportInfo, client: &ClientId<Self::Address>, server: &Self::Address) -> Result<(), String>;
	fn client_id(socket: &Self::Socket) -> ClientId<Self::Address>;
	/// Check the information that a client has about its connection, and return how the server recognizes it.
	fn info_id(info: &<Self::T as Transport>::Info, server: &Self::Address) -> Result<ClientId<Self::Address>, String>;
}

/// How a server can recognize a client.
#[derive(Debug, Clone, PartialEq)]
pub enum ClientId<A> {
	Address(A),
	Process { pid: Option<i32>, uid: u32, gid: u32 },
}

pub fn own_process<A>() -> ClientId<A> {
	ClientId::Process { pid: Some(std::process::id() as i32), uid: unsafe { libc::getuid() }, gid: unsafe { libc::getgid() } }
}

pub struct Tcp;
pub struct Stream;
pub struct Seqpacket;

static TCP_COUNTER: AtomicU32 = AtomicU32::new(0);

/// Different loopback addresses, so that closed connections do not use up the ports.
fn tcp_address() -> std::net::SocketAddr {
	let n = TCP_COUNTER.fetch_add(1, Ordering::Relaxed);
	let [_, a, b, c] = (n % 0xfffffe + 1).to_be_bytes();
	std::net::SocketAddr::from(([127, a, b, c], 0))
}

impl Net for Tcp {
	const NAME: &'static str = "tcp";
	type B = StreamBody;
	type Socket = TcpStream;
	type T = StreamTransport<TcpStream>;
	type Listener = TcpListener;
	type Address = std::net::SocketAddr;

	fn config(c: Config) -> StreamConfig {
		stream_config(c)
	}
	async fn pair() -> (TcpStream, TcpStream) {
		let listener = TcpListener::bind(tcp_address()).await.expect("bind");
		let a = TcpStream::connect(listener.local_addr().unwrap()).await.expect("connect");
		let (b, _) = listener.accept().await.expect("accept");
		// Otherwise the kernel holds data back for a while.
		a.set_nodelay(true).expect("set TCP_NODELAY");
		b.set_nodelay(true).expect("set TCP_NODELAY");
		(a, b)
	}
	fn transport(socket: TcpStream, c: Config) -> Self::T {
		socket.into_transport(stream_config(c))
	}
	fn address(_dir: &Path) -> Self::Address {
		tcp_address()
	}
	async fn listen(address: Self::Address, c: Config) -> std::io::Result<(fizyr_rpc::Listener<TcpListener>, Self::Address)> {
		let listener = <TcpListener as Bind<Self::Address>>::bind(address).await?;
		let address = listener.local_addr()?;
		Ok((fizyr_rpc::Listener::new(listener, stream_config(c)), address))
	}
	async fn connect(address: Self::Address) -> std::io::Result<TcpStream> {
		TcpStream::connect(address).await
	}
	async fn connect_peer(address: Self::Address, c: Config) -> std::io::Result<(PeerHandle<StreamBody>, <Self::T as Transport>::Info)> {
		Peer::<Self::T>::connect(address, stream_config(c)).await
	}
	fn connect_now(address: &Self::Address) -> std::io::Result<TcpStream> {
		let s = std::net::TcpStream::connect(address)?;
		s.set_nonblocking(true)?;
		s.set_nodelay(true)?;
		TcpStream::from_std(s)
	}
	fn fd(socket: &TcpStream) -> RawFd {
		std::os::fd::AsRawFd::as_raw_fd(socket)
	}
	fn abort(socket: TcpStream) {
		// This makes the kernel send a reset.
		let l = libc::linger { l_onoff: 1, l_linger: 0 };
		unsafe {
			libc::setsockopt(Self::fd(&socket), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32);
		}
		drop(socket);
	}
	fn check_info(info: &fizyr_rpc::transport::TcpStreamInfo, client: &ClientId<Self::Address>, server: &Self::Address) -> Result<(), String> {
		if info.local_address() != server {
			return Err(format!("the local address {} is not {server}", info.local_address()));
		}
		match client {
			ClientId::Address(x) if x == info.remote_address() => Ok(()),
			x => Err(format!("the remote address {} is not {x:?}", info.remote_address())),
		}
	}
	fn client_id(socket: &TcpStream) -> ClientId<Self::Address> {
		ClientId::Address(socket.local_addr().expect("local address"))
	}
	fn info_id(info: &fizyr_rpc::transport::TcpStreamInfo, server: &Self::Address) -> Result<ClientId<Self::Address>, String> {
		if info.remote_address() != server {
			return Err(format!("the remote address {} is not {server}", info.remote_address()));
		}
		Ok(ClientId::Address(*info.local_address()))
	}
}

/// A non-blocking socket that is connected to a path.
pub fn connect_unix(path: &Path, kind: i32) -> std::io::Result<OwnedFd> {
	use std::os::unix::ffi::OsStrExt;
	let path = path.as_os_str().as_bytes();
	unsafe {
		let fd = libc::socket(libc::AF_UNIX, kind | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0);
		if fd < 0 {
			return Err(std::io::Error::last_os_error());
		}
		let fd = OwnedFd::from_raw_fd(fd);
		let mut a: libc::sockaddr_un = std::mem::zeroed();
		a.sun_family = libc::AF_UNIX as _;
		assert!(path.len() < a.sun_path.len());
		for (x, y) in a.sun_path.iter_mut().zip(path) {
			*x = *y as _;
		}
		if libc::connect(fd.as_raw_fd(), &a as *const _ as *const _, std::mem::size_of_val(&a) as u32) < 0 {
			return Err(std::io::Error::last_os_error());
		}
		Ok(fd)
	}
}

macro_rules! unix_net {
	($net:ident, $name:literal, $body:ty, $socket:ty, $transport:ty, $listener:ty, $config:ident, $info:ty, $type:expr, $wrap:expr) => {
		impl Net for $net {
			const NAME: &'static str = $name;
			type B = $body;
			type Socket = $socket;
			type T = $transport;
			type Listener = $listener;
			type Address = std::path::PathBuf;

			fn config(c: Config) -> <Self::Socket as IntoTransport>::Config {
				$config(c)
			}
			async fn pair() -> ($socket, $socket) {
				<$socket>::pair().expect("socket pair")
			}
			fn transport(socket: $socket, c: Config) -> Self::T {
				socket.into_transport($config(c))
			}
			fn address(dir: &Path) -> Self::Address {
				dir.join("socket")
			}
			async fn listen(address: Self::Address, c: Config) -> std::io::Result<(fizyr_rpc::Listener<$listener>, Self::Address)> {
				let listener = fizyr_rpc::Listener::<$listener>::bind(address.as_path(), $config(c)).await?;
				Ok((listener, address))
			}
			async fn connect(address: Self::Address) -> std::io::Result<$socket> {
				<$socket>::connect(address).await
			}
			async fn connect_peer(address: Self::Address, c: Config) -> std::io::Result<(PeerHandle<Self::B>, <Self::T as Transport>::Info)> {
				Peer::<Self::T>::connect(address.as_path(), $config(c)).await
			}
			fn connect_now(address: &Self::Address) -> std::io::Result<$socket> {
				let fd = connect_unix(address, $type)?;
				$wrap(fd)
			}
			fn fd(socket: &$socket) -> RawFd {
				std::os::fd::AsRawFd::as_raw_fd(&std::os::fd::AsFd::as_fd(socket))
			}
			fn abort(socket: $socket) {
				drop(socket);
			}
			fn check_info(info: &$info, client: &ClientId<Self::Address>, _server: &Self::Address) -> Result<(), String> {
				let x = ClientId::Process { pid: info.process_id(), uid: info.user_id(), gid: info.group_id() };
				if x == *client {
					Ok(())
				} else {
					Err(format!("the remote process {x:?} is not {client:?}"))
				}
			}
			fn client_id(_socket: &$socket) -> ClientId<Self::Address> {
				own_process()
			}
			fn info_id(info: &$info, server: &Self::Address) -> Result<ClientId<Self::Address>, String> {
				Self::check_info(info, &own_process(), server)?;
				Ok(own_process())
			}
		}
	};
}

unix_net!(Stream, "unix stream", StreamBody, UnixStream, StreamTransport<UnixStream>, UnixListener, stream_config, fizyr_rpc::transport::UnixStreamInfo, libc::SOCK_STREAM, |fd: OwnedFd| UnixStream::from_std(fd.into()));
unix_net!(Seqpacket, "unix seqpacket", UnixBody, UnixSeqpacket, UnixTransport<UnixSeqpacket>, UnixSeqpacketListener, unix_config, fizyr_rpc::transport::UnixSeqpacketInfo, libc::SOCK_SEQPACKET, UnixSeqpacket::try_from);

/// Two connected peers.
pub async fn peers<N: Net>(a: Config, b: Config) -> (PeerHandle<N::B>, PeerHandle<N::B>) {
	let (x, y) = N::pair().await;
	(Peer::spawn(N::transport(x, a)), Peer::spawn(N::transport(y, b)))
}

pub fn data<B: Bytes>(len: usize, salt: u8) -> B {
	B::from(body(len, salt))
}

/// Let data travel. It may take longer over TCP.
pub async fn deliver<N: Net>() {
	settle().await;
}

pub async fn send_ok<T>(what: &str, f: impl Future<Output = Result<T, fizyr_rpc::Error>>) -> Res<T> {
	match must(what, f).await? {
		Ok(x) => Ok(x),
		Err(e) => Err(format!("{what} failed: {e}").into()),
	}
}
