//! Listeners over real sockets: clients that come and go, cancelled accepts, and what is at the path of a socket.

use super::bytes::body;
use super::net::*;
use fizyr_rpc::transport::Endian;
use fizyr_rpc::{ListeningSocket, PeerHandle, ReceivedMessage};
use mc::explore::{Ctx, Res};
use mc::real::*;
use mc::report::Check;
use mc::{check, fail};
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::os::unix::fs::{FileTypeExt, MetadataExt};
use std::path::{Path, PathBuf};
use std::pin::pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

const LIMIT: usize = 16;

/// The configuration of the listener: limits and byte order differ from the defaults.
pub fn server_config() -> Config {
	Config::new(LIMIT as u32, LIMIT as u32, Endian::BigEndian)
}

pub fn client_config() -> Config {
	Config::new(100, 100, Endian::BigEndian)
}

/// Serve one client: echo, or check the send limit.
async fn serve<B: Bytes>(mut peer: PeerHandle<B>, tag: u8) {
	loop {
		match peer.recv_message().await {
			Ok(ReceivedMessage::Request(request, b)) => {
				let mut data = b.bytes().to_vec();
				data.push(tag);
				if request.service_id() == 2 {
					let refused = request.send_response(2, body(LIMIT + 1, 0)).await.is_err();
					data = vec![refused as u8, tag];
				}
				let _ = request.send_response(1, data).await;
			},
			Ok(ReceivedMessage::Stream(_)) => (),
			Err(e) if e.is_connection_aborted() => return,
			Err(_) => (),
		}
	}
}

/// Exchange messages with the server. Returns the tag of the server side.
async fn exchange<B: Bytes>(peer: &mut PeerHandle<B>, salt: u8) -> Res<u8> {
	let mut tags = Vec::new();
	for (service, len) in [(1, LIMIT - 1), (2, 0), (1, 3)] {
		let data = body(len, salt);
		let mut sent = send_ok("sending a request to the server", peer.send_request(service, data.clone())).await?;
		let m = send_ok("receiving the response of the server", sent.recv_response()).await?;
		let b = m.body.bytes();
		check!(!b.is_empty(), "the response is empty");
		tags.push(b[b.len() - 1]);
		if service == 2 {
			check!(b[..b.len() - 1] == [1], "the server could exceed its send limit: {b:?}");
		} else {
			check!(b[..b.len() - 1] == data, "the response is {b:?}");
		}
	}
	check!(tags.iter().all(|t| *t == tags[0]), "several peers serve the same client: {tags:?}");
	Ok(tags[0])
}

enum Client<N: Net> {
	Raw(N::Socket, bool),
	Peer(PeerHandle<N::B>, ClientId<N::Address>, Option<u8>),
}

type Infos<N> = Arc<Mutex<Vec<<<N as Net>::Listener as ListeningSocket>::TransportInfo>>>;

async fn clients<N: Net>(ctx: &mut Ctx, slots: usize, depth: usize) -> Res {
	let dir = Scratch::new();
	let (mut listener, address) = N::listen(N::address(&dir.0), server_config()).await.expect("bind");
	let infos: Infos<N> = Default::default();
	let ended = Rc::new(RefCell::new(None));
	let own_loop = ctx.choose(2) == 1;
	{
		let infos = infos.clone();
		let ended = ended.clone();
		tokio::task::spawn_local(async move {
			let mut handler = move |peer, info| {
				let mut infos = infos.lock().unwrap();
				let tag = infos.len() as u8;
				infos.push(info);
				serve::<N::B>(peer, tag)
			};
			let r = if own_loop {
				loop {
					match listener.accept().await {
						Ok((peer, info)) => {
							tokio::spawn(handler(peer, info));
						},
						Err(e) => break Err(e),
					}
				}
			} else {
				listener.run(handler).await
			};
			*ended.borrow_mut() = Some(match r {
				Ok(()) => "no error".to_string(),
				Err(e) => e.to_string(),
			});
		});
	}
	let mut all: Vec<Option<Client<N>>> = (0..slots).map(|_| None).collect();
	let mut connections = 0;
	let mut tags: HashMap<u8, usize> = HashMap::new();

	async fn talk<N: Net>(
		client: &mut Client<N>,
		number: usize,
		tags: &mut HashMap<u8, usize>,
		infos: &Infos<N>,
		address: &N::Address,
	) -> Res {
		let Client::Peer(peer, id, known) = client else { unreachable!() };
		let tag = exchange(peer, number as u8).await?;
		match known {
			Some(x) => check!(*x == tag, "another peer serves the client now"),
			None => {
				check!(tags.insert(tag, number).is_none(), "one peer serves two clients");
				*known = Some(tag);
			},
		}
		let infos = infos.lock().unwrap();
		check!((tag as usize) < infos.len(), "no such peer");
		N::check_info(&infos[tag as usize], id, address).map_err(|e| format!("wrong connection information: {e}"))?;
		Ok(())
	}

	for step in 0..depth {
		ctx.step();
		let mut ops = vec![("let the server run", 0)];
		for (i, c) in all.iter().enumerate() {
			match c {
				None => ops.push(("connect", i)),
				Some(Client::Raw(_, clean)) => {
					if *clean {
						ops.push(("exchange", i));
						ops.push(("send garbage", i));
						ops.push(("send part of a message", i));
					}
					ops.push(("abort", i));
					ops.push(("close", i));
				},
				Some(Client::Peer(..)) => {
					ops.push(("exchange", i));
					ops.push(("close", i));
					ops.push(("send a message that is too large", i));
				},
			}
			if c.is_none() {
				// Unused clients are all the same.
				break;
			}
		}
		let (op, i) = ops[ctx.choose(ops.len())];
		ctx.log(|| format!("client {i}: {op}"));
		ctx.observe(format!("{i} {op}").as_bytes());
		match op {
			"let the server run" => settle().await,
			"connect" => {
				let s = N::connect_now(&address).map_err(|e| format!("connecting failed: {e}"))?;
				connections += 1;
				all[i] = Some(Client::Raw(s, true));
			},
			"exchange" => {
				if let Some(Client::Raw(s, _)) = all[i].take_if(|c| matches!(c, Client::Raw(..))) {
					let id = N::client_id(&s);
					all[i] = Some(Client::Peer(fizyr_rpc::Peer::spawn(N::transport(s, client_config())), id, None));
				}
				talk(all[i].as_mut().unwrap(), step, &mut tags, &infos, &address).await?;
			},
			"send garbage" => {
				let Some(Client::Raw(s, clean)) = &mut all[i] else { unreachable!() };
				N::send_raw(s, &[0, 0, 0, 3, 1, 2, 3]);
				*clean = false;
			},
			"send part of a message" => {
				let Some(Client::Raw(s, clean)) = &mut all[i] else { unreachable!() };
				N::send_raw(s, &[0, 0, 0, 14, 0, 0]);
				*clean = false;
			},
			"abort" => {
				let Some(Client::Raw(s, _)) = all[i].take() else { unreachable!() };
				N::abort(s);
			},
			"send a message that is too large" => {
				let Some(Client::Peer(p, ..)) = &mut all[i] else { unreachable!() };
				let _ = must("send", p.send_stream(3, body(LIMIT + 1, 0))).await?;
				settle().await;
				all[i] = None;
			},
			_ => all[i] = None,
		}
	}
	// Those who are still connected are served, and so is a new one.
	for (i, c) in all.iter_mut().enumerate() {
		if let Some(Client::Raw(s, true)) = c.take_if(|c| matches!(c, Client::Raw(_, true))) {
			let id = N::client_id(&s);
			*c = Some(Client::Peer(fizyr_rpc::Peer::spawn(N::transport(s, client_config())), id, None));
		}
		if let Some(c @ Client::Peer(..)) = c {
			ctx.log(|| format!("client {i}: final exchange"));
			talk(c, 100 + i, &mut tags, &infos, &address).await.map_err(|e| e.0 + &ended_text(&ended))?;
		}
	}
	ctx.log(|| "a new client connects".into());
	let (peer, info) = must("connecting", N::connect_peer(address.clone(), client_config())).await?.map_err(|e| format!("connecting failed: {e}"))?;
	connections += 1;
	let id = N::info_id(&info, &address).map_err(|e| format!("wrong connection information of the client: {e}"))?;
	let mut c: Client<N> = Client::Peer(peer, id, None);
	talk(&mut c, 200, &mut tags, &infos, &address).await.map_err(|e| e.0 + &ended_text(&ended))?;
	check!(ended.borrow().is_none(), "the listener stopped: {}", ended_text(&ended));
	let n = infos.lock().unwrap().len();
	check!(n <= connections, "there were {n} peers for {connections} connections");
	Ok(())
}

fn ended_text(x: &Rc<RefCell<Option<String>>>) -> String {
	match &*x.borrow() {
		Some(e) => format!(" (the listener stopped with: {e})"),
		None => String::new(),
	}
}

fn local<T>(fut: impl std::future::Future<Output = Res<T>>) -> Res<T> {
	block_on(async {
		let set = tokio::task::LocalSet::new();
		set.run_until(fut).await
	})
}

/// Many clients are connected at the same time.
async fn crowd<N: Net>(ctx: &mut Ctx, sizes: &[usize]) -> Res {
	let n = sizes[ctx.choose(sizes.len())];
	let pause_every = [1, 7, 60][ctx.choose(3)];
	let leave = ctx.choose(3);
	let dir = Scratch::new();
	let (mut listener, address) = N::listen(N::address(&dir.0), server_config()).await.expect("bind");
	let mut count = 0u8;
	let server = tokio::task::spawn_local(async move {
		listener
			.run(move |peer, _info| {
				count = count.wrapping_add(1);
				serve::<N::B>(peer, count)
			})
			.await
	});
	let mut clients: Vec<Option<PeerHandle<N::B>>> = Vec::new();
	for i in 0..2 * n {
		ctx.step();
		if i == n {
			// Some of them leave.
			for c in clients.iter_mut().skip(if leave == 1 { n / 2 } else { 0 }).step_by(if leave == 0 { n } else { 2 }) {
				*c = None;
			}
		}
		let s = N::connect_now(&address).map_err(|e| format!("connecting failed: {e}"))?;
		clients.push(Some(fizyr_rpc::Peer::spawn(N::transport(s, client_config()))));
		if (i + 1) % pause_every == 0 {
			settle().await;
		}
	}
	for (i, c) in clients.iter_mut().enumerate() {
		if let Some(c) = c {
			ctx.log(|| format!("exchange with client {i}"));
			exchange(c, i as u8).await.map_err(|e| format!("client {i} of {}: {}", 2 * n, e.0))?;
		}
	}
	check!(!server.is_finished(), "the listener stopped");
	server.abort();
	Ok(())
}

pub fn p17(c: &mut Check) {
	fn many<N: Net>(c: &mut Check, sizes: &'static [usize]) {
		c.run_opts(&format!("{}: many clients", N::NAME), mc::explore::Options { threads: 2, ..opts() }, |ctx: &mut Ctx| local(crowd::<N>(ctx, sizes)));
	}
	let sizes = &[10usize, 25, 40, 100][..c.bound(3, 4)];
	many::<Stream>(c, sizes);
	many::<Seqpacket>(c, sizes);
	many::<Tcp>(c, sizes);
	c.run_opts("tcp: addresses", opts(), |ctx: &mut Ctx| block_on(tcp_addresses(ctx)));
	fn one<N: Net>(c: &mut Check, slots: usize, depth: usize) {
		c.run_opts(&format!("{}: {slots} clients, {depth} actions", N::NAME), opts(), |ctx: &mut Ctx| local(clients::<N>(ctx, slots, depth)));
	}
	for (slots, depth) in [(1, c.bound(6, 8)), (2, c.bound(6, 7)), (3, c.bound(5, 6))] {
		one::<Stream>(c, slots, depth);
		one::<Seqpacket>(c, slots, depth);
		// Every connection uses up a port for a while.
		one::<Tcp>(c, slots, depth - 1);
	}
}

/// Addresses of both families, and listeners for all addresses: the information describes this very connection.
async fn tcp_addresses(ctx: &mut Ctx) -> Res {
	use std::net::{IpAddr, SocketAddr};
	let servers: [IpAddr; 5] = ["127.0.0.1", "127.9.8.7", "::1", "0.0.0.0", "::"].map(|x| x.parse().unwrap());
	let clients: [IpAddr; 4] = ["127.0.0.1", "127.3.2.1", "::1", "::ffff:127.0.0.5"].map(|x| x.parse().unwrap());
	let server = servers[ctx.choose(servers.len())];
	let through_peer = ctx.choose(2) == 1;
	let Ok((mut listener, address)) = Tcp::listen(SocketAddr::new(server, 0), server_config()).await else {
		// There may be machines without IPv6.
		check!(server.is_ipv6(), "binding to {server} failed");
		return Ok(());
	};
	ctx.log(|| format!("listening on {address}"));
	let mut open = Vec::new();
	for i in 0..3 {
		ctx.step();
		let from = clients[ctx.choose(clients.len())];
		// Only addresses that reach the listener.
		let to = match (server.is_unspecified(), server.is_ipv6()) {
			(false, _) => server,
			(true, false) => IpAddr::from([127, 0, 0, 9]),
			(true, true) if from.is_ipv6() && from.is_loopback() => from,
			(true, true) if from.is_ipv6() => "::ffff:127.0.0.6".parse().unwrap(),
			(true, true) => IpAddr::from([127, 0, 0, 9]),
		};
		if to.is_ipv6() != from.is_ipv6() || to.is_loopback() != from.is_loopback() {
			continue;
		}
		let to = SocketAddr::new(to, address.port());
		let (mut client, local) = if through_peer {
			match must("connect", Tcp::connect_peer(to, client_config())).await? {
				Ok((peer, info)) => {
					check!(*info.remote_address() == to, "a client is connected to {to}, but its information says {}", info.remote_address());
					(peer, *info.local_address())
				},
				Err(e) => fail!("connecting to {to} failed: {e}"),
			}
		} else {
			let socket = if to.is_ipv6() { tokio::net::TcpSocket::new_v6() } else { tokio::net::TcpSocket::new_v4() }.expect("socket");
			if socket.bind(SocketAddr::new(from, 0)).is_err() {
				continue;
			}
			match must("connect", socket.connect(to)).await? {
				Ok(s) => {
					s.set_nodelay(true).expect("set TCP_NODELAY");
					let local = s.local_addr().expect("address");
					check!(local.ip() == from, "the client is bound to {from}, but has {local}");
					(fizyr_rpc::Peer::spawn(Tcp::transport(s, client_config())), local)
				},
				Err(e) => fail!("connecting to {to} failed: {e}"),
			}
		};
		ctx.log(|| format!("{local} connects to {to}"));
		ctx.observe(&[local.is_ipv6() as u8, to.is_ipv6() as u8]);
		match must("accept", listener.accept()).await? {
			Ok((peer, info)) => {
				let seen = |x: &SocketAddr| SocketAddr::new(x.ip().to_canonical(), x.port());
				check!(seen(info.remote_address()) == seen(&local), "{local} is connected, the information says {}", info.remote_address());
				check!(seen(info.local_address()) == seen(&to), "{local} is connected to {to}, the information says {}", info.local_address());
				check!(info.remote_address().is_ipv6() == server.is_ipv6(), "the remote address is {}", info.remote_address());
				tokio::spawn(serve(peer, i));
			},
			Err(e) => fail!("accept failed: {e}"),
		}
		let tag = exchange(&mut client, i).await?;
		check!(tag == i, "another task serves client {i}");
		open.push(client);
	}
	Ok(())
}

/// Accepts that are given up lose no client.
pub fn p15(c: &mut Check) {
	fn one<N: Net>(c: &mut Check, depth: usize) {
		c.run_opts(&format!("{}: cancelled accepts, {depth} steps", N::NAME), opts(), |ctx: &mut Ctx| {
			block_on(async {
				let dir = Scratch::new();
				let (mut listener, address) = N::listen(N::address(&dir.0), server_config()).await.expect("bind");
				let mut clients = Vec::new();
				let mut served = 0;
				for _ in 0..depth {
					ctx.step();
					let op = ctx.choose(4);
					ctx.log(|| ["connect", "poll accept and drop it", "poll accept until nothing changes and drop it", "accept"][op].into());
					let got = match op {
						0 => {
							if clients.len() < 4 {
								let s = N::connect_now(&address).expect("connect");
								clients.push(fizyr_rpc::Peer::spawn(N::transport(s, client_config())));
							}
							None
						},
						1 => {
							let mut f = pin!(listener.accept());
							match std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await {
								std::task::Poll::Ready(r) => Some(r),
								std::task::Poll::Pending => None,
							}
						},
						2 => {
							let r = try_now(pin!(listener.accept())).await;
							check!(r.is_some() == (served < clients.len()), "accept is ready: {}, clients waiting: {}", r.is_some(), clients.len() - served);
							r
						},
						_ => {
							if served < clients.len() {
								Some(must("accept", listener.accept()).await?)
							} else {
								None
							}
						},
					};
					if let Some(r) = got {
						match r {
							Ok((peer, _)) => {
								tokio::spawn(serve(peer, served as u8));
								served += 1;
							},
							Err(e) => fail!("accept failed: {e}"),
						}
					}
					ctx.observe(&[clients.len() as u8, served as u8]);
				}
				while served < clients.len() {
					match must("accepting the clients that are left", listener.accept()).await? {
						Ok((peer, _)) => tokio::spawn(serve(peer, served as u8)),
						Err(e) => fail!("accept failed: {e}"),
					};
					served += 1;
				}
				check!(try_now(pin!(listener.accept())).await.is_none(), "more connections than clients");
				for (i, c) in clients.iter_mut().enumerate() {
					let tag = exchange(c, i as u8).await?;
					check!(tag as usize == i, "client {i} is served as number {tag}");
				}
				Ok(())
			})
		});
	}
	let depth = c.bound(5, 7);
	one::<Stream>(c, depth);
	one::<Seqpacket>(c, depth);
	one::<Tcp>(c, depth);
}

// ---------------------------------------------------------------------------------------------------------------------

/// Everything about a directory tree that must not change.
fn snapshot(path: &Path, out: &mut Vec<String>) {
	let Ok(m) = std::fs::symlink_metadata(path) else {
		out.push(format!("{}: nothing", path.display()));
		return;
	};
	let t = m.file_type();
	let mut line = format!("{}: inode {} mode {:o} size {} modified {}.{}", path.display(), m.ino(), m.mode(), m.size(), m.mtime(), m.mtime_nsec());
	if t.is_symlink() {
		line += &format!(" -> {:?}", std::fs::read_link(path).ok());
	} else if t.is_file() {
		line += &format!(" content {:?}", std::fs::read(path).ok());
	}
	out.push(line);
	if t.is_dir() {
		let mut names: Vec<PathBuf> = std::fs::read_dir(path).into_iter().flatten().flatten().map(|e| e.path()).collect();
		names.sort();
		for n in names {
			snapshot(&n, out);
		}
	}
}

fn snap(path: &Path) -> Vec<String> {
	let mut out = Vec::new();
	snapshot(path, &mut out);
	out
}

fn mkfifo(path: &Path) {
	use std::os::unix::ffi::OsStrExt;
	let p = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
	assert!(unsafe { libc::mkfifo(p.as_ptr(), 0o600) } == 0);
}

/// Bind a socket without any help of the library. The socket stays if it is dropped.
fn raw_bind(path: &Path, kind: i32, listen: bool) -> std::os::fd::OwnedFd {
	use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
	use std::os::unix::ffi::OsStrExt;
	unsafe {
		let fd = OwnedFd::from_raw_fd(libc::socket(libc::AF_UNIX, kind | libc::SOCK_CLOEXEC, 0));
		let mut a: libc::sockaddr_un = std::mem::zeroed();
		a.sun_family = libc::AF_UNIX as _;
		for (x, y) in a.sun_path.iter_mut().zip(path.as_os_str().as_bytes()) {
			*x = *y as _;
		}
		assert!(libc::bind(fd.as_raw_fd(), &a as *const _ as *const _, std::mem::size_of_val(&a) as u32) == 0, "bind: {}", std::io::Error::last_os_error());
		if listen {
			assert!(libc::listen(fd.as_raw_fd(), 4) == 0);
		}
		fd
	}
}

const OBJECTS: [&str; 26] = [
	"nothing",
	"stale stream socket",
	"stale seqpacket socket",
	"stale datagram socket",
	"stale read-only stream socket",
	"stale read-only seqpacket socket",
	"stale and inaccessible stream socket",
	"stale and executable seqpacket socket",
	"old stream socket",
	"hard link to a file",
	"listening stream socket",
	"listening seqpacket socket",
	"regular file",
	"empty file",
	"read-only file",
	"empty directory",
	"directory with files",
	"fifo",
	"link to a file",
	"link to a directory",
	"link to a fifo",
	"dangling link",
	"link to itself",
	"link to a link to a file",
	"nothing, without parent directory",
	"nothing, below a file",
];

const NAMES: [&[u8]; 9] = [b"object", b" name with spaces ", b".hidden", b"\xff\xfe\x80", b"-rf", b"*", b"a:b@c", b"\xc3\xbcn\xc3\xaf\n", b"abstract\\0"];

/// Create an object. Returns whether it is a socket or free, whether binding has to fail, and things to keep.
fn make(kind: &str, dir: &Path, name: &std::ffi::OsStr) -> (PathBuf, Option<std::os::fd::OwnedFd>) {
	let path = dir.join(name);
	let mode = |mode: u32| std::fs::set_permissions(&path, std::os::unix::fs::PermissionsExt::from_mode(mode)).unwrap();
	let target = dir.join("target");
	let link = |to: &Path| std::os::unix::fs::symlink(to, &path).unwrap();
	let mut keep = None;
	match kind {
		"nothing" => (),
		"stale stream socket" => drop(raw_bind(&path, libc::SOCK_STREAM, true)),
		"stale seqpacket socket" => drop(raw_bind(&path, libc::SOCK_SEQPACKET, true)),
		"stale datagram socket" => drop(raw_bind(&path, libc::SOCK_DGRAM, false)),
		"stale read-only stream socket" => {
			drop(raw_bind(&path, libc::SOCK_STREAM, true));
			mode(0o444);
		},
		"stale read-only seqpacket socket" => {
			drop(raw_bind(&path, libc::SOCK_SEQPACKET, true));
			mode(0o400);
		},
		"stale and inaccessible stream socket" => {
			drop(raw_bind(&path, libc::SOCK_STREAM, true));
			mode(0);
		},
		"stale and executable seqpacket socket" => {
			drop(raw_bind(&path, libc::SOCK_SEQPACKET, true));
			mode(0o7777);
		},
		"old stream socket" => {
			drop(raw_bind(&path, libc::SOCK_STREAM, true));
			use std::os::unix::ffi::OsStrExt;
			let p = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
			let past = libc::timespec { tv_sec: 1, tv_nsec: 0 };
			assert!(unsafe { libc::utimensat(libc::AT_FDCWD, p.as_ptr(), [past, past].as_ptr(), 0) } == 0);
		},
		"hard link to a file" => {
			std::fs::write(&target, "precious").unwrap();
			std::fs::hard_link(&target, &path).unwrap();
		},
		"listening stream socket" => keep = Some(raw_bind(&path, libc::SOCK_STREAM, true)),
		"listening seqpacket socket" => keep = Some(raw_bind(&path, libc::SOCK_SEQPACKET, true)),
		"regular file" => std::fs::write(&path, "precious").unwrap(),
		"empty file" => std::fs::write(&path, "").unwrap(),
		"read-only file" => {
			std::fs::write(&path, "precious").unwrap();
			let mut p = std::fs::metadata(&path).unwrap().permissions();
			p.set_readonly(true);
			std::fs::set_permissions(&path, p).unwrap();
		},
		"empty directory" => std::fs::create_dir(&path).unwrap(),
		"directory with files" => {
			std::fs::create_dir(&path).unwrap();
			std::fs::write(path.join("file"), "precious").unwrap();
			let socket = path.join("socket");
			if socket.as_os_str().len() < 108 {
				drop(raw_bind(&socket, libc::SOCK_STREAM, true));
			}
		},
		"fifo" => mkfifo(&path),
		"link to a file" => {
			std::fs::write(&target, "precious").unwrap();
			link(&target);
		},
		"link to a directory" => {
			std::fs::create_dir(&target).unwrap();
			std::fs::write(target.join("file"), "precious").unwrap();
			link(&target);
		},
		"link to a fifo" => {
			mkfifo(&target);
			link(&target);
		},
		"dangling link" => link(&target),
		"link to itself" => link(&path),
		"link to a link to a file" => {
			std::fs::write(&target, "precious").unwrap();
			std::os::unix::fs::symlink(&target, dir.join("second")).unwrap();
			link(&dir.join("second"));
		},
		"nothing, without parent directory" => return (dir.join("missing/object"), None),
		"nothing, below a file" => {
			std::fs::write(&target, "precious").unwrap();
			return (target.join("object"), None);
		},
		_ => unreachable!(),
	}
	(path, keep)
}

async fn accept_at<N: Net<Address = PathBuf>>(listener: &mut fizyr_rpc::Listener<N::Listener>, path: &Path, salt: u8) -> Res {
	let s = N::connect_now(&path.to_path_buf()).map_err(|e| format!("connecting to the new listener failed: {e}"))?;
	let mut client = fizyr_rpc::Peer::spawn(N::transport(s, client_config()));
	match must("accept", listener.accept()).await? {
		Ok((peer, _)) => tokio::spawn(serve(peer, salt)),
		Err(e) => fail!("accept failed: {e}"),
	};
	let tag = exchange(&mut client, salt).await?;
	check!(tag == salt, "another listener accepted the connection");
	Ok(())
}

enum Bound {
	Stream(fizyr_rpc::Listener<tokio::net::UnixListener>),
	Seqpacket(fizyr_rpc::Listener<tokio_seqpacket::UnixSeqpacketListener>),
}

pub fn p22(c: &mut Check) {
	fn object<N: Net<Address = PathBuf>>(c: &mut Check) {
		use std::os::unix::ffi::OsStrExt;
		c.run_opts(&format!("{}: what is at the path, bound twice", N::NAME), opts(), |ctx: &mut Ctx| {
			let kind = OBJECTS[ctx.choose(OBJECTS.len())];
			let twice = ctx.choose(2) == 1;
			let which = ctx.choose(NAMES.len() + 1);
			block_on(async {
				let dir = Scratch::new();
				// The longest name that is possible.
				let long = vec![b'n'; 107 - dir.0.as_os_str().len() - 1];
				let name = std::ffi::OsStr::from_bytes(NAMES.get(which).copied().unwrap_or(&long));
				std::fs::write(dir.0.join("neighbour"), "precious").unwrap();
				let (path, keep) = make(kind, &dir.0, name);
				let replaceable = kind == "nothing" || kind.ends_with("socket");
				let before = snap(&dir.0);
				ctx.step();
				ctx.log(|| format!("bind to {kind}"));
				for round in 0..1 + twice as u8 {
					let result = must("bind", N::listen(path.clone(), server_config())).await?;
					ctx.observe(&[replaceable as u8, result.is_ok() as u8]);
					match result {
						Err(e) => {
							check!(!replaceable, "binding to {kind} failed: {e}");
							check!(snap(&dir.0) == before, "binding to {kind} failed but changed {:?} to {:?}", before, snap(&dir.0));
						},
						Ok((mut listener, _)) => {
							check!(replaceable, "binding to {kind} succeeded");
							let t = std::fs::symlink_metadata(&path).map_err(|e| format!("there is no socket after binding: {e}"))?.file_type();
							check!(t.is_socket(), "there is no socket after binding");
							accept_at::<N>(&mut listener, &path, 7 + round).await?;
							check!(std::fs::read(dir.0.join("neighbour")).ok().as_deref() == Some(b"precious"), "another file was changed");
						},
					}
				}
				drop(keep);
				Ok(())
			})
		});
	}
	object::<Stream>(c);
	object::<Seqpacket>(c);
	let depth = c.bound(4, 6);
	c.run_opts(&format!("sequences of {depth} binds and drops of both kinds of listeners at one path"), opts(), |ctx: &mut Ctx| {
		block_on(async {
			let dir = Scratch::new();
			let path = dir.0.join("socket");
			let file = "precious";
			let mut current: Option<Bound> = None;
			let mut old = Vec::new();
			for i in 0..depth {
				ctx.step();
				let op = ctx.choose(6);
				ctx.observe(&[op as u8]);
				ctx.log(|| ["bind a stream listener", "bind a seqpacket listener", "drop the listener", "connect", "replace the path by a file", "drop old listeners"][op].into());
				let is_file = std::fs::symlink_metadata(&path).is_ok_and(|m| m.is_file());
				match op {
					0 | 1 => {
						let result = if op == 0 {
							must("bind", Stream::listen(path.clone(), server_config())).await?.map(|x| Bound::Stream(x.0))
						} else {
							must("bind", Seqpacket::listen(path.clone(), server_config())).await?.map(|x| Bound::Seqpacket(x.0))
						};
						match result {
							Ok(x) => {
								check!(!is_file, "bound to a path with a file");
								old.extend(current.replace(x));
							},
							Err(e) => check!(is_file, "binding failed: {e}"),
						}
					},
					2 => current = None,
					3 => match &mut current {
						Some(Bound::Stream(x)) if !is_file => accept_at::<Stream>(x, &path, i as u8).await?,
						Some(Bound::Seqpacket(x)) if !is_file => accept_at::<Seqpacket>(x, &path, i as u8).await?,
						_ => (),
					},
					4 => {
						let _ = std::fs::remove_file(&path);
						std::fs::write(&path, file).unwrap();
					},
					_ => old.clear(),
				}
				if is_file || op == 4 {
					check!(std::fs::read(&path).ok().as_deref() == Some(file.as_bytes()), "the file is gone or was changed");
				}
			}
			Ok(())
		})
	});
	c.assumptions.push("Runs as root in a scratch directory, so permissions do not keep the library from removing anything there.".into());
}
