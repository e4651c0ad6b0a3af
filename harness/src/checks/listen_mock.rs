//! A listener over a listening socket that is controlled completely by the harness.
use fizyr_rpc::util::{IntoTransport, Listener as Socket};
use fizyr_rpc::{Listener, MessageHeader, PeerHandle, ReceivedMessage, StreamBody};
use mc::explore::{Ctx, Res};
use mc::mock::{In, Link, MockRead, MockTransport, MockWrite, Msg};
use mc::real::{block_on, must, settle, try_now};
use mc::report::Check;
use mc::{check, fail};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// A connection that was accepted.
pub struct Conn {
	number: u32,
	link: Link,
	/// Whether the remote is gone already, so that no information about it is available.
	gone: bool,
}

impl std::fmt::Debug for Conn {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "connection {}", self.number)
	}
}

pub struct ConnTransport {
	inner: MockTransport,
	number: u32,
	gone: bool,
	config: u64,
}

impl fizyr_rpc::transport::Transport for ConnTransport {
	type Body = StreamBody;
	type Info = (u32, u64);
	type Config = u64;
	type ReadHalf<'a> = MockRead;
	type WriteHalf<'a> = MockWrite;

	fn split(&mut self) -> (MockRead, MockWrite) {
		self.inner.split()
	}

	fn info(&self) -> std::io::Result<(u32, u64)> {
		if self.gone {
			Err(std::io::ErrorKind::NotConnected.into())
		} else {
			Ok((self.number, self.config))
		}
	}
}

impl IntoTransport for Conn {
	type Body = StreamBody;
	type Config = u64;
	type Transport = ConnTransport;
	fn into_transport(self, config: u64) -> ConnTransport {
		ConnTransport { inner: self.link.transport(), number: self.number, gone: self.gone, config }
	}
}

#[derive(Default)]
struct Queue {
	connections: VecDeque<std::io::Result<Conn>>,
	waker: Option<Waker>,
}

#[derive(Clone, Default)]
struct MockListener(Arc<Mutex<Queue>>);

impl Socket for MockListener {
	type Connection = Conn;
	type Address = u32;
	fn poll_accept(self: Pin<&mut Self>, context: &mut Context) -> Poll<std::io::Result<(Conn, u32)>> {
		let mut q = self.0.lock().unwrap();
		match q.connections.pop_front() {
			Some(x) => Poll::Ready(x.map(|c| {
				let n = c.number;
				(c, n)
			})),
			None => {
				q.waker = Some(context.waker().clone());
				Poll::Pending
			},
		}
	}
}

impl MockListener {
	fn push(&self, c: std::io::Result<Conn>) {
		let waker = {
			let mut q = self.0.lock().unwrap();
			q.connections.push_back(c);
			q.waker.take()
		};
		if let Some(w) = waker {
			w.wake()
		}
	}
}

const CONFIG: u64 = 0x1122_3344_5566;

struct Client {
	number: u32,
	link: Link,
	gone: bool,
	closed: bool,
}

/// The application gets peers one at a time.
async fn accepts(ctx: &mut Ctx, depth: usize) -> Res {
	let socket = MockListener::default();
	let boxed = ctx.choose(2) == 1;
	if boxed {
		accepts_with(ctx, depth, Listener::new(Box::pin(socket.clone()), CONFIG), socket).await
	} else {
		accepts_with(ctx, depth, Listener::new(socket.clone(), CONFIG), socket).await
	}
}

async fn accepts_with<S>(ctx: &mut Ctx, depth: usize, mut listener: Listener<S>, socket: MockListener) -> Res
where
	S: Socket<Connection = Conn> + Unpin,
{
	let mut clients: Vec<Client> = Vec::new();
	// What accept has to return, in order. Errors of the listening socket may be reported or not.
	let mut waiting: VecDeque<Result<usize, ()>> = VecDeque::new();
	let mut peers: Vec<(usize, PeerHandle<StreamBody>)> = Vec::new();

	fn expect(waiting: &mut VecDeque<Result<usize, ()>>, clients: &[Client], result: std::io::Result<(PeerHandle<StreamBody>, (u32, u64))>) -> Res<Option<(usize, PeerHandle<StreamBody>)>> {
		match result {
			Err(e) => match waiting.pop_front() {
				Some(Err(())) => Ok(None),
				_ => fail!("accepting fails although nothing is wrong with the listening socket: {e}"),
			},
			Ok((peer, info)) => {
				while waiting.front() == Some(&Err(())) {
					waiting.pop_front();
				}
				let Some(Ok(i)) = waiting.pop_front() else { fail!("a peer without a connection") };
				check!(info.0 == clients[i].number, "the peer of connection {} gets the information of connection {}", clients[i].number, info.0);
				check!(info.1 == CONFIG, "the transport is created with the configuration {:#x}", info.1);
				Ok(Some((i, peer)))
			},
		}
	}

	for _ in 0..depth {
		ctx.step();
		let mut ops = vec!["a client connects", "a client connects and disappears", "the listening socket fails", "accept or give up"];
		if clients.iter().any(|c| !c.closed && !c.gone) {
			ops.push("the last client disconnects");
		}
		if !peers.is_empty() {
			ops.push("the first peer is closed");
			ops.push("use all peers");
		}
		let op = ops[ctx.choose(ops.len())];
		ctx.log(|| op.to_string());
		ctx.observe(op.as_bytes());
		match op {
			"a client connects" | "a client connects and disappears" => {
				let gone = op != "a client connects";
				let c = Client { number: 100 + clients.len() as u32, link: Link::new(), gone, closed: gone };
				socket.push(Ok(Conn { number: c.number, link: c.link.clone(), gone }));
				if !gone {
					waiting.push_back(Ok(clients.len()));
				}
				clients.push(c);
			},
			"the listening socket fails" => {
				socket.push(Err(std::io::ErrorKind::ConnectionAborted.into()));
				waiting.push_back(Err(()));
			},
			"accept or give up" => {
				let r = {
					let f = listener.accept();
					tokio::pin!(f);
					try_now(f.as_mut()).await
				};
				match r {
					None => check!(!waiting.contains(&Err(())) && waiting.is_empty(), "no peer for a client that is connected"),
					Some(r) => peers.extend(expect(&mut waiting, &clients, r)?),
				}
			},
			"the last client disconnects" => {
				let c = clients.iter_mut().rev().find(|c| !c.closed).unwrap();
				c.closed = true;
				c.link.push(In::Eof);
				settle().await;
			},
			"the first peer is closed" => {
				let (i, peer) = peers.remove(0);
				if ctx.choose(2) == 0 {
					drop(peer);
				} else {
					peer.close_handle().close();
				}
				settle().await;
				check!(clients[i].link.dropped(), "the connection stays although its peer is gone");
				clients[i].closed = true;
			},
			_ => use_all(&clients, &mut peers).await?,
		}
	}
	// Everyone who is connected is served in the end.
	while !waiting.is_empty() {
		let r = must("accepting a client that is connected", listener.accept()).await?;
		peers.extend(expect(&mut waiting, &clients, r)?);
	}
	use_all(&clients, &mut peers).await?;
	{
		let f = listener.accept();
		tokio::pin!(f);
		check!(try_now(f.as_mut()).await.is_none(), "accept returns although nobody connects");
	}
	for c in &clients {
		if c.gone {
			check!(c.link.dropped(), "a connection whose remote is gone stays");
			check!(c.link.wire().is_empty(), "something is written to a client that is gone");
		}
	}
	drop(listener);
	settle().await;
	// Connections do not depend on the listener.
	use_all(&clients, &mut peers).await
}

/// Every peer works, and talks to its own client.
async fn use_all(clients: &[Client], peers: &mut [(usize, PeerHandle<StreamBody>)]) -> Res {
	settle().await;
	for (i, peer) in peers {
		let c = &clients[*i];
		if c.closed {
			check!(must("a send", peer.send_stream(1, vec![1])).await?.is_err(), "a stream message is sent to a client that is gone");
			continue;
		}
		let before = c.link.wire().len();
		must("a send", peer.send_stream(c.number as i32, vec![1, 2])).await?.map_err(|e| format!("a peer does not work: {e}"))?;
		let wire = c.link.wire();
		check!(wire.len() == before + 1 && wire[before].header.service_id == c.number as i32, "the message of a peer does not reach its client");
		let m = Msg::new(MessageHeader::stream(5, c.number as i32), *b"in");
		c.link.push(In::Msg(m.clone()));
		match must("a receive", peer.recv_message()).await? {
			Ok(ReceivedMessage::Stream(x)) if Msg::of(&x) == m => (),
			Ok(_) => fail!("another message than that of the client is received"),
			Err(e) => fail!("a peer does not work: {e}"),
		}
	}
	Ok(())
}

/// `Listener::run`: the tasks run concurrently.
async fn run(ctx: &mut Ctx, depth: usize, crowds: &[usize]) -> Res {
	let crowd = crowds[ctx.choose(crowds.len())];
	let socket = MockListener::default();
	let mut listener = Listener::new(socket.clone(), CONFIG);
	type Started = Arc<Mutex<Vec<(u32, u64)>>>;
	let started: Started = Default::default();
	// The clients whose task panics when it is polled for the first time.
	let panics: Arc<Mutex<Vec<u32>>> = Default::default();
	let handler = {
		let started = started.clone();
		let panics_at_once = panics.clone();
		move |mut peer: PeerHandle<StreamBody>, info: (u32, u64)| {
			started.lock().unwrap().push(info);
			let at_once = panics_at_once.lock().unwrap().contains(&info.0);
			async move {
				if at_once {
					std::panic::resume_unwind(Box::new("the task of a client panics"));
				}
				while let Ok(m) = peer.recv_message().await {
					if let ReceivedMessage::Stream(x) = m {
						let panics = x.body.data == b"panic";
						if panics {
							// Without the panic hook of the harness.
							std::panic::resume_unwind(Box::new("the task of a client panics"));
						}
						if peer.send_stream(info.0 as i32, x.body).await.is_err() {
							break;
						}
					}
				}
			}
		}
	};
	let server = tokio::spawn(async move { listener.run(handler).await });
	let mut clients: Vec<Client> = Vec::new();
	if crowd > 0 {
		let gone_every = [usize::MAX, 2, 3][ctx.choose(3)];
		let pause_every = [usize::MAX, 1, 7][ctx.choose(3)];
		let leave_every = [usize::MAX, 1, 5][ctx.choose(3)];
		for i in 0..crowd {
			ctx.step();
			let gone = (i + 1) % gone_every == 0;
			let c = Client { number: 100 + clients.len() as u32, link: Link::new(), gone, closed: gone };
			socket.push(Ok(Conn { number: c.number, link: c.link.clone(), gone }));
			clients.push(c);
			if (i + 1) % pause_every == 0 {
				settle().await;
			}
		}
		settle().await;
		for c in clients.iter_mut().skip(crowd / 2).step_by(leave_every) {
			if !c.gone {
				c.closed = true;
				c.link.push(In::Eof);
			}
		}
	}
	for _ in 0..depth {
		ctx.step();
		let mut ops = vec!["a client connects", "a client connects and disappears", "wait", "a client connects and its task panics"];
		let mut open: Vec<usize> = (0..clients.len()).filter(|i| !clients[*i].closed).collect();
		if open.len() > 8 {
			// The oldest and the newest.
			open = vec![open[0], *open.last().unwrap()];
		}
		if !open.is_empty() {
			ops.extend(["exchange", "the client disconnects", "the task of the client panics"]);
		}
		let op = ops[ctx.choose(ops.len())];
		let which = if matches!(op, "exchange" | "the client disconnects" | "the task of the client panics") { open[ctx.choose(open.len())] } else { 0 };
		ctx.log(|| format!("{op} {which}"));
		ctx.observe(format!("{op} {which}").as_bytes());
		match op {
			"a client connects" | "a client connects and disappears" => {
				let gone = op != "a client connects";
				let c = Client { number: 100 + clients.len() as u32, link: Link::new(), gone, closed: gone };
				socket.push(Ok(Conn { number: c.number, link: c.link.clone(), gone }));
				clients.push(c);
			},
			"a client connects and its task panics" => {
				let c = Client { number: 100 + clients.len() as u32, link: Link::new(), gone: false, closed: true };
				panics.lock().unwrap().push(c.number);
				socket.push(Ok(Conn { number: c.number, link: c.link.clone(), gone: false }));
				clients.push(c);
			},
			"wait" => settle().await,
			"exchange" => served(&clients[which]).await?,
			"the client disconnects" => {
				clients[which].closed = true;
				clients[which].link.push(In::Eof);
			},
			_ => {
				clients[which].closed = true;
				clients[which].link.push(In::Msg(Msg::new(MessageHeader::stream(0, 0), *b"panic")));
			},
		}
	}
	let c = Client { number: 100 + clients.len() as u32, link: Link::new(), gone: false, closed: false };
	socket.push(Ok(Conn { number: c.number, link: c.link.clone(), gone: false }));
	clients.push(c);
	for c in &clients {
		if !c.closed {
			served(c).await?;
		}
	}
	settle().await;
	check!(!server.is_finished(), "the listener stopped");
	let want: Vec<(u32, u64)> = clients.iter().filter(|c| !c.gone).map(|c| (c.number, CONFIG)).collect();
	check!(*started.lock().unwrap() == want, "tasks for {:?} instead of {want:?}", started.lock().unwrap());
	for c in &clients {
		if c.closed {
			check!(c.link.dropped(), "the connection of client {} is not released", c.number);
		}
	}
	server.abort();
	Ok(())
}

async fn served(c: &Client) -> Res {
	let before = c.link.wire().len();
	c.link.push(In::Msg(Msg::new(MessageHeader::stream(0, 0), vec![before as u8, 9])));
	mc::real::until(&format!("client {} gets no answer", c.number), || c.link.wire().len() > before).await?;
	let m = &c.link.wire()[before];
	check!(m.header.service_id == c.number as i32 && m.body == [before as u8, 9], "client {} gets {}", c.number, m.short());
	Ok(())
}

pub fn p17(c: &mut Check) {
	let depth = c.bound(6, 7);
	c.run("accepted connections, any kind of listener", move |ctx| block_on(accepts(ctx, depth)));
	let depth = c.bound(6, 7);
	c.run("a running server", move |ctx| block_on(run(ctx, depth, &[0])));
	let crowds = c.bound(5, 7);
	let depth = c.bound(1, 2);
	c.run("a running server with many clients", move |ctx| block_on(run(ctx, depth, &[10, 17, 33, 70, 150, 600, 2000][..crowds])));
}
