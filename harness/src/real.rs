//! Helpers for scenarios on real sockets: a runtime per execution, raw sockets and descriptor probes.

use crate::explore::{Fail, Options, Res};
use crate::report::verif_dir;
use std::future::Future;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::task::Poll;
use std::time::Duration;

/// How long something that has to happen may take.
pub const PATIENCE: Duration = Duration::from_secs(4);

pub fn opts() -> Options {
	Options { real_io: true, ..Options::default() }
}

/// Run a scenario in a runtime of its own.
pub fn block_on<T>(fut: impl Future<Output = Res<T>>) -> Res<T> {
	let rt = tokio::runtime::Builder::new_current_thread()
		.enable_io()
		.enable_time()
		.event_interval(1)
		.build()
		.expect("create runtime");
	let r = rt.block_on(fut);
	drop(rt);
	r
}

/// Let all tasks that can run do so. The runtime looks for I/O events at every step.
pub async fn settle() {
	for _ in 0..24 {
		tokio::task::yield_now().await;
	}
}

/// Wait for something that has to happen.
pub async fn must<T>(what: &str, fut: impl Future<Output = T>) -> Res<T> {
	match tokio::time::timeout(PATIENCE, fut).await {
		Ok(x) => Ok(x),
		Err(_) => Err(Fail(format!("{what} does not complete"))),
	}
}

/// Poll a future until nothing changes any more.
pub async fn try_now<F: Future>(mut fut: Pin<&mut F>) -> Option<F::Output> {
	for _ in 0..24 {
		let r = std::future::poll_fn(|cx| Poll::Ready(fut.as_mut().poll(cx))).await;
		if let Poll::Ready(x) = r {
			return Some(x);
		}
		tokio::task::yield_now().await;
	}
	None
}

/// Wait until a condition holds.
pub async fn until(what: &str, mut condition: impl FnMut() -> bool) -> Res {
	let start = std::time::Instant::now();
	let mut n = 0;
	loop {
		if condition() {
			return Ok(());
		}
		if start.elapsed() > PATIENCE {
			return Err(Fail(what.to_string()));
		}
		n += 1;
		if n < 50 {
			tokio::task::yield_now().await;
		} else {
			tokio::time::sleep(Duration::from_millis(1)).await;
		}
	}
}

fn cvt(r: isize) -> std::io::Result<usize> {
	if r < 0 {
		Err(std::io::Error::last_os_error())
	} else {
		Ok(r as usize)
	}
}

/// A connected pair of non-blocking Unix sockets.
pub fn socketpair(kind: i32) -> (OwnedFd, OwnedFd) {
	let mut fds = [0; 2];
	let r = unsafe { libc::socketpair(libc::AF_UNIX, kind | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0, fds.as_mut_ptr()) };
	assert!(r == 0, "socketpair: {}", std::io::Error::last_os_error());
	unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) }
}

/// Send one datagram with file descriptors.
pub fn raw_send(fd: RawFd, data: &[u8], fds: &[RawFd]) -> std::io::Result<usize> {
	let mut iov = libc::iovec { iov_base: data.as_ptr() as *mut _, iov_len: data.len() };
	let mut msg: libc::msghdr = unsafe { std::mem::zeroed() };
	msg.msg_iov = &mut iov;
	msg.msg_iovlen = 1;
	let mut control = vec![0u64; 256];
	if !fds.is_empty() {
		let len = std::mem::size_of_val(fds);
		msg.msg_control = control.as_mut_ptr() as *mut _;
		unsafe {
			msg.msg_controllen = libc::CMSG_SPACE(len as u32) as _;
			let c = libc::CMSG_FIRSTHDR(&msg);
			(*c).cmsg_level = libc::SOL_SOCKET;
			(*c).cmsg_type = libc::SCM_RIGHTS;
			(*c).cmsg_len = libc::CMSG_LEN(len as u32) as _;
			std::ptr::copy_nonoverlapping(fds.as_ptr() as *const u8, libc::CMSG_DATA(c), len);
		}
	}
	cvt(unsafe { libc::sendmsg(fd, &msg, libc::MSG_NOSIGNAL) })
}

/// Receive one datagram. `None`: there is none. An empty datagram stands for the end of the connection.
pub fn raw_recv(fd: RawFd) -> std::io::Result<Option<(Vec<u8>, Vec<OwnedFd>)>> {
	let mut data = vec![0u8; 1 << 18];
	let mut iov = libc::iovec { iov_base: data.as_mut_ptr() as *mut _, iov_len: data.len() };
	let mut msg: libc::msghdr = unsafe { std::mem::zeroed() };
	msg.msg_iov = &mut iov;
	msg.msg_iovlen = 1;
	let mut control = vec![0u64; 256];
	msg.msg_control = control.as_mut_ptr() as *mut _;
	msg.msg_controllen = 2048 as _;
	let n = match cvt(unsafe { libc::recvmsg(fd, &mut msg, libc::MSG_CMSG_CLOEXEC) }) {
		Ok(n) => n,
		Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return Ok(None),
		Err(e) => return Err(e),
	};
	let mut fds = Vec::new();
	unsafe {
		let mut c = libc::CMSG_FIRSTHDR(&msg);
		while !c.is_null() {
			if (*c).cmsg_level == libc::SOL_SOCKET && (*c).cmsg_type == libc::SCM_RIGHTS {
				let count = ((*c).cmsg_len as usize - libc::CMSG_LEN(0) as usize) / 4;
				for i in 0..count {
					let fd = std::ptr::read_unaligned((libc::CMSG_DATA(c) as *const RawFd).add(i));
					fds.push(OwnedFd::from_raw_fd(fd));
				}
			}
			c = libc::CMSG_NXTHDR(&msg, c);
		}
	}
	data.truncate(n);
	Ok(Some((data, fds)))
}

/// A pipe whose write end is passed around. It tells whether any copy of the write end is open, and whether a
/// descriptor is a copy of the write end.
pub struct Probe {
	read: OwnedFd,
}

impl Probe {
	pub fn new() -> (Probe, OwnedFd) {
		let mut fds = [0; 2];
		let r = unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC | libc::O_NONBLOCK) };
		assert!(r == 0, "pipe2: {}", std::io::Error::last_os_error());
		unsafe { (Probe { read: OwnedFd::from_raw_fd(fds[0]) }, OwnedFd::from_raw_fd(fds[1])) }
	}

	/// Are all copies of the write end closed?
	pub fn is_closed(&self, patience: Duration) -> bool {
		let start = std::time::Instant::now();
		loop {
			let mut p = libc::pollfd { fd: self.read.as_raw_fd(), events: 0, revents: 0 };
			unsafe { libc::poll(&mut p, 1, 0) };
			if p.revents & libc::POLLHUP != 0 {
				return true;
			}
			if start.elapsed() >= patience {
				return false;
			}
			std::thread::sleep(Duration::from_micros(200));
		}
	}

	/// Is this descriptor a copy of the write end?
	pub fn is_same(&self, fd: RawFd) -> bool {
		let token = [0xa5u8, 0x5a, 0x42];
		if unsafe { libc::write(fd, token.as_ptr() as *const _, 3) } != 3 {
			return false;
		}
		let mut buffer = [0u8; 16];
		let n = unsafe { libc::read(self.read.as_raw_fd(), buffer.as_mut_ptr() as *mut _, 16) };
		n == 3 && buffer[..3] == token
	}
}

static COUNTER: AtomicU64 = AtomicU64::new(0);

/// The directory for files of this process.
pub fn scratch_root() -> PathBuf {
	verif_dir().join("target").join(format!("s{}", std::process::id()))
}

/// A directory that is removed again.
pub struct Scratch(pub PathBuf);

impl Scratch {
	pub fn new() -> Scratch {
		let p = scratch_root().join(format!("{}", COUNTER.fetch_add(1, Ordering::Relaxed)));
		std::fs::create_dir_all(&p).expect("create scratch directory");
		Scratch(p)
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}
