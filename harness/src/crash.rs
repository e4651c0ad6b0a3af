//! Runs a check in a child process, so that a crash (an abort or a stack overflow) of the code under test becomes a
//! violation with a replay file, like every other failure.
//!
//! The workers note what they execute in a file that both processes map.

use crate::explore::Violation;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;

const SLOTS: usize = 64;
const SLOT: usize = 4096;
const SIZE: usize = (SLOTS + 1) * SLOT;

struct Map(*mut u8);
unsafe impl Send for Map {}
unsafe impl Sync for Map {}
static MAP: OnceLock<Option<Map>> = OnceLock::new();

fn map() -> Option<*mut u8> {
	MAP.get_or_init(|| {
		use std::os::fd::AsRawFd;
		let path = std::env::var_os("MC_SLOTS")?;
		let file = std::fs::OpenOptions::new().read(true).write(true).open(path).ok()?;
		let p = unsafe { libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, file.as_raw_fd(), 0) };
		(p != libc::MAP_FAILED).then_some(Map(p as *mut u8))
	})
	.as_ref()
	.map(|m| m.0)
}

/// Write words to a slot: their number and the words.
fn write(slot: usize, bytes: &[u8]) {
	let Some(p) = map() else { return };
	let n = bytes.len().min(SLOT - 8);
	unsafe {
		let p = p.add(slot * SLOT);
		std::ptr::copy_nonoverlapping(bytes.as_ptr(), p.add(8), n);
		std::ptr::write_volatile(p as *mut u64, n as u64 + 1);
	}
}

fn clear(slot: usize) {
	if let Some(p) = map() {
		unsafe { std::ptr::write_volatile(p.add(slot * SLOT) as *mut u64, 0) }
	}
}

/// A scenario starts.
pub fn scenario(name: &str) {
	write(0, name.as_bytes());
}

/// A worker starts an execution with these choices.
pub fn started(worker: usize, prefix: &[u32]) {
	if worker < SLOTS && map().is_some() {
		let bytes = unsafe { std::slice::from_raw_parts(prefix.as_ptr() as *const u8, std::mem::size_of_val(prefix)) };
		write(worker + 1, bytes);
	}
}

/// The execution of a worker ended.
pub fn ended(worker: usize) {
	if worker < SLOTS {
		clear(worker + 1);
	}
}

fn slot(data: &[u8], i: usize) -> Option<&[u8]> {
	let s = &data[i * SLOT..(i + 1) * SLOT];
	let n = u64::from_ne_bytes(s[..8].try_into().unwrap()) as usize;
	(n > 0).then(|| &s[8..8 + n - 1])
}

fn crash_signal(status: std::process::ExitStatus) -> Option<&'static str> {
	use std::os::unix::process::ExitStatusExt;
	match status.signal()? {
		libc::SIGSEGV => Some("SIGSEGV (a stack overflow or an invalid memory access)"),
		libc::SIGABRT => Some("SIGABRT (an abort: a panic while panicking, a stack overflow or a corrupted heap)"),
		libc::SIGBUS => Some("SIGBUS"),
		libc::SIGILL => Some("SIGILL"),
		libc::SIGFPE => Some("SIGFPE"),
		libc::SIGPIPE => Some("SIGPIPE"),
		_ => None,
	}
}

/// Run this program again as a child with the same arguments. Returns only in the child.
pub fn supervise(property: &str, args: &[String]) {
	if std::env::var_os("MC_CHILD").is_some() {
		return;
	}
	let dir = crate::real::scratch_root();
	let _ = std::fs::create_dir_all(&dir);
	let slots = dir.join("slots");
	let ok = std::fs::File::create(&slots).and_then(|f| f.set_len(SIZE as u64));
	if let Err(e) = ok {
		crate::explore::machinery_error(&format!("can not create {}: {e}", slots.display()));
	}
	let exe = std::env::current_exe().expect("path of this program");
	let status = child(&exe, args, &slots, false);
	let Some(signal) = crash_signal(status) else {
		let _ = std::fs::remove_dir_all(&dir);
		use std::os::unix::process::ExitStatusExt;
		match status.code() {
			Some(x) => std::process::exit(x),
			None => crate::explore::machinery_error(&format!("the check was ended by signal {:?}", status.signal())),
		}
	};
	// Find out which of the running executions it was.
	let data = std::fs::read(&slots).unwrap_or_default();
	if data.len() != SIZE {
		crate::explore::machinery_error("the notes about running executions are lost");
	}
	let name = slot(&data, 0).map(|x| String::from_utf8_lossy(x).into_owned()).unwrap_or_default();
	let candidates: Vec<Vec<u32>> = (1..=SLOTS)
		.filter_map(|i| slot(&data, i))
		.map(|x| x.chunks_exact(4).map(|c| u32::from_ne_bytes(c.try_into().unwrap())).collect())
		.collect();
	let mut v = Violation {
		scenario: name,
		message: format!("the process is ended by {signal}"),
		choices: Vec::new(),
		log: Vec::new(),
	};
	for choices in candidates {
		v.choices = choices;
		let path = dir.join("candidate.json");
		if std::fs::write(&path, crate::report::replay_text(property, &v)).is_err() {
			continue;
		}
		let args = ["mc".to_string(), property.to_string(), "replay".into(), path.display().to_string()];
		if crash_signal(child(&exe, &args, &slots, true)).is_some() {
			v.log.push("the execution that starts with these choices crashes".into());
			break;
		}
	}
	if v.log.is_empty() {
		v.log.push("no single execution that was running crashes again on its own".into());
	}
	crate::report::finish_without_result(v);
}

fn child(exe: &Path, args: &[String], slots: &PathBuf, quiet: bool) -> std::process::ExitStatus {
	let mut c = Command::new(exe);
	c.args(&args[1..]).env("MC_CHILD", "1").env("MC_SLOTS", slots);
	if quiet {
		c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
	}
	unsafe {
		use std::os::unix::process::CommandExt;
		c.pre_exec(|| {
			// No core files, and end with the parent.
			let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
			libc::setrlimit(libc::RLIMIT_CORE, &none);
			libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
			Ok(())
		});
	}
	match c.status() {
		Ok(x) => x,
		Err(e) => crate::explore::machinery_error(&format!("can not start {}: {e}", exe.display())),
	}
}
