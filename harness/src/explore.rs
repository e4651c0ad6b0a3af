//! Stateless bounded exploration: every execution of a scenario is determined by the answers to its
//! `choose`/`deviate` calls, and the explorer enumerates all answer sequences exactly once.

use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// A property violation found in one execution.
#[derive(Debug, Clone)]
pub struct Fail(pub String);

impl<T: Into<String>> From<T> for Fail {
	fn from(x: T) -> Self {
		Fail(x.into())
	}
}

pub type Res<T = ()> = Result<T, Fail>;

/// Return a violation with a formatted message.
#[macro_export]
macro_rules! fail {
	($($t:tt)*) => { return Err($crate::explore::Fail(format!($($t)*))) };
}

/// Check a condition, returning a violation if it does not hold.
#[macro_export]
macro_rules! check {
	($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::explore::Fail(format!($($t)*))) } };
}

/// The nondeterminism of one execution.
pub struct Ctx {
	prefix: Vec<u32>,
	expect_last_n: Option<u32>,
	pub trace: Vec<(u32, u32)>,
	budget: u32,
	used: u32,
	pub steps: u64,
	pub logging: bool,
	pub log: Vec<String>,
	hash: u64,
	diverged: bool,
}

impl Ctx {
	fn new(prefix: Vec<u32>, expect_last_n: Option<u32>, budget: u32, logging: bool) -> Self {
		Self {
			prefix,
			expect_last_n,
			trace: Vec::new(),
			budget,
			used: 0,
			steps: 0,
			logging,
			log: Vec::new(),
			hash: 0xcbf29ce484222325,
			diverged: false,
		}
	}

	fn pick(&mut self, n: usize) -> usize {
		let i = self.trace.len();
		let chosen = if i < self.prefix.len() {
			let c = self.prefix[i];
			if i + 1 == self.prefix.len() {
				if let Some(e) = self.expect_last_n {
					if e != n as u32 {
						self.diverged = true;
					}
				}
			}
			if c as usize >= n {
				self.diverged = true;
				0
			} else {
				c
			}
		} else {
			0
		};
		self.trace.push((chosen, n as u32));
		chosen as usize
	}

	/// Choose one of `n` alternatives, all of which are explored.
	pub fn choose(&mut self, n: usize) -> usize {
		debug_assert!(n > 0);
		if n <= 1 {
			return 0;
		}
		self.pick(n)
	}

	/// Choose how a scheduler picks tasks by default, as one deviation (as an alternative without cost if there are no deviations at all).
	pub fn policy(&mut self, n: usize) -> usize {
		if self.budget == 0 {
			self.choose(n)
		} else {
			self.deviate(n)
		}
	}

	/// Choose between a default (0) and deviations from it (1..n), of which at most `budget` are taken per execution.
	pub fn deviate(&mut self, n: usize) -> usize {
		if n <= 1 || self.used >= self.budget {
			return 0;
		}
		let c = self.pick(n);
		if c != 0 {
			self.used += 1;
		}
		c
	}

	/// Number of deviations left.
	pub fn deviations_left(&self) -> u32 {
		self.budget - self.used
	}

	/// Count one transition of the system.
	pub fn step(&mut self) {
		self.steps += 1;
	}

	/// Fold an observation in the outcome of this execution.
	pub fn observe(&mut self, bytes: &[u8]) {
		for b in bytes {
			self.hash = (self.hash ^ *b as u64).wrapping_mul(0x100000001b3);
		}
		self.hash = (self.hash ^ 0x1ff).wrapping_mul(0x100000001b3);
	}

	/// Add a line to the log (evaluated only if logging is on).
	pub fn log(&mut self, f: impl FnOnce() -> String) {
		if self.logging {
			let s = f();
			self.log.push(s);
		}
	}
}

#[derive(Debug, Clone, Default)]
pub struct Stats {
	pub name: String,
	pub executions: u64,
	pub states: u64,
	pub transitions: u64,
	pub max_depth: usize,
	pub distinct_outcomes: u64,
	pub budget: Option<u32>,
	pub exhaustive: bool,
	pub wall_s: f64,
	pub sample: Vec<String>,
	pub unreproduced: Vec<String>,
}

#[derive(Debug, Clone)]
pub struct Violation {
	pub scenario: String,
	pub message: String,
	pub choices: Vec<u32>,
	pub log: Vec<String>,
}

/// Options for one exploration.
#[derive(Clone)]
pub struct Options {
	/// Number of deviations allowed per execution (`Ctx::deviate`).
	pub budget: u32,
	/// Stop (and report the exploration as not exhaustive) after this time.
	pub time_limit: Duration,
	/// An execution that takes longer than this is reported as a hang.
	pub hang_limit: Duration,
	pub threads: usize,
	/// The scenario uses the real kernel: a failure counts only if it happens again.
	pub real_io: bool,
	/// Source files of the harness that hold code generated by the code under test.
	pub generated_files: &'static [&'static str],
}

impl Default for Options {
	fn default() -> Self {
		Self {
			budget: 0,
			time_limit: Duration::from_secs(600),
			hang_limit: Duration::from_secs(60),
			threads: default_threads(),
			real_io: false,
			generated_files: &[],
		}
	}
}

pub fn default_threads() -> usize {
	std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4)
}

thread_local! {
	static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
	static IN_EXEC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Install a panic hook that records panics of executions instead of printing them.
pub fn install_panic_hook() {
	let default = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		let location = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let message = info
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| info.payload().downcast_ref::<String>().cloned())
			.unwrap_or_default();
		if IN_EXEC.with(|x| x.get()) {
			// The first panic is the cause, later ones are from unwinding.
			LAST_PANIC.with(|p| {
				let mut p = p.borrow_mut();
				if p.is_none() {
					*p = Some((message, location));
				}
			});
		} else {
			default(info);
		}
	}));
}

/// Mark the current thread as running code under test (used by helper threads).
pub fn record_panics_on_this_thread(on: bool) {
	IN_EXEC.with(|x| x.set(on));
}

/// Take the recorded panic of this thread.
pub fn take_panic() -> Option<(String, String)> {
	LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Something is wrong with the machinery itself. This is neither a pass nor a violation.
pub fn machinery_error(message: &str) -> ! {
	eprintln!("MACHINERY-ERROR: {message}");
	println!("MACHINERY-ERROR: {message}");
	std::process::exit(3);
}

fn is_harness_location(location: &str, generated: &[&str]) -> bool {
	location.starts_with("src/") && !generated.iter().any(|g| location.starts_with(g))
}

fn run_one<F>(f: &F, ctx: &mut Ctx, generated: &[&str]) -> Result<(), String>
where
	F: Fn(&mut Ctx) -> Res,
{
	IN_EXEC.with(|x| x.set(true));
	LAST_PANIC.with(|p| *p.borrow_mut() = None);
	let result = catch_unwind(AssertUnwindSafe(|| f(ctx)));
	IN_EXEC.with(|x| x.set(false));
	match result {
		// Panics that were caught somewhere (in a task of a runtime, for example) count too.
		Ok(Ok(())) => match take_panic() {
			Some((message, location)) => Err(describe_panic(&message, &location, generated)),
			None => Ok(()),
		},
		Ok(Err(Fail(e))) => match take_panic() {
			Some((message, location)) => Err(format!("{} ({e})", describe_panic(&message, &location, generated))),
			None => Err(e),
		},
		Err(_) => {
			let (message, location) = take_panic().unwrap_or_default();
			Err(describe_panic(&message, &location, generated))
		},
	}
}

/// Panics of the harness mean that something it relies on did not happen.
fn describe_panic(message: &str, location: &str, generated: &[&str]) -> String {
	if is_harness_location(location, generated) {
		format!("unexpected result at {location} of the harness: {message}")
	} else {
		format!("panic at {location}: {message}")
	}
}

struct Shared {
	stack: Mutex<(Vec<(Vec<u32>, Option<u32>)>, usize)>,
	cond: Condvar,
	stop: AtomicBool,
	violation: Mutex<Option<(String, Vec<u32>)>>,
	timed_out: AtomicBool,
}

/// Replay one execution with logging.
pub fn replay<F>(f: &F, choices: &[u32], opts: &Options) -> (Result<(), String>, Vec<String>)
where
	F: Fn(&mut Ctx) -> Res,
{
	let mut ctx = Ctx::new(choices.to_vec(), None, opts.budget, true);
	let r = run_one(f, &mut ctx, opts.generated_files);
	let mut log = std::mem::take(&mut ctx.log);
	if let Err(e) = &r {
		log.push(format!("==> {e}"));
	}
	(r, log)
}

/// Explore all executions of a scenario.
pub fn explore<F>(name: &str, opts: &Options, f: F) -> (Stats, Option<Violation>)
where
	F: Fn(&mut Ctx) -> Res + Sync,
{
	let start = Instant::now();
	crate::crash::scenario(name);
	let shared = Shared {
		stack: Mutex::new((vec![(Vec::new(), None)], 0)),
		cond: Condvar::new(),
		stop: AtomicBool::new(false),
		violation: Mutex::new(None),
		timed_out: AtomicBool::new(false),
	};
	let threads = opts.threads.max(1);
	let executions = AtomicU64::new(0);
	let states = AtomicU64::new(0);
	let transitions = AtomicU64::new(0);
	let max_depth = AtomicUsize::new(0);
	let outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
	let unreproduced: Mutex<Vec<String>> = Mutex::new(Vec::new());
	// For each worker: start of the current execution (ms since start, 0 = idle) and its prefix.
	let current: Vec<(AtomicU64, Mutex<Vec<u32>>)> = (0..threads).map(|_| (AtomicU64::new(0), Mutex::new(Vec::new()))).collect();
	let live = AtomicUsize::new(threads);

	std::thread::scope(|scope| {
		for worker in 0..threads {
			let shared = &shared;
			let f = &f;
			let (executions, states, transitions, max_depth, outcomes, current, live, unreproduced) =
				(&executions, &states, &transitions, &max_depth, &outcomes, &current, &live, &unreproduced);
			std::thread::Builder::new()
				.stack_size(16 << 20)
				.spawn_scoped(scope, move || {
					let mut local: Vec<(Vec<u32>, Option<u32>)> = Vec::new();
					let mut local_outcomes = HashSet::new();
					loop {
						// Get work.
						let item = match local.pop() {
							Some(x) => Some(x),
							None => {
								let mut guard = shared.stack.lock().unwrap();
								loop {
									if shared.stop.load(Ordering::Relaxed) {
										break None;
									}
									if let Some(x) = guard.0.pop() {
										guard.1 += 1;
										break Some(x);
									}
									if guard.1 == 0 {
										shared.cond.notify_all();
										break None;
									}
									guard = shared.cond.wait_timeout(guard, Duration::from_millis(20)).unwrap().0;
								}
							},
						};
						let Some((prefix, expect)) = item else { break };
						if shared.stop.load(Ordering::Relaxed) {
							break;
						}
						if start.elapsed() > opts.time_limit {
							shared.timed_out.store(true, Ordering::Relaxed);
							shared.stop.store(true, Ordering::Relaxed);
							shared.cond.notify_all();
							break;
						}

						let prefix_len = prefix.len();
						current[worker].1.lock().unwrap().clone_from(&prefix);
						crate::crash::started(worker, &prefix);
						current[worker].0.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
						let mut ctx = Ctx::new(prefix, expect, opts.budget, false);
						let result = run_one(f, &mut ctx, opts.generated_files);
						current[worker].0.store(0, Ordering::Relaxed);
						crate::crash::ended(worker);

						if ctx.diverged || ctx.trace.len() < prefix_len {
							// Then the subtree that belongs to this prefix is not covered.
							let mut u = unreproduced.lock().unwrap();
							if u.len() < 20 {
								u.push(format!("diverging replay of {:?}", ctx.prefix));
							}
						}

						executions.fetch_add(1, Ordering::Relaxed);
						states.fetch_add((ctx.trace.len().saturating_sub(prefix_len)) as u64 + 1, Ordering::Relaxed);
						transitions.fetch_add(ctx.steps.max(ctx.trace.len() as u64), Ordering::Relaxed);
						max_depth.fetch_max(ctx.trace.len(), Ordering::Relaxed);
						local_outcomes.insert(ctx.hash);

						if let Err(message) = result {
							let choices: Vec<u32> = ctx.trace.iter().map(|x| x.0).collect();
							// With real I/O, it has to happen three times out of five again.
							let (attempts, needed) = if opts.real_io { (5, 3) } else { (2, 1) };
							let mut failures = 0;
							for _ in 0..attempts {
								failures += replay(f, &choices, opts).0.is_err() as u32;
								if failures >= needed {
									break;
								}
							}
							let confirmed = failures >= needed;
							if !confirmed && opts.real_io {
								unreproduced.lock().unwrap().push(format!("{message} choices={choices:?}"));
							} else {
								// Without real I/O every failure is one of the code, even if it depends on something random.
								let message = if confirmed { message } else { format!("{message} (not every time)") };
								let mut v = shared.violation.lock().unwrap();
								// Prefer the shortest one.
								if v.as_ref().map_or(true, |(_, c)| c.len() > choices.len()) {
									*v = Some((message, choices));
								}
								shared.stop.store(true, Ordering::Relaxed);
								shared.cond.notify_all();
								break;
							}
						}

						// Push all alternatives that were not taken.
						for i in prefix_len..ctx.trace.len() {
							let (chosen, n) = ctx.trace[i];
							debug_assert!(chosen == 0);
							for alt in 1..n {
								let mut p: Vec<u32> = ctx.trace[..i].iter().map(|x| x.0).collect();
								p.push(alt);
								local.push((p, Some(n)));
							}
						}

						// Share work (the oldest items, which have the largest subtrees) if others are idle.
						if local.len() > 1 {
							if let Ok(mut guard) = shared.stack.try_lock() {
								if guard.0.len() < threads * 2 {
									let give = (local.len() / 2).max(1);
									guard.0.extend(local.drain(..give));
									shared.cond.notify_all();
								}
							}
						}
						if local.is_empty() {
							let mut guard = shared.stack.lock().unwrap();
							guard.1 -= 1;
							if guard.1 == 0 && guard.0.is_empty() {
								shared.cond.notify_all();
							}
						}
					}
					shared.cond.notify_all();
					outcomes.lock().unwrap().extend(local_outcomes);
					live.fetch_sub(1, Ordering::Relaxed);
				})
				.expect("spawn worker");
		}

		// Watchdog.
		let mut tick = 0u32;
		while live.load(Ordering::Relaxed) > 0 {
			std::thread::sleep(Duration::from_millis(if tick < 20 { 2 } else { 50 }));
			tick += 1;
			let now = start.elapsed().as_millis() as u64;
			for (since, prefix) in &current {
				let since = since.load(Ordering::Relaxed);
				if since != 0 && now.saturating_sub(since) > opts.hang_limit.as_millis() as u64 {
					let choices = prefix.lock().unwrap().clone();
					let violation = Violation {
						scenario: name.to_string(),
						message: format!("an execution does not terminate (longer than {:?}): endless loop or lost wake-up", opts.hang_limit),
						choices,
						log: vec!["the execution that starts with these choices did not end".into()],
					};
					// The stuck thread can not be stopped, so end the process here.
					crate::report::finish_without_result(violation);
				}
			}
		}
	});

	let violation = shared.violation.lock().unwrap().take();
	let violation = violation.map(|(message, choices)| {
		let (_r, log) = replay(&f, &choices, opts);
		Violation {
			scenario: name.to_string(),
			message,
			choices,
			log,
		}
	});
	// One sample: the default execution, or the failing one.
	let sample = match &violation {
		Some(v) => v.log.clone(),
		None => replay(&f, &[], opts).1,
	};
	let distinct_outcomes = outcomes.lock().unwrap().len() as u64;
	let unreproduced = std::mem::take(&mut *unreproduced.lock().unwrap());
	let stats = Stats {
		name: name.to_string(),
		executions: executions.into_inner(),
		states: states.into_inner(),
		transitions: transitions.into_inner(),
		max_depth: max_depth.into_inner(),
		distinct_outcomes,
		budget: if opts.budget > 0 { Some(opts.budget) } else { None },
		exhaustive: !shared.timed_out.load(Ordering::Relaxed) && violation.is_none() && unreproduced.is_empty(),
		wall_s: start.elapsed().as_secs_f64(),
		sample,
		unreproduced,
	};
	(stats, violation)
}
