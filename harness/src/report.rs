//! Collects the explorations of one check, writes evidence and replay files, and ends the process.

use crate::explore::{explore, Ctx, Options, Res, Stats, Violation};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CURRENT: Mutex<Option<(String, Tier, Instant)>> = Mutex::new(None);

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum Tier {
	Quick,
	Thorough,
}

/// One check run.
pub struct Check {
	pub property: String,
	pub tier: Tier,
	pub start: Instant,
	stats: Vec<Stats>,
	violation: Option<Violation>,
	pub assumptions: Vec<String>,
	pub extra: Vec<(String, String)>,
	replay: Option<(String, Vec<u32>)>,
	only: Option<String>,
	/// Total time after which explorations are cut short (and reported as not exhaustive).
	pub deadline: Duration,
}

pub fn verif_dir() -> PathBuf {
	std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn json_str(s: &str) -> String {
	let mut out = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => out += "\\\"",
			'\\' => out += "\\\\",
			'\n' => out += "\\n",
			'\t' => out += "\\t",
			c if (c as u32) < 0x20 => out += &format!("\\u{:04x}", c as u32),
			c => out.push(c),
		}
	}
	out.push('"');
	out
}

fn json_list<T: AsRef<str>>(items: &[T]) -> String {
	format!("[{}]", items.iter().map(|x| json_str(x.as_ref())).collect::<Vec<_>>().join(", "))
}

impl Check {
	pub fn new(property: &str, tier: Tier) -> Self {
		let start = Instant::now();
		*CURRENT.lock().unwrap() = Some((property.to_string(), tier, start));
		Self {
			property: property.to_string(),
			tier,
			start,
			stats: Vec::new(),
			violation: None,
			assumptions: if crate::hooks::HOOKS { Vec::new() } else { vec!["fizyr-rpc does not build with its hooks: scenarios that need them were left out.".into()] },
			extra: Vec::new(),
			replay: None,
			only: std::env::var("MC_ONLY").ok(),
			deadline: match tier {
				Tier::Quick => Duration::from_secs(300),
				Tier::Thorough => Duration::from_secs(3600),
			},
		}
	}

	/// Replay a recorded execution instead of exploring.
	pub fn set_replay(&mut self, scenario: String, choices: Vec<u32>) {
		self.replay = Some((scenario, choices));
	}

	pub fn thorough(&self) -> bool {
		self.tier == Tier::Thorough
	}

	/// Pick a bound depending on the tier.
	pub fn bound<T>(&self, quick: T, thorough: T) -> T {
		match self.tier {
			Tier::Quick => quick,
			Tier::Thorough => thorough,
		}
	}

	/// Are the hooks in fizyr-rpc available?
	pub fn hooks(&self) -> bool {
		crate::hooks::HOOKS
	}

	/// Explore a scenario without deviation bound.
	pub fn run<F>(&mut self, name: &str, f: F)
	where
		F: Fn(&mut Ctx) -> Res + Sync,
	{
		self.run_opts(name, Options::default(), f)
	}

	/// Explore a scenario with a bound on the number of deviations from the default.
	pub fn run_budget<F>(&mut self, name: &str, budget: u32, f: F)
	where
		F: Fn(&mut Ctx) -> Res + Sync,
	{
		self.run_opts(name, Options { budget, ..Options::default() }, f)
	}

	pub fn run_opts<F>(&mut self, name: &str, mut opts: Options, f: F)
	where
		F: Fn(&mut Ctx) -> Res + Sync,
	{
		if let Some((scenario, choices)) = &self.replay {
			if scenario == name {
				let (result, log) = crate::explore::replay(&f, choices, &opts);
				for line in log {
					println!("{line}");
				}
				match result {
					Ok(()) => {
						println!("replay of {name}: no violation");
						std::process::exit(0);
					},
					Err(e) => {
						println!("replay of {name}: {e}");
						std::process::exit(1);
					},
				}
			}
			return;
		}
		if self.violation.is_some() {
			return;
		}
		if let Some(only) = &self.only {
			if !name.contains(only.as_str()) {
				return;
			}
		}
		let left = self.deadline.saturating_sub(self.start.elapsed());
		if opts.time_limit > left {
			opts.time_limit = left;
		}
		let (stats, violation) = explore(name, &opts, f);
		eprintln!(
			"[{}] {}: {} executions, {} states, {} transitions, depth {}, {} outcomes, {:.1}s{}",
			self.property,
			name,
			stats.executions,
			stats.states,
			stats.transitions,
			stats.max_depth,
			stats.distinct_outcomes,
			stats.wall_s,
			if stats.exhaustive { "" } else { " (NOT exhaustive)" }
		);
		for u in &stats.unreproduced {
			eprintln!("[{}] {}: did not happen again, ignored: {}", self.property, name, u);
		}
		self.stats.push(stats);
		self.violation = violation;
	}

	/// Record a result that was computed outside of the explorer (an exhaustive loop, for example).
	pub fn add(&mut self, stats: Stats, violation: Option<Violation>) {
		eprintln!(
			"[{}] {}: {} executions, {} states, {} transitions, {:.1}s{}",
			self.property,
			stats.name,
			stats.executions,
			stats.states,
			stats.transitions,
			stats.wall_s,
			if stats.exhaustive { "" } else { " (NOT exhaustive)" }
		);
		self.stats.push(stats);
		if self.violation.is_none() {
			self.violation = violation;
		}
	}

	pub fn skip(&self, name: &str) -> bool {
		self.violation.is_some()
			|| self.replay.as_ref().is_some_and(|(s, _)| s != name)
			|| self.only.as_ref().is_some_and(|o| !name.contains(o.as_str()))
	}

	/// Write the evidence file and end the process.
	pub fn finish(self) -> ! {
		remove_scratch();
		if let Some((scenario, _)) = &self.replay {
			println!("no scenario {scenario} in this check");
			std::process::exit(2);
		}
		if self.stats.is_empty() {
			crate::explore::machinery_error("nothing was explored");
		}
		write_evidence(&self.property, self.tier, self.start, &self.stats, self.violation.is_some(), &self.assumptions, &self.extra);
		match self.violation {
			None => {
				println!("OK property={} executions={} wall={:.1}s", self.property, self.stats.iter().map(|s| s.executions).sum::<u64>(), self.start.elapsed().as_secs_f64());
				std::process::exit(0)
			},
			Some(v) => {
				report_violation(&self.property, &v);
				std::process::exit(1)
			},
		}
	}
}

/// Remove the scratch files of this process, and of processes that were ended.
fn remove_scratch() {
	let _ = std::fs::remove_dir_all(crate::real::scratch_root());
	for entry in std::fs::read_dir(verif_dir().join("target")).into_iter().flatten().flatten() {
		let name = entry.file_name();
		let Some(pid) = name.to_str().and_then(|x| x.strip_prefix('s')).and_then(|x| x.parse::<u32>().ok()) else { continue };
		if !std::path::Path::new(&format!("/proc/{pid}")).exists() {
			let _ = std::fs::remove_dir_all(entry.path());
		}
	}
}

/// The contents of a replay file.
pub fn replay_text(property: &str, v: &Violation) -> String {
	let path = replay_path(property);
	format!(
		"{{\n \"property\": {},\n \"scenario\": {},\n \"message\": {},\n \"choices\": {:?},\n \"replay_with\": {},\n \"log\": [\n  {}\n ]\n}}\n",
		json_str(property),
		json_str(&v.scenario),
		json_str(&v.message),
		v.choices,
		json_str(&format!("bash /verif/run.sh {property} replay {}", path.display())),
		v.log.iter().map(|l| json_str(l)).collect::<Vec<_>>().join(",\n  "),
	)
}

fn replay_path(property: &str) -> PathBuf {
	verif_dir().join("evidence").join(format!("replay-{property}.json"))
}

fn report_violation(property: &str, v: &Violation) {
	let path = replay_path(property);
	let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
	let text = replay_text(property, v);
	if std::fs::write(&path, text).is_err() {
		eprintln!("could not write {}", path.display());
	}
	println!("scenario {}: {}", v.scenario, v.message);
	let n = v.log.len();
	for line in v.log.iter().skip(n.saturating_sub(60)) {
		println!("  {line}");
	}
	println!("VIOLATION property={property} replay={}", path.display());
}

fn write_evidence(property: &str, tier: Tier, start: Instant, stats: &[Stats], violated: bool, assumptions: &[String], extra: &[(String, String)]) {
	let dir = verif_dir().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
	let mut scenarios = Vec::new();
	for s in stats {
		scenarios.push(format!(
			"{{\"name\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"max_depth\": {}, \"distinct_outcomes\": {}, \"deviation_bound\": {}, \"exhaustive_within_bounds\": {}, \"wall_s\": {:.2}, \"not_reproduced\": {}}}",
			json_str(&s.name),
			s.executions,
			s.states,
			s.transitions,
			s.max_depth,
			s.distinct_outcomes,
			s.budget.map(|b| b.to_string()).unwrap_or("null".into()),
			s.exhaustive,
			s.wall_s,
			json_list(&s.unreproduced),
		));
	}
	let mut samples = Vec::new();
	for s in stats {
		if samples.len() < 12 {
			let mut lines = s.sample.clone();
			if lines.len() > 40 {
				lines.truncate(40);
				lines.push("...".into());
			}
			samples.push(format!("{{\"scenario\": {}, \"execution\": {}}}", json_str(&s.name), json_list(&lines)));
		}
	}
	let extra: String = extra.iter().map(|(k, v)| format!("  {}: {},\n", json_str(k), json_str(v))).collect();
	let text = format!(
		"{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n{}  \"scenarios\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
		json_str(property),
		match tier {
			Tier::Quick => "quick",
			Tier::Thorough => "thorough",
		},
		seed,
		stats.iter().map(|s| s.states).sum::<u64>(),
		stats.iter().map(|s| s.transitions).sum::<u64>(),
		stats.iter().map(|s| s.executions).sum::<u64>(),
		stats.iter().map(|s| s.distinct_outcomes).sum::<u64>(),
		!violated && stats.iter().all(|s| s.exhaustive),
		extra,
		scenarios.join(",\n   "),
		samples.join(",\n   "),
		json_list(assumptions),
		start.elapsed().as_secs_f64(),
		violated as u32,
	);
	let path = dir.join(format!("{property}.json"));
	if let Err(e) = std::fs::write(&path, text) {
		crate::explore::machinery_error(&format!("can not write {}: {e}", path.display()));
	}
}

/// An execution hangs or crashed: report it and end the process, since its thread can not be stopped.
pub fn finish_without_result(v: Violation) -> ! {
	remove_scratch();
	let current = CURRENT.lock().unwrap().clone();
	if let Some((property, tier, start)) = current {
		let stats = Stats { name: v.scenario.clone(), executions: 1, states: 1, transitions: 1, sample: v.log.clone(), ..Default::default() };
		write_evidence(&property, tier, start, &[stats], true, &[], &[]);
		report_violation(&property, &v);
		std::process::exit(1);
	}
	crate::explore::machinery_error("hang or crash outside of a check");
}

/// Read scenario and choices from a replay file.
pub fn parse_replay(text: &str) -> Option<(String, Vec<u32>)> {
	let mut scenario = None;
	let mut choices = None;
	for line in text.lines() {
		if let Some(x) = line.trim().strip_prefix("\"scenario\": \"") {
			scenario = Some(x.trim_end_matches("\",").replace("\\\"", "\"").replace("\\\\", "\\"));
		}
		if let Some(x) = line.trim().strip_prefix("\"choices\": [") {
			let x = x.trim_end_matches(',').trim_end_matches(']');
			choices = Some(x.split(',').filter_map(|n| n.trim().parse().ok()).collect());
		}
	}
	Some((scenario?, choices?))
}
