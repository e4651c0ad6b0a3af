use mc::report::{Check, Tier};

mod fmt;
mod gen;
mod iface;
mod p18;

fn main() {
	let args: Vec<String> = std::env::args().collect();
	if args.len() < 3 || args[1] != "P18" {
		eprintln!("usage: typed P18 quick|thorough|replay [file]");
		std::process::exit(2);
	}
	mc::explore::install_panic_hook();
	let tier = match args[2].as_str() {
		"thorough" => Tier::Thorough,
		_ => Tier::Quick,
	};
	if args[2] != "replay" {
		// Sets what is reported if the child crashes.
		Check::new(&args[1], tier);
		mc::crash::supervise(&args[1], &args);
	}
	let mut check = Check::new(&args[1], tier);
	if args[2] == "replay" {
		let text = std::fs::read_to_string(&args[3]).expect("replay file");
		let (scenario, choices) = mc::report::parse_replay(&text).expect("parse replay file");
		check.set_replay(scenario, choices);
	}
	p18::p18(&mut check);
	check.finish()
}
