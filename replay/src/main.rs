//! Runs harnesses natively on recorded values.
//!
//! `replay list` prints every harness; `replay run NAME FILE` runs one on the
//! values in FILE (one comma-separated list of octets per line).
//!
//! Exit status: 0 the harness held; 1 it failed (assertion or panic);
//! 3 the values do not belong to the native run. Undefined behaviour may end
//! the process otherwise (signal), or be reported by Miri.

use vharness::sym;

fn main() {
	let args: Vec<String> = std::env::args().collect();

	match args.get(1).map(String::as_str) {
		Some("list") => {
			for e in vharness::registry() {
				println!("{}\t{}\t{}\t{}", e.name, e.unwind.0, e.unwind.1, e.doc.trim());
			}
		}
		Some("run") => {
			let name = &args[2];
			let text = match args[3].strip_prefix("inline:") {
				Some(t) => t.replace(';', "\n"),
				None => std::fs::read_to_string(&args[3]).expect("cannot read the values"),
			};

			let trace: Vec<Vec<u8>> = text
				.lines()
				.map(str::trim)
				.filter(|l| !l.is_empty() && !l.starts_with('#'))
				.map(|l| l.split(',').map(|o| o.trim().parse().expect("bad octet")).collect())
				.collect();

			let entry = vharness::registry()
				.find(|e| e.name.ends_with(&format!("::{name}")))
				.expect("no such harness");

			sym::load(trace);

			let hook = std::panic::take_hook();
			std::panic::set_hook(Box::new(move |info| {
				if !info.payload().is::<sym::Diverged>() {
					hook(info);
				}
			}));

			let r = std::panic::catch_unwind(entry.run);
			let covers = sym::COVERS.with(|c| c.borrow().clone());

			for c in covers {
				println!("COVERED {c}");
			}

			match r {
				Ok(()) => println!("HELD"),
				Err(e) => match e.downcast_ref::<sym::Diverged>() {
					Some(d) => {
						println!("DIVERGED {}", d.0);
						std::process::exit(3);
					}
					None => {
						println!("FAILED");
						std::process::exit(1);
					}
				},
			}
		}
		_ => {
			eprintln!("usage: replay list | replay run NAME FILE");
			std::process::exit(2);
		}
	}
}
