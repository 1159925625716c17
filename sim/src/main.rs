mod apart;
mod drive;
mod fam;
mod io;
mod run;
mod sched;
mod world;

fn main() {
	run::install_panic_hook();
	world::install_logger(log::LevelFilter::Off);
	let a: Vec<String> = std::env::args().skip(1).collect();
	let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
	// Whoever starts the others provides the scratch directory, and removes it
	let mine = std::env::var_os("SIM_SCRATCH").is_none() && a.first().is_some_and(|c| *c != "list");
	if mine {
		let name = format!("optivorbis-sim-{}", std::process::id());
		let shm = std::path::Path::new("/dev/shm").join(&name);
		let dir = if std::fs::create_dir(&shm).is_ok() { shm } else { drive::root().join("target").join(&name) };
		unsafe { std::env::set_var("SIM_SCRATCH", &dir) };
	}
	let code = match a[..] {
		["check", id] => drive::check(id),
		["worker", id, base, first, step, count, secs] => drive::worker(id, num(base), num(first), num(step), num(count), num(secs), false),
		["digest", id, base, first, step, count] => drive::worker(id, num(base), num(first), num(step), num(count), 100_000, true),
		["eval", file] => drive::eval(file),
		["shrink", file, out, secs] => drive::shrink_file(file, out, num(secs)),
		["replay", file] => drive::replay(file),
		["scenario", id, base, idx] => drive::show(id, num(base), num(idx)),
		["dump", file] => fam::dump(file),
		["bytes", file, out] => fam::bytes(file, out),
		["list"] => drive::list(),
		_ => {
			eprintln!("usage: sim check ID | replay FILE | digest ID SEED FIRST STEP COUNT | scenario ID SEED INDEX | list");
			2
		}
	};
	fam::cli::cleanup();
	if mine {
		let _ = std::fs::remove_dir_all(fam::cli::scratch_root());
	}
	std::process::exit(code);
}
fn num(s: &str) -> u64 {
	s.parse().unwrap_or_else(|_| {
		eprintln!("not a number: {s}");
		std::process::exit(2)
	})
}
