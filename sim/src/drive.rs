//! Runs batches of seeded scenarios in worker processes, minimises what fails, and writes
//! replay files and evidence.

use crate::{
	fam::{self, Prop},
	run::{Ctx, guarded}
};
use simcore::{
	json::J,
	model::Viol,
	obj,
	rng::{Hash64, Rng, mix}
};
use std::{
	collections::{BTreeMap, HashSet},
	io::{BufRead, BufReader, BufWriter, Write},
	path::PathBuf,
	process::{Child, Command, Stdio},
	sync::mpsc,
	time::{Duration, Instant}
};

pub fn root() -> PathBuf {
	std::env::var_os("VERIF_ROOT").map_or_else(|| "/verif".into(), PathBuf::from)
}

fn find(id: &str) -> Option<Prop> {
	fam::props().into_iter().find(|p| p.id == id)
}

/// The scenario with the given number under the given base seed.
pub fn scenario(p: &Prop, base: u64, index: u64) -> J {
	let mut h = Hash64::default();
	h.bytes(p.id.as_bytes());
	h.u64(base);
	h.u64(index);
	let mut r = Rng::new(mix(h.0));
	(p.fam.make)(&mut r)
}

pub fn list() -> i32 {
	for p in fam::props() {
		println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
	}
	0
}

pub fn show(id: &str, base: u64, index: u64) -> i32 {
	let Some(p) = find(id) else { return 2 };
	let sc = scenario(&p, base, index);
	print!("{}", obj! {"property" => id, "class" => "", "scenario" => sc}.pretty());
	0
}

fn run_one(p: &Prop, sc: &J, ctx: &mut Ctx) {
	if let Err(m) = guarded(|| (p.fam.run)(sc, ctx)) {
		// The harness itself must not panic; what the code under test does is caught closer to it
		ctx.viols.push(Viol { prop: ctx.prop, class: "harness".into(), msg: m });
	}
	crate::world::reset();
	crate::world::set_yield(None);
}

pub fn worker(id: &str, base: u64, first: u64, step: u64, count: u64, secs: u64, digest: bool) -> i32 {
	let Some(p) = find(id) else { return 2 };
	let start = Instant::now();
	let mut out = BufWriter::new(std::io::stdout());
	let mut ctx = Ctx::new(p.id);
	let known = known(id).unwrap_or_default();
	let mut done = 0u64;
	let mut i = first;
	while i < count {
		if start.elapsed().as_secs() >= secs {
			break;
		}
		if !digest {
			writeln!(out, "s {i}").unwrap();
			out.flush().unwrap();
		}
		let sc = scenario(&p, base, i);
		if digest {
			ctx.st.digest = Hash64::default();
		}
		run_one(&p, &sc, &mut ctx);
		if digest {
			let mut d = ctx.st.digest;
			for v in ctx.viols.drain(..) {
				d.bytes(v.class.as_bytes());
			}
			writeln!(out, "{i} {:016x}", d.0).unwrap();
		}
		for v in std::mem::take(&mut ctx.viols) {
			if known.iter().any(|k| k.class == v.class) {
				ctx.count(&format!("known:{}", v.class), 1);
				continue;
			}
			let j = obj! {"property" => v.prop, "class" => v.class, "message" => v.msg, "seed" => base, "index" => i, "scenario" => sc.clone()};
			writeln!(out, "v {}", j.dump()).unwrap();
			out.flush().unwrap();
		}
		done += 1;
		i += step;
	}
	if digest {
		let _ = out.flush();
		return 0;
	}
	let mut c = obj! {};
	for (k, n) in &ctx.st.counters {
		c.set(k, *n);
	}
	let j = obj! {"seeds" => done, "runs" => ctx.st.runs, "ops" => ctx.st.ops, "sim_ns" => ctx.st.sim_ns, "digest" => ctx.st.digest.0, "counters" => c};
	for (tag, set) in [("h", &ctx.st.states), ("p", &ctx.st.shapes)] {
		let v: Vec<u64> = set.iter().copied().collect();
		for c in v.chunks(1000) {
			write!(out, "{tag}").unwrap();
			for x in c {
				write!(out, " {x:x}").unwrap();
			}
			writeln!(out).unwrap();
		}
	}
	writeln!(out, "d {}", j.dump()).unwrap();
	out.flush().unwrap();
	0
}

/// CPU time a child of ours has used, in clock ticks.
fn cpu_ticks(pid: u32) -> Option<u64> {
	let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
	let rest = &s[s.rfind(')')? + 2..];
	let f: Vec<&str> = rest.split(' ').collect();
	Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

struct W {
	child: Child,
	current: Option<u64>,
	since: Instant,
	ticks: u64,
	done: bool
}

struct Known {
	class: String,
	replay: PathBuf,
	what: String
}
/// `finding: property=C01 class=cut-pad replay=known/x.json what fails`
fn known(id: &str) -> Result<Vec<Known>, String> {
	let p = root().join("KNOWN_FINDINGS");
	let t = match std::fs::read_to_string(&p) {
		Ok(t) => t,
		Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(vec![]),
		Err(e) => return Err(e.to_string())
	};
	let mut v = vec![];
	for l in t.lines() {
		let Some(rest) = l.strip_prefix("finding: ") else { continue };
		let mut w = rest.splitn(4, ' ');
		let (p, c, r, what) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
		let (Some(p), Some(c), Some(r)) = (p.strip_prefix("property="), c.strip_prefix("class="), r.strip_prefix("replay=")) else {
			return Err(format!("cannot read this line of KNOWN_FINDINGS: {l}"));
		};
		if p == id {
			v.push(Known { class: c.into(), replay: root().join(r), what: what.into() });
		}
	}
	Ok(v)
}

enum Msg {
	Line(usize, String),
	End(usize)
}

const STALL: Duration = Duration::from_secs(90);

pub fn check(id: &str) -> i32 {
	let t0 = Instant::now();
	let Some(p) = find(id) else {
		eprintln!("no such property: {id}");
		return 2;
	};
	let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
	let thorough = tier == "thorough";
	let base: u64 = match std::env::var("VERIF_SEED") {
		Ok(s) => match s.trim().parse::<i64>() {
			Ok(v) => v as u64,
			Err(_) => {
				let mut h = Hash64::default();
				h.bytes(s.as_bytes());
				h.0 >> 1
			}
		},
		Err(_) => 1
	};
	println!("seed {base}, property {id}, tier {}", if thorough { "thorough" } else { "quick" });
	let known = match known(id) {
		Ok(k) => k,
		Err(e) => {
			eprintln!("{e}");
			return 2;
		}
	};
	let count = if thorough { p.thorough } else { p.quick };
	let count = std::env::var("SIM_COUNT").ok().and_then(|s| s.parse().ok()).unwrap_or(count);
	let secs: u64 = if thorough { 760 } else { 330 };
	let n = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16);
	let exe = std::env::current_exe().unwrap();
	let (tx, rx) = mpsc::channel();
	let mut ws: Vec<W> = vec![];
	for i in 0..n {
		let spawned = Command::new(&exe)
			.args(["worker", id, &base.to_string(), &i.to_string(), &n.to_string(), &count.to_string(), &secs.to_string()])
			.stdin(Stdio::null())
			.stdout(Stdio::piped())
			.spawn();
		let mut child = match spawned {
			Ok(c) => c,
			Err(e) => {
				eprintln!("cannot start a worker: {e}");
				return 2;
			}
		};
		let o = child.stdout.take().unwrap();
		let tx = tx.clone();
		std::thread::spawn(move || {
			for l in BufReader::new(o).lines() {
				let Ok(l) = l else { break };
				if tx.send(Msg::Line(i, l)).is_err() {
					return;
				}
			}
			let _ = tx.send(Msg::End(i));
		});
		ws.push(W { child, current: None, since: Instant::now(), ticks: 0, done: false });
	}
	drop(tx);
	let mut found: Vec<J> = vec![];
	let mut counters: BTreeMap<String, u64> = BTreeMap::new();
	let (mut states, mut shapes) = (HashSet::<u64>::new(), HashSet::<u64>::new());
	let (mut seeds, mut runs, mut ops, mut sim_ns) = (0u64, 0u64, 0u64, 0u128);
	let mut broken: Option<String> = None;
	let mut left = n;
	let kill_all = |ws: &mut Vec<W>| {
		for w in ws.iter_mut() {
			let _ = w.child.kill();
			let _ = w.child.wait();
		}
	};
	let mut stop_at: Option<Instant> = None;
	while left > 0 {
		match rx.recv_timeout(Duration::from_millis(500)) {
			Ok(Msg::Line(i, l)) => {
				let (tag, rest) = l.split_once(' ').unwrap_or((&l, ""));
				match tag {
					"s" => {
						ws[i].current = rest.parse().ok();
						ws[i].since = Instant::now();
						ws[i].ticks = 0;
					}
					"h" | "p" => {
						let set = if tag == "h" { &mut states } else { &mut shapes };
						set.extend(rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()));
					}
					"v" => match J::parse(rest) {
						Ok(j) => {
							let c = j.get("class").str().to_string();
							if c == "harness" {
								broken = Some(format!("the harness failed: {}", j.get("message").str()));
							} else {
								found.push(j);
								// A little more time, so that the report does not depend on which worker was fastest
								stop_at.get_or_insert(Instant::now() + Duration::from_secs(1));
							}
						}
						Err(e) => broken = Some(e)
					},
					"d" => {
						if let Ok(j) = J::parse(rest) {
							seeds += j.get("seeds").u64();
							runs += j.get("runs").u64();
							ops += j.get("ops").u64();
							sim_ns += j.get("sim_ns").int().max(0) as u128;
							if let J::Obj(o) = j.get("counters") {
								for (k, v) in o {
									*counters.entry(k.clone()).or_default() += v.u64();
								}
							}
							ws[i].done = true;
						}
					}
					_ => ()
				}
			}
			Ok(Msg::End(i)) => {
				left -= 1;
				let st = ws[i].child.wait();
				if !ws[i].done && stop_at.is_none() {
					let how = match st {
						Ok(s) => s.to_string(),
						Err(e) => e.to_string()
					};
					match ws[i].current {
						Some(c) => {
							// Ended by the memory guard is not a verdict on the code
							if ended_for_memory(ws[i].child.id()) {
								broken = Some("a worker was ended because memory ran low".into());
							} else {
								found.push(obj! {"property" => id, "class" => "crash", "message" => format!("the process died ({how})"), "seed" => base, "index" => c, "scenario" => scenario(&p, base, c)});
							}
						}
						None => broken = Some(format!("a worker died early ({how})"))
					}
					stop_at.get_or_insert(Instant::now() + Duration::from_secs(1));
				}
			}
			Err(mpsc::RecvTimeoutError::Timeout) => (),
			Err(_) => break
		}
		for w in ws.iter_mut().filter(|w| !w.done && w.current.is_some()) {
			let waited = w.since.elapsed();
			let Some(now) = cpu_ticks(w.child.id()) else { continue };
			if w.ticks == 0 {
				w.ticks = now.max(1);
			}
			// Stuck: a long time has passed, most of it spent computing, or none at all
			let cpu = Duration::from_millis((now - w.ticks.min(now)) * 10);
			if stop_at.is_none() && ((waited > STALL && cpu > STALL / 2) || waited > STALL * 3) {
				let c = w.current.unwrap();
				found.push(obj! {"property" => id, "class" => "hang", "message" => format!("no result after {} s ({} s of CPU time)", waited.as_secs(), cpu.as_secs()), "seed" => base, "index" => c, "scenario" => scenario(&p, base, c)});
				stop_at = Some(Instant::now());
			}
		}
		if broken.is_some() || stop_at.is_some_and(|s| Instant::now() >= s) || t0.elapsed().as_secs() > secs + 120 {
			kill_all(&mut ws);
			break;
		}
	}
	kill_all(&mut ws);
	if let (Some(b), true) = (&broken, found.is_empty()) {
		eprintln!("check of {id} is broken: {b}");
		return 3;
	}
	// Known findings are shown to be still there
	let mut findings = vec![];
	for k in &known {
		let hit = std::fs::read_to_string(&k.replay).ok().and_then(|t| J::parse(&t).ok()).is_some_and(|j| {
			let mut ctx = Ctx::new(p.id);
			run_one(&p, j.get("scenario"), &mut ctx);
			ctx.viols.iter().any(|v| v.class == k.class)
		});
		if hit {
			println!("KNOWN-FINDING: property={id} {}", k.what);
		} else {
			println!("note: the known finding '{}' does not show on this tree", k.class);
		}
		findings.push(obj! {"class" => k.class.clone(), "what" => k.what.clone(), "reproduced" => hit, "met_again_by_search" => *counters.get(&format!("known:{}", k.class)).unwrap_or(&0)});
	}
	let mut violations = 0;
	let mut replay_path = String::new();
	if !found.is_empty() {
		found.sort_by_key(|j| (j.get("class").str() == "crash" || j.get("class").str() == "hang", j.get("index").u64()));
		violations = found.len();
		let f = &found[0];
		let dir = root().join("target/replays");
		let _ = std::fs::create_dir_all(&dir);
		let raw = dir.join(format!("{id}-{}.raw.json", std::process::id()));
		let fin = dir.join(format!("{id}-{base}-{}-{}.json", f.get("index").u64(), f.get("class").str().replace(|c: char| !c.is_ascii_alphanumeric() && c != '-', "_")));
		let _ = std::fs::write(&raw, f.pretty());
		let _ = std::fs::write(&fin, f.pretty());
		let child = Command::new(&exe)
			.args(["shrink", raw.to_str().unwrap(), fin.to_str().unwrap(), if thorough { "60" } else { "45" }])
			.stdin(Stdio::null())
			.stdout(Stdio::null())
			.spawn();
		if let Ok(mut c) = child {
			let t = Instant::now();
			while let Ok(None) = c.try_wait() {
				if t.elapsed().as_secs() > 100 {
					let _ = c.kill();
					let _ = c.wait();
					break;
				}
				std::thread::sleep(Duration::from_millis(20));
			}
		}
		let _ = std::fs::remove_file(&raw);
		replay_path = fin.display().to_string();
		let j = std::fs::read_to_string(&fin).ok().and_then(|t| J::parse(&t).ok()).unwrap_or_else(|| f.clone());
		println!("violation of {id} ({}): {}", j.get("class").str(), j.get("message").str());
		println!("seed {base}, scenario {}; replay with: {}/bin/replay {replay_path}", f.get("index").u64(), root().display());
	}
	let (again, differing) = if violations == 0 { rerun(&exe, id, base, count) } else { (0, 0) };
	if differing > 0 {
		eprintln!("{differing} of {again} scenarios that were run twice more did not repeat exactly");
	}
	let wall = t0.elapsed().as_secs_f64();
	let mut samples = vec![];
	for i in [0, count / 2] {
		let t = scenario(&p, base, i).dump();
		samples.push(J::Str(t.chars().take(3000).collect()));
	}
	let group = |pre: &str| {
		let mut o = obj! {};
		for (k, v) in &counters {
			if let Some(k) = k.strip_prefix(pre) {
				o.set(k, *v);
			}
		}
		o
	};
	let cov = obj! {
		"evaluations" => runs,
		"distinct_nontrivial" => states.len(),
		"rule" => p.rule,
		"samples" => J::Arr(samples),
		"seeds" => seeds,
		"seeds_planned" => count,
		"runs_per_hour" => (runs as f64 / wall * 3600.0) as u64,
		"seeds_per_hour" => (seeds as f64 / wall * 3600.0) as u64,
		"simulated_operations" => ops,
		"simulated_clock_span_seconds" => (sim_ns / 1_000_000_000) as u64,
		"distinct_stream_shapes" => shapes.len(),
		"faults_fired" => group("fault:"),
		"results" => group("result:"),
		"judged" => group("judged:"),
		"probes" => group("probe:"),
		"tolerated" => group("tolerated:"),
		"known_findings" => J::Arr(findings),
		"scenarios_run_twice_more" => again,
		"of_those_not_exactly_repeated" => differing,
		"real_components" => p.real,
		"stub_components" => p.stubs
	};
	let ev = obj! {
		"property" => id, "tier" => if thorough { "thorough" } else { "quick" }, "seed" => base as i64, "level" => p.level, "coverage" => cov,
		"assumptions" => vec![
			"the reference codec in sim/simcore agrees with the Vorbis I and Ogg specifications",
			"the seeded search samples the space of inputs, schedules and faults; it does not exhaust it"
		],
		"wall_s" => wall, "violations" => violations
	};
	let dir = root().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), ev.pretty()) {
		eprintln!("cannot write the evidence: {e}");
		return 2;
	}
	if violations > 0 {
		println!("VIOLATION property={id} replay={replay_path}");
		return 1;
	}
	println!("{id}: {seeds} seeds, {runs} runs, {} distinct, {ops} simulated operations, {wall:.1} s, no violation", states.len());
	if seeds == 0 || runs == 0 {
		eprintln!("nothing was explored");
		return 3;
	}
	0
}

/// Runs some scenarios twice more, each time in a process of its own. Returns how many, and how
/// many of them differed in any operation, byte or result.
fn rerun(exe: &std::path::Path, id: &str, base: u64, count: u64) -> (u64, u64) {
	let n = 32.min(count).max(1);
	let step = (count / n).max(1);
	let end = (step * n).min(count.max(1));
	let start = || {
		Command::new(exe)
			.args(["digest", id, &base.to_string(), "0", &step.to_string(), &end.to_string()])
			.stdin(Stdio::null())
			.stdout(Stdio::piped())
			.stderr(Stdio::null())
			.spawn()
	};
	let (Ok(a), Ok(b)) = (start(), start()) else { return (0, 0) };
	let (Ok(a), Ok(b)) = (a.wait_with_output(), b.wait_with_output()) else { return (0, 0) };
	let lines = |o: &[u8]| String::from_utf8_lossy(o).lines().map(String::from).collect::<Vec<_>>();
	let (a, b) = (lines(&a.stdout), lines(&b.stdout));
	let differ = a.iter().zip(&b).filter(|(a, b)| a != b).count() + a.len().abs_diff(b.len());
	(a.len() as u64, differ as u64)
}

fn ended_for_memory(pid: u32) -> bool {
	std::fs::read_to_string("/root/.vp/ended.log").is_ok_and(|t| t.split(|c: char| !c.is_ascii_digit()).any(|w| w == pid.to_string()))
}

fn load(file: &str) -> Option<(Prop, J)> {
	let t = match std::fs::read_to_string(file) {
		Ok(t) => t,
		Err(e) => {
			eprintln!("{file}: {e}");
			return None;
		}
	};
	match J::parse(&t) {
		Ok(j) => find(j.get("property").str()).map(|p| (p, j)),
		Err(e) => {
			eprintln!("{file}: {e}");
			None
		}
	}
}

/// Runs the scenario of a file and prints the classes of what it violates.
pub fn eval(file: &str) -> i32 {
	let Some((p, j)) = load(file) else { return 2 };
	let mut ctx = Ctx::new(p.id);
	run_one(&p, j.get("scenario"), &mut ctx);
	for v in &ctx.viols {
		println!("{} {}", v.class, v.msg);
	}
	0
}

/// Runs `eval` in a process of its own. `crash` and `hang` are classes here.
fn eval_apart(p: &Prop, sc: &J, secs: u64) -> Vec<(String, String)> {
	let f = root().join(format!("target/replays/eval-{}.json", std::process::id()));
	let _ = std::fs::create_dir_all(f.parent().unwrap());
	if std::fs::write(&f, obj! {"property" => p.id, "scenario" => sc.clone()}.dump()).is_err() {
		return vec![];
	}
	let c = Command::new(std::env::current_exe().unwrap())
		.args(["eval", f.to_str().unwrap()])
		.stdin(Stdio::null())
		.stdout(Stdio::piped())
		.stderr(Stdio::null())
		.spawn();
	let Ok(mut c) = c else { return vec![] };
	let mut out = c.stdout.take().unwrap();
	let h = std::thread::spawn(move || {
		let mut s = String::new();
		let _ = std::io::Read::read_to_string(&mut out, &mut s);
		s
	});
	let t = Instant::now();
	let mut status = None;
	while t.elapsed().as_secs() < secs {
		if let Ok(Some(s)) = c.try_wait() {
			status = Some(s);
			break;
		}
		std::thread::sleep(Duration::from_millis(5));
	}
	if status.is_none() {
		let _ = c.kill();
		let _ = c.wait();
	}
	let text = h.join().unwrap_or_default();
	let _ = std::fs::remove_file(&f);
	match status {
		None => vec![("hang".into(), format!("no result after {secs} s"))],
		Some(s) if !s.success() => vec![("crash".into(), format!("the process died ({s})"))],
		_ => text.lines().map(|l| l.split_once(' ').unwrap_or((l, ""))).map(|(a, b)| (a.into(), b.into())).collect()
	}
}

pub fn replay(file: &str) -> i32 {
	let Some((p, j)) = load(file) else { return 2 };
	let class = j.get("class").str();
	let vs = eval_apart(&p, j.get("scenario"), 120);
	for (c, m) in &vs {
		println!("{c}: {m}");
	}
	if vs.iter().any(|(c, _)| c == class || class.is_empty()) {
		println!("VIOLATION property={} replay={file}", p.id);
		1
	} else {
		println!("{}: the violation does not occur", p.id);
		0
	}
}

pub fn shrink_file(file: &str, out: &str, secs: u64) -> i32 {
	let Some((p, j)) = load(file) else { return 2 };
	let class = j.get("class").str().to_string();
	let end = Instant::now() + Duration::from_secs(secs);
	let apart = class == "crash" || class == "hang";
	let mut best = j.clone();
	let mut tries = 0u64;
	let mut test = |sc: &J| -> bool {
		if Instant::now() > end || tries > 20_000 {
			return false;
		}
		tries += 1;
		let msg = if apart {
			eval_apart(&p, sc, 15).into_iter().find(|(c, _)| *c == class).map(|(_, m)| m)
		} else {
			let mut ctx = Ctx::new(p.id);
			run_one(&p, sc, &mut ctx);
			ctx.viols.into_iter().find(|v| v.class == class).map(|v| v.msg)
		};
		let Some(msg) = msg else { return false };
		best.set("scenario", sc.clone());
		best.set("message", msg);
		best.set("shrink_evaluations", tries);
		let _ = std::fs::write(out, best.pretty());
		true
	};
	let mut cur = j.get("scenario").clone();
	if !test(&cur) {
		// Does not repeat by itself: keep what was found
		return 0;
	}
	for _ in 0..6 {
		let before = cur.dump();
		shrink_pass(&mut cur, &mut test);
		if cur.dump() == before || Instant::now() > end {
			break;
		}
	}
	0
}

type Path = Vec<usize>;
fn at<'a>(j: &'a mut J, p: &[usize]) -> Option<&'a mut J> {
	let mut c = j;
	for i in p {
		c = match c {
			J::Arr(a) => a.get_mut(*i)?,
			J::Obj(o) => &mut o.get_mut(*i)?.1,
			_ => return None
		};
	}
	Some(c)
}
fn paths(j: &J, here: &mut Path, out: &mut Vec<Path>) {
	out.push(here.clone());
	let n = match j {
		J::Arr(a) => a.len(),
		J::Obj(o) => o.len(),
		_ => 0
	};
	for i in 0..n {
		here.push(i);
		let c = match j {
			J::Arr(a) => &a[i],
			J::Obj(o) => &o[i].1,
			_ => unreachable!()
		};
		paths(c, here, out);
		here.pop();
	}
}
/// Tries `edit` on the value at `p`; keeps the result if the violation persists.
fn attempt(cur: &mut J, p: &[usize], test: &mut dyn FnMut(&J) -> bool, edit: impl FnOnce(&mut J)) -> bool {
	let mut c = cur.clone();
	let Some(v) = at(&mut c, p) else { return false };
	edit(v);
	if c.dump() == cur.dump() {
		return false;
	}
	if test(&c) {
		*cur = c;
		true
	} else {
		false
	}
}

fn shrink_pass(cur: &mut J, test: &mut dyn FnMut(&J) -> bool) {
	// Remove parts, biggest first
	let mut all = vec![];
	paths(cur, &mut vec![], &mut all);
	for p in &all {
		let Some(v) = at(cur, p) else { continue };
		match v {
			J::Arr(a) => {
				let mut chunk = a.len();
				while chunk > 0 {
					let mut i = 0;
					loop {
						let len = match at(cur, p) {
							Some(J::Arr(a)) => a.len(),
							_ => 0
						};
						if i >= len {
							break;
						}
						let hit = attempt(cur, p, test, |v| {
							if let J::Arr(a) = v {
								let e = (i + chunk).min(a.len());
								a.drain(i..e);
							}
						});
						if !hit {
							i += chunk;
						}
					}
					chunk /= 2;
				}
			}
			J::Obj(o) => {
				let mut i = o.len();
				while i > 0 {
					i -= 1;
					attempt(cur, p, test, |v| {
						if let J::Obj(o) = v {
							if i < o.len() {
								o.remove(i);
							}
						}
					});
				}
			}
			_ => ()
		}
	}
	// Then make what is left smaller
	let mut all = vec![];
	paths(cur, &mut vec![], &mut all);
	for p in &all {
		let Some(v) = at(cur, p) else { continue };
		match v.clone() {
			J::Bool(true) => {
				attempt(cur, p, test, |v| *v = J::Bool(false));
			}
			J::Str(s) if !s.is_empty() => {
				if !attempt(cur, p, test, |v| *v = J::Str(String::new())) {
					attempt(cur, p, test, |v| *v = J::Str(s.chars().take(s.chars().count() / 2).collect()));
				}
			}
			J::Int(n) if n != 0 => {
				if attempt(cur, p, test, |v| *v = J::Int(0)) || attempt(cur, p, test, |v| *v = J::Int(n.signum())) {
					continue;
				}
				// Bisect towards zero
				let (mut bad, mut good) = (0i128, n);
				for _ in 0..24 {
					if (good - bad).abs() <= 1 {
						break;
					}
					let mid = bad + (good - bad) / 2;
					if attempt(cur, p, test, |v| *v = J::Int(mid)) {
						good = mid;
					} else {
						bad = mid;
					}
				}
			}
			_ => ()
		}
	}
}
