//! Families of simulated scenarios: how to generate one from a seed, and how to run it.

pub mod bitpack;
pub mod cli;
pub mod history;
pub mod remux;
pub mod threads;
pub mod web;

use crate::{
	io::{Fault, Flow, INTERRUPTED, KINDS, NO_PROGRESS, STAYS},
	run::*,
	world
};
use simcore::{
	input::{self, Built, Shape},
	json::J,
	model::{self, Conf, Model, Viol},
	obj,
	ogg,
	rng::{Hash64, Rng},
	vorbis
};
use std::sync::Arc;

pub struct Family {
	pub make: fn(&mut Rng) -> J,
	pub run: fn(&J, &mut Ctx)
}
pub struct Prop {
	pub id: &'static str,
	pub fam: Family,
	/// Seeds of a quick and of a thorough check.
	pub quick: u64,
	pub thorough: u64,
	pub level: &'static str,
	pub rule: &'static str,
	pub real: &'static str,
	pub stubs: &'static str
}

pub fn conf_random(r: &mut Rng) -> Conf {
	if r.chance(1, 3) {
		return Conf::default();
	}
	Conf {
		randomize: r.chance(1, 2),
		offset: if r.chance(1, 2) { 0 } else { r.u32() },
		ignore_start: r.chance(1, 3),
		error_on_none: r.chance(4, 5),
		verify: r.chance(3, 4),
		vendor: r.below(5) as u8,
		comments: r.below(2) as u8
	}
}
pub fn flow_random(r: &mut Rng, intr: bool) -> J {
	if r.chance(1, 4) {
		return obj! {};
	}
	let mut j = obj! {"mode" => r.below(4), "max" => 1 + r.skewed(5000), "seed" => r.below(1 << 24)};
	if intr && r.chance(1, 2) {
		j.set("intr", 2 + r.below(30));
	}
	j
}
pub fn entropy_random(r: &mut Rng) -> J {
	let mut j = obj! {"seed" => r.below(1 << 32)};
	if r.chance(1, 4) {
		j.set("clock", match r.below(3) {
			0 => r.range(-1 << 60, 0),
			1 => r.range(0, 1 << 61),
			_ => 0
		});
		j.set("step", r.range(-1_000_000_000_000, 1_000_000_000_000));
	}
	if r.chance(1, 6) {
		j.set("fail_all", true);
	}
	j
}
/// [op, kind] pairs
pub fn faults_from(j: &J) -> Vec<Fault> {
	j.arr()
		.iter()
		.map(|f| {
			let a = f.arr();
			Fault { op: a.first().map_or(0, |v| v.u64()), kind: a.get(1).map_or(0, |v| v.int().clamp(0, 255)) as u8 }
		})
		.collect()
}
pub fn fault_kind(r: &mut Rng, sink: bool) -> u8 {
	match r.below(8) {
		0 => INTERRUPTED,
		1 if sink => NO_PROGRESS,
		_ => r.below(KINDS.len() as u64) as u8 | if r.chance(1, 4) { STAYS } else { 0 }
	}
}

/// The job a scenario describes. The data of the input follows `base` bytes of something else.
pub fn job_from(sc: &J, bytes: &[u8]) -> Job {
	let base = sc.num("base", 0, 0, 300_000) as usize;
	let mut data = Vec::with_capacity(base + bytes.len());
	if base > 0 {
		data.extend(decoy(base, sc.num("bseed", 1, 0, i64::MAX) as u64));
	}
	data.extend_from_slice(bytes);
	let mut job = Job::new(Arc::new(data));
	job.base = base as u64;
	job.far = sc.num("far", 0, 0, 1 << 62) as u64;
	job.src = Flow::from(sc.get("src"));
	job.sink = Flow::from(sc.get("sink"));
	job.src_faults = faults_from(sc.get("src").get("faults"));
	job.sink_faults = faults_from(sc.get("sink").get("faults"));
	job.plan = plan_from(sc.get("entropy"));
	job
}
/// Data in front of the input: noise, or Ogg pages that must not be looked at.
pub fn decoy(n: usize, seed: u64) -> Vec<u8> {
	let mut r = Rng::new(seed);
	if r.chance(1, 2) {
		return r.bytes(n);
	}
	let s = obj! {"streams" => J::Arr(vec![obj! {"seed" => r.below(1 << 30), "serial" => r.below(1 << 32), "pk" => J::Arr(vec![J::Arr(vec![J::from(0), J::from(1)])])}])};
	let b = input::build(&s).bytes;
	b.iter().copied().cycle().take(n).collect()
}

pub fn set_log_level(sc: &J) {
	log::set_max_level(match sc.num("log", 0, 0, 2) {
		0 => log::LevelFilter::Off,
		1 => log::LevelFilter::Info,
		_ => log::LevelFilter::Trace
	});
}

/// Things that make it impossible to look at anything else in the output.
fn blocking(class: &str) -> bool {
	matches!(
		class,
		"ogg" | "first-page" | "headers-missing" | "id-parse" | "setup" | "setup-parse" | "setup-code" | "stream-lost"
			| "stream-extra" | "packet-count" | "headers" | "id" | "values"
	)
}

/// CPU time of this thread, in seconds.
pub fn thread_cpu() -> f64 {
	let mut ts = [0i64; 2];
	world::raw_syscall(228, [3, ts.as_mut_ptr() as i64, 0, 0, 0, 0]);
	ts[0] as f64 + ts[1] as f64 / 1e9
}

/// Keeps the violations that concern the property under check.
pub fn report(ctx: &mut Ctx, vs: Vec<Viol>) {
	let broad = matches!(ctx.prop, "C01" | "C02" | "C03" | "C05" | "C07" | "C15" | "C18" | "C19" | "C21");
	let own: Vec<Viol> = vs.iter().filter(|v| v.prop == ctx.prop).cloned().collect();
	if !own.is_empty() {
		ctx.viols.extend(own);
	} else if broad {
		for v in vs {
			// The statement of C07 covers everything about the rest of a cut file
			let known = matches!(v.class.as_str(), "cut-pad" | "position-before-anchor");
			if (blocking(&v.class) || (ctx.prop == "C07" && !known && v.prop != "C19")) && !(v.class == "values" && matches!(ctx.prop, "C02" | "C03" | "C15" | "C21")) {
				let c = format!("via-{}-{}", v.prop, v.class);
				ctx.fail(c, v.msg);
				break;
			}
		}
	}
}

/// Judges one remux of `bytes` against the reference model.
pub fn judge_run(ctx: &mut Ctx, bytes: &[u8], conf: &Conf, o: &Outcome, asp: model::Aspects) -> Model {
	let m = model::predict(bytes, conf);
	judge_model(ctx, &m, conf, o, asp);
	m
}
pub fn judge_model(ctx: &mut Ctx, m: &Model, conf: &Conf, o: &Outcome, asp: model::Aspects) {
	use model::{Verdict::*, Why};
	let mut h = Hash64::default();
	for s in &m.streams {
		s.shape_hash(&mut h);
	}
	ctx.shape(h.0);
	match (&o.res, m.verdict) {
		(Res::Panic(_), _) => (),
		(Res::Err(e), MustOk) => {
			if e.fault.is_some() {
				// The source interrupted a read, and the run did not survive that
				ctx.count("tolerated:stopped by an interruption", 1);
			} else if m.nil_end && e.kind == "multiplex" {
				// Known finding of C21; what follows cannot be judged
				ctx.count("tolerated:refused after an end mark without packets", 1);
				if ctx.prop == "C21" {
					ctx.fail("nil-end", format!("the second of two chained streams was refused: {}", o.res.brief()));
				}
			} else {
				ctx.fail("refused", format!("valid input refused: {}", o.res.brief()));
			}
		}
		(Res::Err(e), MustErr(w)) => {
			let want = match w {
				Why::Multiplex => Some("multiplex"),
				Why::NoVorbis => Some("no-vorbis"),
				_ => None
			};
			if ctx.prop == "C21" && e.fault.is_none() && want.is_some_and(|w| w != e.kind) {
				ctx.fail("wrong-error", format!("{} instead of {}", e.kind, want.unwrap()));
			}
		}
		(Res::Err(_), _) => (),
		(Res::Ok, MustErr(w)) => match (w, ctx.prop) {
			(Why::Multiplex | Why::NoVorbis, "C21") | (Why::Crc, "C06") => {
				ctx.fail("accepted", format!("success although: {}", m.why));
			}
			(Why::Stream, "C01" | "C03" | "C08") => {
				if let Err(e) = wellformed(&o.out) {
					ctx.fail("accepted-malformed", format!("success for a stream that cannot be decoded ({}), output: {e}", m.why));
				}
			}
			_ => ()
		},
		(Res::Ok, Unknown) => {
			if matches!(ctx.prop, "C03" | "C08" | "C21") {
				if let Err(e) = wellformed(&o.out) {
					// For C21, the streams were merged or interleaved
					ctx.fail("malformed", e);
				}
			}
		}
		(Res::Ok, MustOk | MayErr) => {
			let (vs, rep) = model::judge(m, conf, &o.out, tags(), asp);
			ctx.count("judged:streams", m.streams.len() as u64);
			ctx.count("judged:packets", rep.packets as u64);
			ctx.count("judged:values", rep.symbols as u64);
			ctx.count("judged:pages", rep.pages as u64);
			ctx.count("judged:codebooks", rep.books_checked as u64);
			ctx.count("probe:codebook with a single used entry", rep.single_books as u64);
			ctx.count("probe:codebook without used entry", rep.unused_books as u64);
			ctx.count("probe:cut packet", rep.cut_packets as u64);
			ctx.count("probe:packet dropped", m.streams.iter().map(|s| s.dropped as u64).sum());
			ctx.count("probe:start offset", m.streams.iter().filter(|s| s.start_offset(&s.cumulative()) != 0).count() as u64);
			if rep.pad_extra > 0 {
				ctx.count("tolerated:padding of a cut packet decodes", rep.pad_extra as u64);
			}
			report(ctx, vs);
		}
	}
}

/// Whether `out` is a complete, well-formed Ogg Vorbis file that decodes. True is returned if
/// it has packets that are cut off, whose padding may decode to anything.
pub fn wellformed(out: &[u8]) -> Result<bool, String> {
	let mut cut = false;
	if out.is_empty() {
		return Ok(cut);
	}
	let (_, streams) = ogg::strict_streams(out)?;
	for (i, s) in streams.iter().enumerate() {
		let vorbis::IdParse::Ok(id) = vorbis::parse_id(&s[0].data) else {
			return Err(format!("stream {i}: bad identification header"));
		};
		if s.len() < 2 {
			continue;
		}
		vorbis::strict_comments(&s[1].data).map_err(|e| format!("stream {i}: {e}"))?;
		if s.len() < 3 {
			continue;
		}
		let setup = vorbis::parse_setup(&s[2].data, id.channels, true).map_err(|e| format!("stream {i}: {e}"))?;
		if setup.books.iter().map(|b| b.lens.len()).sum::<usize>() > 4_000_000 {
			continue;
		}
		let dec = vorbis::Decoder::new(setup, id.channels, id.bs).map_err(|e| format!("stream {i}: {e}"))?;
		for (p, k) in s[3..].iter().enumerate() {
			let d = dec.decode(&k.data);
			cut |= matches!(d.end, vorbis::End::Cut(_));
			if let vorbis::End::Bad(e) = d.end {
				cut = true;
				// What the padding of a cut packet decodes to is the known finding of C01
				let used = d.ends.last().copied().unwrap_or(0);
				let pad = k.data.len() * 8 < used + 8 && k.data.last().is_some_and(|b| *b as u32 >> (8 - (k.data.len() * 8 - used)) == 0);
				if !pad && !e.contains("without dimensions") {
					return Err(format!("stream {i}, audio packet {p}: {e}"));
				}
			}
		}
	}
	Ok(cut)
}

pub fn built(sc: &J) -> Built {
	input::build(sc.get("input"))
}

pub fn shape_small() -> Shape {
	Shape { max_streams: 2, max_packets: 12, ..Shape::default() }
}

pub const REMUX_REAL: &str = "optivorbis library (both passes, optimizer, granulator, codebooks), vorbis_bitpack, ogg page reader and writer";
pub const REMUX_STUB: &str = "source, sink, entropy source, realtime clock and log sink are simulated";

macro_rules! prop {
	($id:expr, $m:ident :: $g:ident, $r:ident, $q:expr, $t:expr, $rule:expr) => {
		Prop {
			id: $id,
			fam: Family { make: $m::$g, run: $m::$r },
			quick: $q,
			thorough: $t,
			level: "exploration",
			rule: $rule,
			real: REMUX_REAL,
			stubs: REMUX_STUB
		}
	};
}

pub fn props() -> Vec<Prop> {
	vec![
		prop!("C01", remux::gen01, run_base, 90_000, 2_000_000, RULE),
		prop!("C02", remux::gen02, run_base, 90_000, 2_000_000, RULE),
		prop!("C03", remux::gen03, run_base, 60_000, 1_200_000, RULE),
		prop!("C04", remux::gen04, run04, 10_000, 200_000, RULE),
		prop!("C05", remux::gen05, run05, 16_000, 400_000, RULE),
		prop!("C06", remux::gen06, run06, 10_000, 200_000, RULE),
		prop!("C07", remux::gen07, run07, 10_000, 200_000, RULE),
		prop!("C08", remux::gen08, run08, 90_000, 2_000_000, RULE),
		prop!("C09", history::gen09, run09, 30_000, 600_000, RULE),
		Prop {
			stubs: THREADS_STUB,
			..prop!("C10", threads::gen10, run10, 9_000, 110_000, RULE10)
		},
		Prop {
			real: "optivorbis library in a process of its own for every sequence; the optivorbis command-line program",
			..prop!("C11", threads::gen11, run11, 30_000, 800_000, RULE11)
		},
		prop!("C12", remux::gen12, run12, 16_000, 300_000, RULE),
		Prop {
			real: CLI_REAL,
			stubs: CLI_STUB,
			..prop!("C13", cli::gen13, run_cli, 18_000, 300_000, RULE13)
		},
		Prop {
			real: CLI_REAL,
			stubs: CLI_STUB,
			..prop!("C14", cli::gen14, run_cli, 50_000, 900_000, RULE13)
		},
		prop!("C15", remux::gen15, run15, 16_000, 300_000, RULE),
		Prop {
			real: "vorbis_bitpack (BitpackReader and BitpackWriter)",
			stubs: "source and sink are simulated",
			..prop!("C16", bitpack::gen16, run16, 700_000, 9_000_000, RULE16)
		},
		prop!("C17", history::gen17, run17, 50_000, 1_000_000, RULE17),
		prop!("C18", history::gen18, run18, 30_000, 600_000, RULE),
		prop!("C19", remux::gen19, run_base, 60_000, 1_200_000, RULE),
		prop!("C20", remux::gen20, run20, 14_000, 300_000, RULE),
		prop!("C21", remux::gen21, run21, 50_000, 1_000_000, RULE),
		Prop {
			real: "optivorbis library and its JavaScript bindings as a WebAssembly module in Node.js; the native library",
			stubs: "crypto.getRandomValues, console and the code that wasm-bindgen generates on the JavaScript side; natively, the source, sink, entropy source and clock",
			..prop!("C22", web::gen22, run22, 20_000, 400_000, RULE22)
		},
	]
}

const CLI_REAL: &str = "the optivorbis command-line program (its own process, with getopts, stderrlog and the whole library), the files of a scratch directory";
const CLI_STUB: &str = "system calls for files, entropy and the clock pass a preloaded shim that delivers, shortens, fails or kills at them as planned";
const THREADS_STUB: &str = "source, sink, entropy source, realtime clock and log sink are simulated; threads are real, but the simulator decides which one of them runs, and waits for locks pass through it";
const RULE10: &str = "Programs of two to four threads and the places at which they are preempted are drawn from the seed and the scenario number; each runs in a process of its own, compared with each remux by itself and with sequential orders; distinct by the hash of the switches that took place and of the operations and bytes of each remux";
const RULE11: &str = "Sequences of remuxes, values of the variable and the worlds they run in (entropy, clock, delivery) are drawn from the seed and the scenario number; each sequence runs in a process of its own; distinct by the hash of operation logs and bytes written";
const RULE13: &str = "Command lines, inputs, earlier files and fault plans are drawn from the seed and the scenario number; a run of the program is non-trivial if it made more than one recorded system call, and distinct by the hash of its arguments, system calls, exit status and standard output";
const RULE16: &str = "Sequences of reads or writes, and how the endpoint delivers, interrupts or fails, are drawn from the seed and the scenario number; distinct by the hash of operations, values and endpoint operations, non-trivial if at least one bit was moved";
const RULE17: &str = "Packet sequences of up to three streams, with packets that do not belong to them, and the order in which the optimizers take turns are drawn from the seed and the scenario number; distinct by the hash of the order of the turns and of all optimized packets";
const RULE22: &str = "Sequences of remuxes on one page, and the entropy they are given, are drawn from the seed and the scenario number; distinct by the hash of the results and bytes of each, and of the operations of the native runs";
const RULE: &str = "Scenarios (streams, settings, delivery and faults) are drawn from the seed and the scenario number; a run of the library is non-trivial if it issued more than three source operations, and distinct by the hash of its source and sink operation logs and of the bytes it wrote";

/// Lists the pages of a scenario's input and of what comes out of it.
pub fn dump(file: &str) -> i32 {
	let Ok(j) = std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| J::parse(&t)) else { return 2 };
	let sc = if j.has("scenario") { j.get("scenario") } else { &j };
	let b = built(sc);
	let conf = Conf::from(sc.get("conf"));
	let m = model::predict(&b.bytes, &conf);
	println!("{conf:?}\nmodel: {:?} {}, {} Vorbis streams, {} others", m.verdict, m.why, m.streams.len(), m.others);
	let list = |d: &[u8]| {
		let mut pos = 0;
		while let Ok(p) = ogg::parse_page(d, pos, false) {
			println!("  at {pos}: serial {:x} seq {} flags {} gp {} segs {:?} crc {}", p.serial, p.seq, p.flags, p.gp as i64, p.segs, p.crc_xor == 0);
			pos += p.len();
		}
		println!("  {} of {} bytes", pos, d.len());
	};
	list(&b.bytes);
	let mut ctx = Ctx::new("C00");
	let o = ctx.remux(&remuxer(&conf), &Job::new(std::sync::Arc::new(b.bytes.clone())));
	println!("result: {}", o.res.brief());
	list(&o.out);
	0
}
/// Writes the input of a scenario to a file.
pub fn bytes(file: &str, out: &str) -> i32 {
	let Ok(j) = std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| J::parse(&t)) else { return 2 };
	let sc = if j.has("scenario") { j.get("scenario") } else { &j };
	std::fs::write(out, built(sc).bytes).map_or(2, |()| 0)
}
