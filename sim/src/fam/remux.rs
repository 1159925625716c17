//! Families in which single remuxes are compared with the reference model.

use super::*;
use simcore::input::*;

fn base(r: &mut Rng, input: J, conf: &Conf) -> J {
	obj! {"input" => input, "conf" => conf.to_json(), "src" => flow_random(r, false), "sink" => flow_random(r, true),
	"entropy" => entropy_random(r), "log" => r.below(3)}
}
/// An entropy source that works, for families that compare the bytes of different runs.
fn entropy_ok(r: &mut Rng) -> J {
	obj! {"seed" => r.below(1 << 32)}
}
fn each_stream(input: &mut J, mut f: impl FnMut(&mut J)) {
	if let Some(v) = input.get_mut("streams").and_then(|s| s.arr_mut()) {
		for s in v.iter_mut().filter(|s| s.flag("v", true)) {
			f(s);
		}
	}
}

/// Very uneven frequencies, at times such that the best prefix code has codewords of more
/// than the 32 bits that are allowed.
fn skew(r: &mut Rng, input: &mut J, often: u64, rarely: u64) {
	if r.chance(1, often) {
		each_stream(input, |s| {
			s.set("skew", 2 + r.below(18));
			s.set("ch", 1 + r.skewed(8));
		});
	} else if r.chance(1, 16 * often) {
		*input = obj! {"streams" => J::Arr(vec![obj! {
			"wide" => if r.chance(1, 4) { 131_060 + r.skewed(3000) } else { 65_530 + r.below(20) }, "ch" => 1 + r.below(40), "seed" => r.below(1 << 30), "mixed" => r.chance(1, 2), "vendor" => "", "per" => 1 + r.below(4)
		}])};
	} else if r.chance(1, rarely) {
		*input = obj! {"streams" => J::Arr(vec![obj! {
			"skew" => 32 + r.below(4), "ch" => 200 + r.below(56), "seed" => r.below(1 << 30), "mixed" => r.chance(1, 2), "vendor" => "", "per" => 1 + r.below(4)
		}])};
	}
}
/// More packets than 16 bits can count.
pub fn long(r: &mut Rng, input: &mut J, rarely: u64) {
	if r.chance(1, rarely) {
		let pk: Vec<J> = (0..1 + r.below(4)).map(|i| J::Arr(vec![J::from(pk::SILENT), J::from(i)])).collect();
		*input = obj! {"streams" => J::Arr(vec![obj! {
			"seed" => r.below(1 << 40), "feat" => if r.chance(1, 2) { feat::MODES } else { 0 }, "ch" => 1, "b0" => 6 + r.below(2), "b1" => 8 + r.below(6),
			"vendor" => "", "pk" => J::Arr(pk), "rep" => 65_528 + r.below(20), "per" => 1 + r.skewed(3000), "pseed" => r.below(1 << 24),
			"start" => r.range(-3000, 3000), "trim" => r.skewed(4000)
		}])};
	}
}
pub fn gen01(r: &mut Rng) -> J {
	let mut input = random_input(r, &Shape::default());
	skew(r, &mut input, 100, 12_000);
	long(r, &mut input, 3000);
	let conf = conf_random(r);
	let mut sc = base(r, input, &conf);
	if r.chance(1, 10) {
		// Interruptions of reads, which a run may or may not survive
		let f: Vec<J> = (0..1 + r.below(3)).map(|_| J::Arr(vec![J::from(r.skewed(400)), J::from(INTERRUPTED)])).collect();
		if let Some(s) = sc.get_mut("src") {
			s.set("faults", J::Arr(f));
		}
	}
	if r.chance(1, 8) {
		sc.set("base", 1 + r.skewed(100_000));
		sc.set("bseed", r.below(1 << 24));
	}
	sc
}

/// One remux, judged.
pub fn run_base(sc: &J, ctx: &mut Ctx) {
	set_log_level(sc);
	let b = built(sc);
	let conf = Conf::from(sc.get("conf"));
	let job = job_from(sc, &b.bytes);
	let o = ctx.remux(&remuxer(&conf), &job);
	judge_run(ctx, &b.bytes, &conf, &o, model::ALL);
}

/// Positions: offsets, trims, damaged positions, discarded packets at page ends.
pub fn gen02(r: &mut Rng) -> J {
	let mut input = random_input(r, &Shape { damage_gp: true, files: false, ..Shape::default() });
	let starts = r.chance(1, 2);
	let ends = r.chance(1, 2);
	let n = r.below(4);
	each_stream(&mut input, |s| {
		if starts {
			s.set("start", match r.below(4) {
				0 => r.range(-5000, 5000),
				1 => r.range(0, 1 << 33),
				2 => r.range(-(1 << 33), 0),
				_ => *r.pick(&[1, -1, i64::MAX - 100_000, i64::MIN + 100_000])
			});
		}
		if ends {
			s.set("end", r.below(6));
		}
		if n > 0 {
			s.set("per", 1 + r.skewed(3 * n));
		}
		if r.chance(1, 60) {
			// Pages of the output that end before the first audio page of the input would
			let n = 200 + r.below(150);
			let mut pk: Vec<J> = vec![J::Arr(vec![J::from(pk::NORMAL), J::from(r.below(1 << 24))])];
			pk.extend((0..n).map(|i| J::Arr(vec![J::from(pk::SILENT), J::from(i)])));
			s.set("pk", J::Arr(pk));
			s.set("ch", 1 + r.below(3));
			s.set("b0", 11i64 + r.below(3) as i64);
			s.set("b1", 13i64);
			s.set("per", 300i64);
			s.set("vary", r.below(1 << 32));
		}
	});
	if r.chance(1, 3) {
		// Damage near the ends, where it matters
		let mut m: Vec<J> = input.get("mut").arr().to_vec();
		for _ in 0..1 + r.below(2) {
			let page = *r.pick(&[-1i64, -1, -2, 1, 2, 3, 4]);
			let v = match r.below(3) {
				0 => -1,
				1 => r.range(-20_000, 20_000),
				_ => r.next() as i64
			};
			m.push(J::Arr(vec![J::from(7), J::from(page), J::from(v)]));
		}
		input.set("mut", J::Arr(m));
	}
	long(r, &mut input, 3000);
	let mut conf = conf_random(r);
	conf.ignore_start = r.chance(1, 3);
	base(r, input, &conf)
}

/// Container form: sizes near the limits, sloppy headers, missing end marks, odd sequence numbers.
pub fn gen03(r: &mut Rng) -> J {
	let mut input = random_input(r, &Shape { max_channels: 2, ..Shape::default() });
	let hard = r.chance(1, 2);
	let mut left = input.get("streams").arr().iter().filter(|s| s.flag("v", true)).count();
	each_stream(&mut input, |s| {
		left -= 1;
		if hard {
			match r.below(4) {
				0 => s.set("vendor", near_limit(r)),
				1 => s.set("comments", J::Arr(vec![near_limit(r)])),
				2 => s.set("comments", J::Arr((0..r.below(300)).map(|_| random_text(r)).collect())),
				_ => ()
			}
			if r.chance(1, 3) {
				s.set("idframing", r.below(256));
			}
			if r.chance(1, 3) {
				s.set("cframing", r.below(256));
			}
			if r.chance(1, 3) {
				s.set("cpad", r.skewed(2000));
			}
			if r.chance(1, 3) {
				s.set("idpad", if r.chance(1, 20) { 65_480 + r.below(100) } else { r.below(300) });
			}
			if r.chance(1, 3) {
				s.set("seq0", r.below(1 << 32));
			}
			if r.chance(1, 3) {
				s.set("hdr", r.below(4));
			}
			if r.chance(1, 2) {
				s.set("feat", s.get("feat").u64() | feat::SLOPPY);
			}
			if left == 0 && r.chance(1, 3) {
				s.set("eos", false);
			}
			if r.chance(1, 4) {
				// Many tiny packets, so that pages fill up by segments
				let n = 200 + r.below(400);
				let k = if r.chance(1, 2) { pk::SILENT } else { pk::HALF };
				let v: Vec<J> = (0..n).map(|i| J::Arr(vec![J::from(if r.chance(1, 20) { pk::EMPTY } else { k }), J::from(i % 7)])).collect();
				s.set("pk", J::Arr(v));
			}
		}
	});
	long(r, &mut input, 4000);
	if r.chance(1, 6) {
		// Page numbers that jump
		let m: Vec<J> = (0..1 + r.below(3)).map(|_| J::Arr(vec![J::from(9), J::from(r.below(60)), J::from(r.below(1 << 32))])).collect();
		input.set("mut", J::Arr(m));
	} else if r.chance(1, 6) {
		// Streams that go on after an end mark, or even after the next one started
		let k = if r.chance(1, 3) { 16 } else { 15 };
		let m: Vec<J> = (0..1 + r.below(2)).map(|_| J::Arr(vec![J::from(k), J::from(2 + r.below(12)), J::from(r.below(3)), J::from(r.skewed(7))])).collect();
		input.set("mut", J::Arr(m));
	}
	let conf = conf_random(r);
	base(r, input, &conf)
}

pub fn gen04(r: &mut Rng) -> J {
	let mut input = random_input(r, &Shape { max_packets: 24, ..shape_small() });
	if r.chance(1, 8) {
		// Large packets, so that single writes are large and cover several pages
		each_stream(&mut input, |s| s.set("comments", J::Arr(vec![near_limit(r)])));
	}
	let conf = conf_random(r);
	let mut sc = base(r, input, &conf);
	sc.set("entropy", entropy_ok(r));
	let n = 6 + r.below(20);
	let f: Vec<J> = (0..n)
		.map(|_| {
			let sink = r.chance(1, 2);
			let mut g = vec![J::Arr(vec![J::from(sink), J::from(r.below(1 << 32)), J::from(fault_kind(r, sink))])];
			if r.chance(1, 6) {
				let sink = r.chance(1, 2);
				g.push(J::Arr(vec![J::from(sink), J::from(r.below(1 << 32)), J::from(fault_kind(r, sink))]));
			}
			J::Arr(g)
		})
		.collect();
	sc.set("sweep", J::Arr(f));
	sc
}
/// A failure-free run, then the same run with failures at chosen operations.
pub fn run04(sc: &J, ctx: &mut Ctx) {
	set_log_level(sc);
	let b = built(sc);
	let conf = Conf::from(sc.get("conf"));
	let mut job = job_from(sc, &b.bytes);
	job.plan.fail_all = false;
	job.src.intr = 0;
	job.src_faults.clear();
	job.sink_faults.clear();
	let base = ctx.remux(&remuxer(&conf), &job);
	if let Res::Panic(_) = base.res {
		return;
	}
	for g in sc.get("sweep").arr().iter().take(64) {
		let mut j = job.clone();
		// The earliest hard failure decides
		for f in g.arr() {
			let a = f.arr();
			if a.len() < 3 {
				continue;
			}
			let sink = a[0].bool();
			let total = if sink { base.sink.ops } else { base.src.ops };
			if total == 0 {
				continue;
			}
			let kind = a[2].int().clamp(0, 255) as u8;
			let kind = if !sink && kind == NO_PROGRESS { 0 } else { kind };
			let fault = Fault { op: a[1].u64() % total, kind };
			if sink { j.sink_faults.push(fault) } else { j.src_faults.push(fault) }
		}
		if j.sink_faults.is_empty() && j.src_faults.is_empty() {
			continue;
		}
		let o = ctx.remux(&remuxer(&conf), &j);
		if let Res::Panic(_) = o.res {
			return;
		}
		let hard = o.src.failed.map(|f| ("source", f)).or(o.sink.failed.map(|f| ("sink", f)));
		let what = |side: &str, op: u64, kind: u8| {
			let k = if kind == NO_PROGRESS { "no progress" } else { crate::io::kind(kind).0 };
			format!("{side} operation {op} fails ({k})")
		};
		if !base.out.starts_with(&o.out) {
			let at = base.out.iter().zip(&o.out).position(|(a, b)| a != b).unwrap_or(base.out.len());
			ctx.fail("not-a-prefix", format!("{:?}: what was written differs at byte {at}", hard));
			return;
		}
		match hard {
			Some((side, (op, kind))) => {
				match &o.res {
					Res::Ok => ctx.fail("swallowed", format!("{}, but the remux reports success", what(side, op, kind))),
					Res::Err(e) => {
						let carried = e.fault == Some(op) || (kind == NO_PROGRESS && matches!(e.kind, "io" | "ogg-io" | "optimizer-io"));
						if !carried {
							ctx.fail("other-error", format!("{}, but the error is: {}", what(side, op, kind), e.text));
						}
					}
					Res::Panic(_) => ()
				}
				let after = o.src.after + o.sink.after;
				if after > 0 {
					ctx.fail("goes-on", format!("{}, but {after} more operations follow", what(side, op, kind)));
				}
				if side == "source" && op < o.first_ops.max(if base.first_ops > op { base.first_ops } else { 0 }) && !o.out.is_empty() {
					ctx.fail("early-output", format!("{} in the first pass, but {} bytes were written", what(side, op, kind), o.out.len()));
				}
			}
			None => {
				// Interruptions only
				match &o.res {
					Res::Ok if base.res.is_ok() && o.out != base.out => ctx.fail("interrupted", "an interruption changed the output".to_string()),
					Res::Ok if !base.res.is_ok() => ctx.fail("interrupted", "an interruption turned an error into success".to_string()),
					Res::Err(e) if base.res.is_ok() && e.fault.is_none() => {
						ctx.fail("interrupted", format!("an interruption is reported as: {}", e.text));
					}
					_ => ()
				}
			}
		}
		if !ctx.viols.is_empty() {
			return;
		}
	}
}

pub fn gen05(r: &mut Rng) -> J {
	let mut input = random_input(r, &shape_small());
	if r.chance(1, 3) {
		add_chaos(r, &mut input, 3);
	}
	let conf = conf_random(r);
	let mut sc = obj! {"input" => input, "conf" => conf.to_json(), "entropy" => entropy_ok(r), "log" => r.below(3)};
	let n = 2 + r.below(5);
	let d: Vec<J> = (0..n)
		.map(|_| {
			let mut d = obj! {"src" => flow_random(r, false), "sink" => flow_random(r, true)};
			if r.chance(1, 2) {
				d.set("base", 1 + r.skewed(200_000));
				d.set("bseed", r.below(1 << 24));
			}
			if r.chance(1, 4) {
				d.set("far", (1i64 << *r.pick(&[15, 16, 31, 32, 33, 40, 53, 62])) - r.below(3) as i64);
			}
			if r.chance(1, 4) {
				d.set("clock", r.range(-1 << 60, 1 << 60));
			}
			d
		})
		.collect();
	sc.set("deliveries", J::Arr(d));
	sc
}
pub fn run05(sc: &J, ctx: &mut Ctx) {
	set_log_level(sc);
	let b = built(sc);
	let conf = Conf::from(sc.get("conf"));
	let mut job = job_from(&obj! {"entropy" => sc.get("entropy").clone()}, &b.bytes);
	job.plan.fail_all = false;
	let base = ctx.remux(&remuxer(&conf), &job);
	if let Res::Panic(_) = base.res {
		return;
	}
	for (i, d) in sc.get("deliveries").arr().iter().take(16).enumerate() {
		let mut d = d.clone();
		d.set("entropy", sc.get("entropy").clone());
		let mut j = job_from(&d, &b.bytes);
		j.plan.fail_all = false;
		j.src.intr = 0;
		j.src_faults.clear();
		j.sink_faults.clear();
		let o = ctx.remux(&remuxer(&conf), &j);
		if o.res.class() != base.res.class() {
			ctx.fail("result", format!("delivery {i}: {} instead of {}", o.res.brief(), base.res.brief()));
			return;
		}
		if o.out != base.out {
			let at = base.out.iter().zip(&o.out).position(|(a, b)| a != b).unwrap_or(base.out.len().min(o.out.len()));
			ctx.fail("bytes", format!("delivery {i}: the output differs at byte {at} ({} instead of {} bytes)", o.out.len(), base.out.len()));
			return;
		}
	}
	// What was written the plain way has to be right as well
	judge_run(ctx, &b.bytes, &conf, &base, model::ALL);
}

pub fn gen06(r: &mut Rng) -> J {
	let input = random_input(r, &Shape { damage_gp: false, max_packets: 20, ..shape_small() });
	let mut conf = conf_random(r);
	conf.verify = r.chance(2, 3);
	let mut sc = base(r, input, &conf);
	sc.set("entropy", entropy_ok(r));
	let n = 8 + r.below(24);
	let d: Vec<J> = (0..n)
		.map(|_| {
			let off = match r.below(4) {
				0 => 4 + r.below(23),
				1 => 27 + r.below(40),
				_ => 4 + r.below(1 << 20)
			};
			let page = match r.below(6) {
				0 => -1,
				1 => r.below(4) as i64,
				_ => r.below(1 << 20) as i64
			};
			let xor = if r.chance(1, 2) { 1 << r.below(8) } else { 1 + r.below(255) };
			J::Arr(vec![J::from(page), J::from(off), J::from(xor), J::from(r.chance(1, 3))])
		})
		.collect();
	sc.set("damage", J::Arr(d));
	sc
}
/// Every damage in a run of its own (or in the second pass only), against an undamaged run.
pub fn run06(sc: &J, ctx: &mut Ctx) {
	set_log_level(sc);
	let b = built(sc);
	let conf = Conf::from(sc.get("conf"));
	let pages = b.offsets.len().saturating_sub(1);
	if pages == 0 {
		return;
	}
	let mut job = job_from(sc, &b.bytes);
	job.plan.fail_all = false;
	job.src.intr = 0;
	job.src_faults.clear();
	let prefix = job.base as usize;
	let reference = Conf { verify: false, ..conf.clone() };
	if b.pages.iter().any(|p| p.crc_xor != 0) {
		return;
	}
	let base = ctx.remux(&remuxer(&reference), &job);
	if !base.res.is_ok() {
		return;
	}
	let damage = sc.get("damage").arr();
	if !conf.verify {
		// Only the checksum fields differ
		let mut d = (*job.data).clone();
		for m in damage.iter().take(64) {
			let a = m.arr();
			if a.len() < 3 {
				continue;
			}
			let o = prefix + b.offsets[a[0].int().rem_euclid(pages as i128) as usize] + 22 + (a[1].u64() % 4) as usize;
			d[o] ^= a[2].u64() as u8;
		}
		let mut j = job.clone();
		j.data = Arc::new(d);
		let o = ctx.remux(&remuxer(&conf), &j);
		ctx.count("fault:checksum field altered", damage.len() as u64);
		if !o.res.is_ok() {
			ctx.fail("checksum-refused", format!("only checksum fields differ and they are not to be verified: {}", o.res.brief()));
		} else if o.out != base.out {
			ctx.fail("checksum-influences", "the output depends on checksum fields that are not to be verified".to_string());
		}
		if let Err(e) = ogg::strict_streams(&o.out) {
			ctx.fail("output-checksum", e);
		}
		return;
	}
	let plain = ctx.remux(&remuxer(&conf), &job);
	if plain.res.class() != base.res.class() || plain.out != base.out {
		ctx.fail("verify-influences", format!("an undamaged file gives {} with verification", plain.res.brief()));
		return;
	}
	for m in damage.iter().take(64) {
		let a = m.arr();
		if a.len() < 4 || a[2].u64() as u8 == 0 {
			continue;
		}
		let p = a[0].int().rem_euclid(pages as i128) as usize;
		let len = b.offsets[p + 1] - b.offsets[p];
		let off = 4 + (a[1].u64().max(4) - 4) as usize % (len - 4);
		let mut d = (*job.data).clone();
		d[prefix + b.offsets[p] + off] ^= a[2].u64() as u8;
		let mut j = job.clone();
		let second_only = a[3].bool();
		if second_only {
			j.second = Some(Arc::new(d));
			ctx.count("fault:page altered between the passes", 1);
		} else {
			j.data = Arc::new(d);
			ctx.count("fault:page altered", 1);
		}
		let o = ctx.remux(&remuxer(&conf), &j);
		let what = format!("byte {off} of page {p} altered{}", if second_only { " between the passes" } else { "" });
		match &o.res {
			Res::Ok => ctx.fail("accepted", format!("{what}, but the remux reports success")),
			Res::Err(_) if !second_only && !o.out.is_empty() => ctx.fail("output", format!("{what}, and {} bytes were written", o.out.len())),
			Res::Err(_) if !base.out.starts_with(&o.out) => ctx.fail("output", format!("{what}, and damaged data was written")),
			_ => ()
		}
		if !ctx.viols.is_empty() {
			return;
		}
	}
}

pub fn gen07(r: &mut Rng) -> J {
	let mut input = random_input(r, &Shape { max_packets: 30, damage_gp: false, ..shape_small() });
	if r.chance(1, 3) {
		each_stream(&mut input, |s| s.set("segs", 1 + r.skewed(30)));
	}
	let conf = conf_random(r);
	let mut sc = base(r, input, &conf);
	let n = 5 + r.below(14);
	let c: Vec<J> = (0..n)
		.map(|_| {
			let mode = r.below(4);
			J::Arr(vec![J::from(mode), J::from(r.below(1 << 20)), J::from(if mode == 2 { r.below(300) } else { r.below(30) })])
		})
		.collect();
	sc.set("cuts", J::Arr(c));
	sc
}
/// The input ends early: [0, page] between pages, [1, byte], [2|3, page, bytes into the page].
pub fn run07(sc: &J, ctx: &mut Ctx) {
	set_log_level(sc);
	let b = built(sc);
	let conf = Conf::from(sc.get("conf"));
	let pages = b.offsets.len().saturating_sub(1);
	if pages == 0 {
		return;
	}
	for c in sc.get("cuts").arr().iter().take(64) {
		let a = c.arr();
		if a.len() < 2 {
			continue;
		}
		let page = (a[1].u64() % (pages as u64 + 1)) as usize;
		let cut = match a[0].int() {
			0 => b.offsets[page],
			1 => (a[1].u64() % (b.bytes.len() as u64 + 1)) as usize,
			_ => (b.offsets[page] + a.get(2).map_or(0, |v| v.u64() as usize & 0xFFFF)).min(b.bytes.len())
		};
		let bytes = &b.bytes[..cut];
		let job = job_from(sc, bytes);
		let o = ctx.remux(&remuxer(&conf), &job);
		ctx.count(if b.offsets.contains(&cut) { "fault:input cut between pages" } else { "fault:input cut within a page" }, 1);
		judge_run(ctx, bytes, &conf, &o, model::ALL);
		if !ctx.viols.is_empty() {
			for v in &mut ctx.viols {
				v.msg = format!("input cut after {cut} of {} bytes: {}", b.bytes.len(), v.msg);
			}
			return;
		}
	}
}

/// Adds up to `n` mutations of any kind.
pub fn add_chaos(r: &mut Rng, input: &mut J, n: u64) {
	let mut m: Vec<J> = input.get("mut").arr().to_vec();
	for _ in 0..1 + r.below(n) {
		let k = match r.below(10) {
			0..=4 => 1,
			_ => r.below(MUT_KINDS as u64) as i64
		};
		// Headers sit on the first pages
		let page = if r.chance(1, 2) { r.below(4) } else { r.below(100) };
		let (x, y): (i64, i64) = match k {
			1 => (if r.chance(1, 2) { r.below(200) } else { r.below(1 << 16) } as i64, if r.chance(1, 2) { 1 << r.below(8) } else { 1 + r.below(255) as i64 }),
			7 => (r.next() as i64, 0),
			8 => (r.below(8) as i64, 0),
			9 | 10 => (r.skewed(u32::MAX as u64) as i64, 0),
			13 => (r.below(255) as i64, r.below(256) as i64),
			_ => (r.below(1 << 24) as i64, 1 + r.below(255) as i64)
		};
		m.push(J::Arr(vec![J::from(k), J::from(page), J::from(x), J::from(y)]));
	}
	input.set("mut", J::Arr(m));
}

pub fn spoil_setup(r: &mut Rng, input: &mut J) {
	let n = input.get("streams").arr().len() as u64;
	if n > 0 {
		let i = r.below(n) as usize;
		let bad = random_spoil(r);
		if let Some(s) = input.get_mut("streams").and_then(|s| s.arr_mut()) {
			s[i].set("bad", bad);
		}
	}
}

pub fn gen08(r: &mut Rng) -> J {
	let mut input = if r.chance(1, 30) {
		obj! {"raw" => obj! {"len" => r.skewed(3000), "seed" => r.below(1 << 30)}}
	} else {
		let mut input = random_input(r, &shape_small());
		if r.chance(1, 4) {
			// Packets of the wrong kind or cut within a codeword
			each_stream(&mut input, |s| {
				if let Some(p) = s.get_mut("pk").and_then(|p| p.arr_mut()) {
					for _ in 0..1 + r.below(3) {
						let at = r.below(p.len() as u64 + 1) as usize;
						p.insert(at, J::Arr(vec![J::from(*r.pick(&[pk::WRONG_TYPE, pk::CUT_BIT, pk::CUT])), J::from(r.below(1 << 20))]));
					}
				}
			});
		}
		input
	};
	if r.chance(1, 4) && !input.has("raw") {
		// The setup contradicts itself, and what follows
		spoil_setup(r, &mut input);
		if r.chance(1, 4) {
			add_chaos(r, &mut input, 2);
		}
	} else {
		let n = *r.pick(&[1u64, 2, 4, 12]);
		add_chaos(r, &mut input, n);
	}
	let mut conf = conf_random(r);
	if r.chance(1, 2) {
		conf.verify = false;
	}
	base(r, input, &conf)
}
pub const SLOW: f64 = 30.0;
pub fn run08(sc: &J, ctx: &mut Ctx) {
	set_log_level(sc);
	let b = built(sc);
	let conf = Conf::from(sc.get("conf"));
	let job = job_from(sc, &b.bytes);
	let t = thread_cpu();
	let o = ctx.remux(&remuxer(&conf), &job);
	let t = thread_cpu() - t;
	if t > SLOW {
		ctx.fail("slow", format!("{t:.0} s of computing for an input of {} bytes", b.bytes.len()));
		return;
	}
	if o.res.is_ok() {
		let cut = match wellformed(&o.out) {
			Ok(c) => c,
			Err(e) => {
				ctx.fail("malformed", e);
				return;
			}
		};
		if !o.out.is_empty() {
			let again = ctx.remux(&remuxer(&Conf { verify: true, ..conf.clone() }), &Job::new(Arc::new(o.out.clone())));
			if let (Res::Err(e), false) = (&again.res, cut) {
				ctx.fail("not-remuxable", format!("the output is refused: {}", e.text));
			}
		}
	}
}

/// Serials: fixed ones, offsets, fresh randomness, and input serials that do not matter.
pub fn gen12(r: &mut Rng) -> J {
	let many = r.chance(1, 6);
	// Now and then more streams than a byte, or any small table, can number
	let n = if many { 2 + if r.chance(1, 12) { 230 + r.below(500) } else { r.below(80) } } else { 1 + r.below(5) };
	let mut v: Vec<J> = (0..n)
		.map(|i| {
			let mut s = random_stream(r, &Shape { max_packets: if many { 2 } else { 8 }, max_channels: 2, ..shape_small() }, i);
			s.set("eos", true);
			s.set("feat", s.get("feat").u64() & if many { 0 } else { feat::ALL });
			s
		})
		.collect();
	if r.chance(1, 4) {
		v.insert(r.below(v.len() as u64 + 1) as usize, random_other(r));
	}
	let mut conf = conf_random(r);
	conf.offset = match r.below(4) {
		0 => 0,
		1 => u32::MAX - r.below(90) as u32,
		_ => r.u32()
	};
	obj! {"input" => obj! {"streams" => J::Arr(v), "mux" => 1}, "conf" => conf.to_json(), "entropy" => entropy_ok(r),
	"reserial" => (0..8).map(|_| r.below(1 << 32)).collect::<Vec<u64>>(), "draws" => 2 + r.below(4)}
}
pub fn run12(sc: &J, ctx: &mut Ctx) {
	let b = built(sc);
	let conf = Conf::from(sc.get("conf"));
	let mut job = job_from(&obj! {"entropy" => sc.get("entropy").clone()}, &b.bytes);
	job.plan.fail_all = false;
	let base = ctx.remux(&remuxer(&conf), &job);
	let m = judge_run(ctx, &b.bytes, &conf, &base, model::ALL);
	if !base.res.is_ok() || !ctx.viols.is_empty() {
		return;
	}
	let serials = |o: &Outcome| -> Vec<u32> {
		let mut v: Vec<u32> = vec![];
		for p in ogg::parse_pages(&o.out, false).unwrap_or_default() {
			if p.flags & ogg::BOS != 0 {
				v.push(p.serial);
			}
		}
		v
	};
	let s = serials(&base);
	let distinct = |s: &[u32]| s.iter().collect::<std::collections::HashSet<_>>().len() == s.len();
	if (m.verdict == model::Verdict::MustOk && s.len() != m.streams.len()) || !distinct(&s) {
		ctx.fail("duplicate", format!("serials {s:x?} for {} streams", m.streams.len()));
		return;
	}
	if conf.randomize {
		let zero = ctx.remux(&remuxer(&Conf { offset: 0, ..conf.clone() }), &job);
		let z = serials(&zero);
		if z.len() != s.len() || z.iter().zip(&s).any(|(z, s)| z.wrapping_add(conf.offset) != *s) {
			ctx.fail("offset", format!("serials {s:x?} with offset {:#x}, {z:x?} without", conf.offset));
			return;
		}
		// One remuxer, several remuxes: the draws must differ
		let r = remuxer(&conf);
		let mut firsts = vec![];
		for i in 0..sc.num("draws", 3, 2, 8) as u64 {
			let mut j = job.clone();
			j.plan.seed ^= (i + 1) << 33;
			let o = ctx.remux(&r, &j);
			if o.used.entropy_calls == 0 {
				ctx.fail("not-drawn", "no randomness was drawn for a remux".to_string());
				return;
			}
			firsts.push(serials(&o));
		}
		// Two draws of 32 bits coincide once in four billion times
		if firsts.windows(2).all(|w| w[0].first() == w[1].first()) {
			ctx.fail("not-fresh", format!("every remux starts with the same serial {:x?}", firsts[0]));
			return;
		}
	} else if base.used.entropy_calls + base.used.clock_reads > 0 {
		ctx.count("tolerated:entropy drawn although serials are fixed", 1);
	}
	// Other serials in the input, same output
	let mut input = sc.get("input").clone();
	let pool = sc.get("reserial").arr();
	if pool.is_empty() {
		return;
	}
	let mut used = std::collections::HashSet::new();
	if let Some(v) = input.get_mut("streams").and_then(|s| s.arr_mut()) {
		for (i, s) in v.iter_mut().enumerate() {
			let mut x = (pool[i % pool.len()].u64() as u32).wrapping_add((i / pool.len()) as u32);
			while !used.insert(x) {
				x = x.wrapping_add(1);
			}
			s.set("serial", x);
		}
	}
	let b2 = input::build(&input);
	let o = ctx.remux(&remuxer(&conf), &Job { data: Arc::new(b2.bytes), ..job.clone() });
	if o.res.class() != base.res.class() || o.out != base.out {
		// Streams that share a serial make an input invalid
		if m.verdict == model::Verdict::MustOk {
			ctx.fail("input-serials", format!("other serials in the input give {} and another output", o.res.brief()));
		}
	}
}

fn tagged_vendor(r: &mut Rng) -> J {
	let (a, b) = tags();
	let t = if r.chance(1, 2) { a } else { b };
	let body = ["", "x", "Xiph.Org libVorbis I 20200704", "; ", "\u{e9}", "\0\0"];
	let s = match r.below(9) {
		0 => t.to_string(),
		1 => format!("; {t}"),
		2 => format!("{}; {t}", r.pick(&body)),
		3 => format!("{}; {t} ", r.pick(&body)),
		4 => format!("{}{t}", r.pick(&body)),
		5 => format!("{}; {}", r.pick(&body), &t[..t.len() - 1]),
		6 => format!("{}; {t}; {}", r.pick(&body), if r.chance(1, 2) { a } else { b }),
		7 => format!("{}; {}", r.pick(&body), t.to_lowercase()),
		_ => format!("{t}; {}", r.pick(&body))
	};
	J::Str(s)
}
pub fn gen15(r: &mut Rng) -> J {
	let sloppy = r.chance(1, 3);
	let mut s = random_stream(r, &Shape { max_packets: 6, max_channels: 2, sloppy, ..shape_small() }, 0);
	if r.chance(1, 2) {
		s.set("vendor", tagged_vendor(r));
	} else if r.chance(1, 8) {
		s.set("vendor", near_limit(r));
	}
	let n = r.skewed(12);
	let mut c: Vec<J> = (0..n).map(|_| random_text(r)).collect();
	if r.chance(1, 4) {
		c.push(tagged_vendor(r));
	}
	if r.chance(1, 20) {
		c.push(near_limit(r));
	}
	// More comments than 16 bits can count
	let many = r.chance(1, 1500);
	if many {
		let at = r.below(c.len() as u64 + 1) as usize;
		c.insert(at, obj! {"len" => r.below(4), "seed" => r.below(1 << 20), "many" => 65_520 + r.skewed(4000)});
	}
	s.set("comments", J::Arr(c));
	let mut cuts: Vec<J> = vec![];
	if r.chance(1, 2) {
		for _ in 0..1 + r.below(8) {
			cuts.push(J::from(if many || r.chance(1, 10) { r.skewed(400_000) } else if r.chance(1, 2) { r.below(64) } else { r.skewed(3000) }));
		}
	}
	let mut acts: Vec<J> = vec![J::Arr(vec![J::from(2), J::from(0)])];
	for _ in 0..1 + r.below(4) {
		acts.push(J::Arr(vec![J::from(r.below(5)), J::from(r.below(2))]));
	}
	let conf = conf_random(r);
	obj! {"input" => obj! {"streams" => J::Arr(vec![s])}, "conf" => conf.to_json(), "entropy" => entropy_ok(r),
	"src" => flow_random(r, false), "sink" => flow_random(r, true), "cuts" => J::Arr(cuts), "actions" => J::Arr(acts)}
}
/// Every action on the comment header, whole or torn at several places.
pub fn run15(sc: &J, ctx: &mut Ctx) {
	let conf = Conf::from(sc.get("conf"));
	let mut inputs = vec![sc.get("input").clone()];
	for c in sc.get("cuts").arr().iter().take(16) {
		let mut i = sc.get("input").clone();
		each_stream(&mut i, |s| s.set("ccut", c.int().max(0) as u64));
		inputs.push(i);
	}
	for (n, input) in inputs.iter().enumerate() {
		let b = input::build(input);
		let job = job_from(sc, &b.bytes);
		if n > 0 {
			ctx.count("fault:comment header torn", 1);
		}
		let mut first: Option<Vec<Vec<u8>>> = None;
		for a in sc.get("actions").arr().iter().take(10) {
			let (v, c) = (a.arr().first().map_or(2, |v| v.u64()) % 5, a.arr().get(1).map_or(0, |v| v.u64()) % 2);
			let conf = Conf { vendor: v as u8, comments: c as u8, ..conf.clone() };
			let o = ctx.remux(&remuxer(&conf), &job);
			// A comment header shorter than its own signature is not one
			let m = judge_run(ctx, &b.bytes, &conf, &o, model::ALL);
			if !ctx.viols.is_empty() {
				return;
			}
			if !o.res.is_ok() || m.verdict != model::Verdict::MustOk {
				continue;
			}
			let Ok((_, s)) = ogg::strict_streams(&o.out) else { continue };
			let audio: Vec<Vec<u8>> = s.iter().flat_map(|s| s.iter().skip(2).map(|p| p.data.clone())).collect();
			match &first {
				Some(f) if *f != audio => {
					ctx.fail("audio", format!("vendor action {v} and comment action {c} change more than the comment header"));
					return;
				}
				Some(_) => (),
				None => first = Some(audio)
			}
		}
	}
}

/// Codebooks: many, sparse, deep, hardly used.
pub fn gen19(r: &mut Rng) -> J {
	let cut = r.chance(1, 4);
	let mut input = random_input(r, &Shape { max_streams: 2, others: false, damage_gp: false, cut, ..Shape::default() });
	each_stream(&mut input, |s| {
		let f = s.get("feat").u64() | (r.next() & r.next() & feat::ALL) | feat::SPARSE;
		s.set("feat", f & if r.chance(1, 8) { feat::ALL } else { !feat::MANY });
		if r.chance(1, 8) {
			let n = r.below(120);
			s.set("pk", J::Arr((0..n).map(|_| J::Arr(vec![J::from(0), J::from(r.below(1 << 20))])).collect()));
		}
	});
	skew(r, &mut input, 30, 5000);
	let conf = conf_random(r);
	base(r, input, &conf)
}

pub fn gen20(r: &mut Rng) -> J {
	let mut input = random_input(r, &Shape { max_packets: 16, ..shape_small() });
	if r.chance(1, 2) {
		each_stream(&mut input, |s| s.set("segs", 1 + r.skewed(20)));
	}
	let conf = conf_random(r);
	let mut sc = base(r, input.clone(), &conf);
	sc.set("entropy", entropy_ok(r));
	let n = 3 + r.below(8);
	let v: Vec<J> = (0..n)
		.map(|_| {
			let mut second = input.clone();
			match r.below(6) {
				0 => second = random_input(r, &Shape { max_packets: 16, ..shape_small() }),
				1 => second.set("mut", J::Arr(vec![J::Arr(vec![J::from(6), J::from(0), J::from(r.below(1 << 20)), J::from(0)])])),
				2 => {
					let k = *r.pick(&[3i64, 3, 4, 5, 7, 8, 10, 12, 13, 14]);
					second.set("mut", J::Arr(vec![J::Arr(vec![J::from(k), J::from(r.below(60)), J::from(r.below(1 << 20)), J::from(1 + r.below(255))])]));
				}
				3 => each_stream(&mut second, |s| match r.below(4) {
					0 => s.set("seed", r.below(1 << 40)),
					1 => s.set("vendor", random_text(r)),
					2 => s.set("ch", 1 + r.below(4)),
					_ => {
						if let Some(p) = s.get_mut("pk").and_then(|p| p.arr_mut()) {
							for _ in 0..1 + r.below(3) {
								let at = r.below(p.len() as u64 + 1) as usize;
								if r.chance(1, 2) || at >= p.len() {
									p.insert(at, J::Arr(vec![J::from(r.below(7)), J::from(r.below(1 << 20))]));
								} else {
									p.remove(at);
								}
							}
						}
					}
				}),
				4 => {
					if let Some(v) = second.get_mut("streams").and_then(|s| s.arr_mut()) {
						if v.len() > 1 {
							v.reverse();
						} else {
							let s = random_stream(r, &Shape { max_packets: 6, ..shape_small() }, 1);
							v.push(s);
						}
					}
				}
				_ => add_chaos(r, &mut second, 2)
			}
			let mut d = obj! {"input" => second};
			if r.chance(1, 3) {
				d.set("late", r.below(1 << 20));
			}
			d
		})
		.collect();
	sc.set("changes", J::Arr(v));
	sc
}
/// The source delivers other data from the rewind on, or from some read of the second pass on.
pub fn run20(sc: &J, ctx: &mut Ctx) {
	set_log_level(sc);
	let b = built(sc);
	let conf = Conf::from(sc.get("conf"));
	let mut job = job_from(sc, &b.bytes);
	job.plan.fail_all = false;
	job.src.intr = 0;
	job.src_faults.clear();
	let base = ctx.remux(&remuxer(&conf), &job);
	if !base.res.is_ok() {
		return;
	}
	let m = model::predict(&b.bytes, &conf);
	for c in sc.get("changes").arr().iter().take(16) {
		let other = input::build(c.get("input")).bytes;
		let mut d = job.data[..job.base as usize].to_vec();
		d.extend_from_slice(&other);
		let mut j = job.clone();
		j.second = Some(Arc::new(d));
		if c.has("late") {
			let span = base.src.ops.saturating_sub(base.first_ops).max(1);
			j.switch_at = Some(base.first_ops + c.get("late").u64() % span);
		}
		ctx.count("fault:source changed between or during the passes", 1);
		let o = ctx.remux(&remuxer(&conf), &j);
		if !ctx.viols.is_empty() {
			return;
		}
		if !o.res.is_ok() || o.out == base.out {
			continue;
		}
		if let Err(e) = wellformed(&o.out) {
			ctx.fail("malformed", format!("success although the source changed, output: {e}"));
			return;
		}
		// Then it has to be a complete rendition of what was there before, or after
		let asp = model::Aspects { granules: false, ..model::ALL };
		if m.verdict == model::Verdict::Unknown {
			continue;
		}
		let m2 = model::predict(&other, &conf);
		let bad = |m: &Model| model::judge(m, &conf, &o.out, tags(), asp).0.into_iter().find(|v| v.prop == "C01" && v.class != "cut-pad");
		if let (Some(v), true) = (bad(&m), m2.verdict == model::Verdict::Unknown || bad(&m2).is_some()) {
			ctx.fail("mixed", format!("success although the source changed, output: {}", v.msg));
			return;
		}
	}
}

pub fn gen21(r: &mut Rng) -> J {
	let nv = *r.pick(&[0u64, 1, 1, 1, 2, 2, 3, 6]);
	let no = if nv == 0 { r.below(5) } else { 1 + r.below(4) };
	let mut v: Vec<J> = vec![];
	for i in 0..nv {
		let mut s = random_stream(r, &Shape { max_packets: 12, max_channels: 2, ..shape_small() }, i);
		if i + 1 < nv {
			s.set("eos", true);
		}
		if i > 0 && r.chance(1, 5) {
			s.set("inside", 1 + r.skewed(12));
		}
		if r.chance(1, 12) {
			s.set("nileos", true);
		}
		v.push(s);
	}
	for _ in 0..no {
		let o = random_other(r);
		v.insert(r.below(v.len() as u64 + 1) as usize, o);
	}
	let conf = Conf { error_on_none: r.chance(1, 2), ..conf_random(r) };
	let mux = r.below(1 << 24);
	let mut input = obj! {"streams" => J::Arr(v), "mux" => mux};
	if nv > 1 && r.chance(1, 8) {
		// A stream that goes on after the next one started
		let m: Vec<J> = vec![J::from(16), J::from(r.below(60)), J::from(r.below(3)), J::from(r.skewed(7))];
		input.set("mut", J::Arr(vec![J::Arr(m)]));
	}
	let mut sc = base(r, input, &conf);
	sc.set("entropy", entropy_ok(r));
	sc
}
/// Judged, and compared with the same input without its other streams.
pub fn run21(sc: &J, ctx: &mut Ctx) {
	set_log_level(sc);
	let b = built(sc);
	let conf = Conf::from(sc.get("conf"));
	let mut job = job_from(sc, &b.bytes);
	job.plan.fail_all = false;
	job.src.intr = 0;
	job.src_faults.clear();
	let o = ctx.remux(&remuxer(&conf), &job);
	let m = judge_run(ctx, &b.bytes, &conf, &o, model::ALL);
	if !ctx.viols.is_empty() || m.verdict != model::Verdict::MustOk {
		return;
	}
	if m.streams.is_empty() {
		if !o.out.is_empty() {
			ctx.fail("not-empty", format!("{} bytes for an input without Vorbis streams", o.out.len()));
		}
		return;
	}
	if m.others == 0 || !o.res.is_ok() {
		return;
	}
	let keep: Vec<u32> = m.streams.iter().map(|s| s.serial).collect();
	let stripped: Vec<u8> = b.pages.iter().filter(|p| keep.contains(&p.serial)).flat_map(|p| p.encode()).collect();
	let alone = ctx.remux(&remuxer(&conf), &Job { data: Arc::new(stripped), base: 0, ..job.clone() });
	ctx.count("probe:compared without the other streams", 1);
	if alone.res.class() != o.res.class() || alone.out != o.out {
		ctx.fail("others-influence", "streams that are left out change what is written for the Vorbis streams".to_string());
	}
}
