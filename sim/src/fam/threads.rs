//! Remuxes that run at the same time, or one after the other, in a process that starts anew
//! for each of them: what is kept for the lifetime of a process is part of the scenario.

use super::*;
use crate::{
	apart::{Dec, Enc, Gone, forked},
	sched::{self, Report, Spec}
};
use simcore::{input::*, ogg as sogg};
use std::{cell::RefCell, os::unix::ffi::OsStringExt, rc::Rc};

fn small() -> Shape {
	Shape { max_streams: 2, max_packets: 6, ..Shape::default() }
}
fn faults(r: &mut Rng, sink: bool) -> J {
	let n = 1 + r.below(2);
	J::Arr((0..n).map(|_| J::Arr(vec![J::from(r.skewed(200)), J::from(fault_kind(r, sink))])).collect())
}
fn job(r: &mut Rng, fail_all: bool) -> J {
	let mut input = random_input(r, &small());
	if r.chance(1, 8) {
		super::remux::add_chaos(r, &mut input, 2);
	}
	let mut conf = conf_random(r);
	if r.chance(3, 4) {
		conf.randomize = true;
	}
	let mut src = flow_random(r, false);
	let mut sink = flow_random(r, true);
	for f in [&mut src, &mut sink] {
		if f.num("mode", 0, 0, 3) == 1 {
			f.set("mode", 2);
		}
	}
	if r.chance(1, 7) {
		src.set("faults", faults(r, false));
	}
	if r.chance(1, 7) {
		sink.set("faults", faults(r, true));
	}
	let mut e = entropy_random(r);
	if fail_all {
		e.set("fail_all", true);
	}
	obj! {"input" => input, "conf" => conf.to_json(), "src" => src, "sink" => sink, "entropy" => e}
}
/// Values of the variable. Letters beyond ASCII stand for single bytes.
fn epoch(r: &mut Rng, valid: bool) -> String {
	if valid {
		return match r.below(9) {
			0 => "0".into(),
			1 => format!("{}", r.next() as i64),
			2 => format!("-{}", r.next()),
			3 => format!("{}{}", r.next(), r.below(1000)),
			4 => "170141183460469231731687303715884105727".into(),
			5 => "-170141183460469231731687303715884105728".into(),
			6 => format!("{:0>45}", r.below(1 << 40)),
			_ => format!("{}", r.below(1 << 32))
		};
	}
	let bad = [
		"", " 1", "1 ", "1.5", "0x10", "-", "+", "--1", "1e9", "now", "\u{ff}1", "1\u{80}", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
		"1\n", "1,000", "9999999999999999999999999999999999999999999", "\u{b2}", "1_000", "1-"
	];
	r.pick(&bad).to_string()
}
fn bytes_of(s: &str) -> Vec<u8> {
	s.chars().map(|c| c as u32 as u8).filter(|b| *b != 0).collect()
}

pub fn gen10(r: &mut Rng) -> J {
	let n = 2 + r.skewed(3);
	let mode = r.below(8);
	// 0, 1: everything random; 2..4: no entropy; 5, 6: reproducible; 7: not valid
	let mut threads = vec![];
	for _ in 0..n {
		let jobs = 1 + r.below(6) / 4;
		let fails = matches!(mode, 2..=4) && r.chance(3, 4);
		threads.push(J::Arr(
			(0..jobs)
				.map(|_| {
					let mut j = job(r, fails);
					if r.chance(1, 7) {
						j.set("nest", obj! {"at" => r.skewed(60), "job" => job(r, fails)});
					}
					j
				})
				.collect()
		));
	}
	let mut s = obj! {};
	let shape = r.below(5);
	if shape == 0 {
		s.set("every", 1 + r.skewed(40));
	} else {
		let k = [1, 3, 8, 40][shape as usize - 1];
		let p: Vec<J> = (0..r.below(k + 1)).map(|_| J::Arr(vec![J::from(r.below(n)), J::from(r.below(10_000)), J::from(r.below(n))])).collect();
		s.set("pre", J::Arr(p));
	}
	if mode >= 2 && r.chance(1, 6) {
		let p: Vec<J> = (0..1 + r.below(12)).map(|_| J::Arr(vec![J::from(r.below(n)), J::from(r.below(10_000)), J::from(r.below(n))])).collect();
		s.set("steps", J::Arr(p));
	} else if r.chance(1, 8) {
		// After any operation of each, instead of around the draw
		let p: Vec<J> = (0..1 + r.below(6)).map(|_| J::Arr(vec![J::from(r.below(n)), J::from(r.below(10_000)), J::from(r.below(n))])).collect();
		s.set("steps", J::Arr(p));
		s.set("from", J::Arr((0..n).map(|_| J::from(r.below(10_000))).collect()));
	}
	if r.chance(1, 3) {
		s.set("spurious", true);
	}
	// After accesses to what the library keeps for the lifetime of the process
	match r.below(6) {
		0 => s.set("every_touch", 1 + r.skewed(30)),
		1 | 2 => {
			let p: Vec<J> = (0..1 + r.below(8)).map(|_| J::Arr(vec![J::from(r.below(n)), J::from(r.below(10_000)), J::from(r.below(n))])).collect();
			s.set("touch", J::Arr(p));
		}
		_ => ()
	}
	let mut sc = obj! {"threads" => J::Arr(threads), "sched" => s, "log" => r.below(3)};
	match mode {
		5 | 6 => sc.set("epoch", J::Str(epoch(r, true))),
		7 => {
			let valid = r.chance(1, 2);
			sc.set("epoch", J::Str(epoch(r, valid)));
		}
		_ => ()
	}
	sc
}

/// What a job does, without its schedule.
#[derive(Clone)]
struct Todo {
	job: Job,
	conf: Conf,
	/// Runs inside of another one, at this operation of its sink.
	inside: Option<u64>,
	/// With the library as built without its default features.
	plain: bool
}
fn todo(j: &J) -> Todo {
	Todo { job: job_from(j, &built(j).bytes), conf: Conf::from(j.get("conf")), inside: None, plain: false }
}
/// Every thread's jobs in the order of the program; those that run inside another follow it.
fn program(sc: &J) -> Vec<Vec<Todo>> {
	sc.get("threads")
		.arr()
		.iter()
		.take(sched::MAX)
		.map(|t| {
			let mut v = vec![];
			for j in t.arr().iter().take(3) {
				v.push(todo(j));
				if j.has("nest") {
					let mut t = todo(j.get("nest").get("job"));
					t.inside = Some(j.get("nest").num("at", 0, 0, 1 << 20) as u64);
					v.push(t);
				}
			}
			v
		})
		.collect()
}
fn one(t: &Todo, hook: Option<(u64, Box<dyn FnOnce()>)>) -> Outcome {
	let ends = sched::next_job();
	let o = if t.plain { remux_plain(&t.conf, &t.job, hook) } else { remux_hooked(&remuxer(&t.conf), &t.job, None, hook) };
	sched::back_to(ends);
	o
}
/// The jobs of one thread. Without `nest`, those inside of others run after them.
fn perform(list: Vec<Todo>, nest: bool) -> Vec<Option<Outcome>> {
	let mut v = vec![];
	let mut i = 0;
	while i < list.len() {
		let inner = list.get(i + 1).filter(|t| nest && t.inside.is_some()).cloned();
		let slot = Rc::new(RefCell::new(None));
		let two = inner.is_some();
		let hook: Option<(u64, Box<dyn FnOnce()>)> = inner.map(|t| {
			let s = slot.clone();
			(t.inside.unwrap(), Box::new(move || *s.borrow_mut() = Some(one(&t, None))) as Box<dyn FnOnce()>)
		});
		sched::next_job();
		v.push(Some(one(&list[i], hook)));
		if two {
			v.push(slot.borrow_mut().take());
		}
		i += 1 + two as usize;
	}
	v
}

struct Ran {
	/// By thread and job.
	out: Vec<Vec<Option<Outcome>>>,
	report: Report
}
/// Runs threads in a process of their own.
fn run_threads(progs: &[Vec<Todo>], nest: bool, spec: &Spec, limit: u64, var: Option<&[u8]>) -> Result<Ran, Gone> {
	let lens: Vec<usize> = progs.iter().map(|p| p.len()).collect();
	let v = forked(|fd| {
		if let Some(v) = var {
			unsafe { std::env::set_var("SOURCE_DATE_EPOCH", std::ffi::OsString::from_vec(v.to_vec())) };
		}
		let bodies = progs
			.iter()
			.map(|p| {
				let p = p.clone();
				Box::new(move || perform(p, nest)) as Box<dyn FnOnce() -> Vec<Option<Outcome>> + Send>
			})
			.collect();
		let (res, rep) = sched::run(bodies, spec.clone(), limit, fd);
		let mut e = Enc::new();
		for n in rep.yields.iter().chain(&rep.stepped).chain(&rep.touched) {
			e.n(*n);
		}
		for n in [rep.total, rep.switches, rep.waits, rep.wakes, rep.forced, rep.trace] {
			e.n(n);
		}
		for t in res {
			e.n(t.is_some() as u64);
			for o in t.unwrap_or_default() {
				e.n(o.is_some() as u64);
				if let Some(o) = o {
					e.outcome(&o);
				}
			}
		}
		e.0
	})?;
	let mut d = Dec(&v);
	let mut report = Report::default();
	for i in 0..sched::MAX {
		report.yields[i] = d.n();
	}
	for i in 0..sched::MAX {
		report.stepped[i] = d.n();
	}
	for i in 0..sched::MAX {
		report.touched[i] = d.n();
	}
	report.total = d.n();
	report.switches = d.n();
	report.waits = d.n();
	report.wakes = d.n();
	report.forced = d.n();
	report.trace = d.n();
	let mut out = vec![];
	for n in lens {
		if d.n() == 0 {
			return Err(Gone::Died("a thread did not end".into()));
		}
		out.push((0..n).map(|_| (d.n() != 0).then(|| d.outcome())).collect());
	}
	Ok(Ran { out, report })
}
/// Runs jobs one after the other in a process of their own.
fn in_turn(list: &[Todo], from: Option<&[u64]>, watch: bool, var: Option<&[u8]>) -> Result<(Vec<Outcome>, Report), Gone> {
	let spec = Spec { watch, stepping: from.is_some(), from: from.unwrap_or_default().to_vec(), ..Spec::default() };
	let r = run_threads(&[list.to_vec()], false, &spec, 60_000_000, var)?;
	Ok((r.out.into_iter().flatten().flatten().collect(), r.report))
}

/// Output bytes with serials replaced by numbers, as far as there are pages, and the serials.
pub fn masked(out: &[u8]) -> (Vec<u8>, Vec<u32>) {
	let mut v = out.to_vec();
	let mut serials: Vec<u32> = vec![];
	let mut pos = 0;
	while pos < v.len() {
		let end = match sogg::parse_page(out, pos, false) {
			Ok(p) => {
				v[pos + 22] = (p.crc_xor == 0) as u8;
				v[pos + 23..pos + 26].fill(0);
				pos + p.len()
			}
			Err(_) => {
				// The rest of a page that was not written completely
				let e = (pos + 26).min(v.len());
				v[(pos + 22).min(e)..e].fill(0);
				v.len()
			}
		};
		if pos + 18 <= v.len() {
			let s = u32::from_le_bytes(out[pos + 14..pos + 18].try_into().unwrap());
			let at = serials.iter().position(|x| *x == s).unwrap_or_else(|| {
				serials.push(s);
				serials.len() - 1
			});
			v[pos + 14..pos + 18].copy_from_slice(&(at as u32).to_le_bytes());
		} else {
			let e = v.len();
			v[(pos + 14).min(e)..e].fill(0);
		}
		pos = end;
	}
	(v, serials)
}

fn gone(ctx: &mut Ctx, g: &Gone, when: &str) {
	match g {
		Gone::Deadlock => ctx.fail("deadlock", format!("every thread waits for another one {when}")),
		Gone::Endless => ctx.fail("endless", format!("no end {when}")),
		Gone::Died(m) => ctx.fail("crash", format!("the process died {when}: {m}"))
	}
}

/// What two runs of the same job differ in, if they do. With `shared`, serials do not count.
fn differs(a: &Outcome, b: &Outcome, shared: bool) -> Option<String> {
	if a.res.class() != b.res.class() {
		return Some(format!("{} instead of {}", a.res.brief(), b.res.brief()));
	}
	if a.over_budget() != b.over_budget() {
		return Some("the amount of work differs".into());
	}
	let same = if shared { masked(&a.out).0 == masked(&b.out).0 } else { a.out == b.out };
	if !same {
		return Some(format!("the bytes differ ({} and {} bytes)", a.out.len(), b.out.len()));
	}
	if a.src.log.0 != b.src.log.0 || a.sink.log.0 != b.sink.log.0 {
		return Some("the operations differ".into());
	}
	None
}

fn account(ctx: &mut Ctx, o: &Outcome) {
	let shapes = std::mem::take(&mut ctx.st.digest);
	ctx.account(o);
	// Everything is determined by the scenario here, fallback generator included
	let mut d = shapes;
	d.bytes(o.res.class().as_bytes());
	d.u64(o.src.log.0);
	d.u64(o.sink.log.0);
	d.bytes(&o.out);
	ctx.st.digest = d;
}

pub fn run10(sc: &J, ctx: &mut Ctx) {
	set_log_level(sc);
	let progs = program(sc);
	if progs.is_empty() {
		return;
	}
	let var = sc.has("epoch").then(|| bytes_of(sc.get("epoch").str()));
	let valid = var.as_ref().map(|v| valid_epoch(v));
	let j = sc.get("sched");
	let stepping = !j.get("steps").arr().is_empty();
	let flat: Vec<(usize, usize)> = progs.iter().enumerate().flat_map(|(t, p)| (0..p.len()).map(move |i| (t, i))).collect();
	// Each by itself
	let mut solo: Vec<Vec<Outcome>> = vec![vec![]; progs.len()];
	let (mut yields, mut steps, mut touches) = (vec![0; progs.len()], vec![0; progs.len()], vec![0; progs.len()]);
	// Where the first remux of each thread is stepped through, if not around the draw
	let places = j.get("from").arr();
	let mut from = if stepping && !places.is_empty() { vec![u64::MAX; progs.len()] } else { vec![] };
	for &(t, i) in &flat {
		match in_turn(&progs[t][i..=i], (stepping && from.is_empty()).then_some(&[][..]), true, var.as_deref()) {
			Ok((o, r)) => {
				yields[t] += r.yields[0];
				steps[t] += r.stepped[0];
				touches[t] += r.touched[0];
				solo[t].extend(o);
				if i == 0 && !from.is_empty() {
					from[t] = places.get(t).map_or(0, |p| p.u64().min(9_999)) * r.yields[0] / 10_000;
					match in_turn(&progs[t][..1], Some(&from[t..=t]), false, var.as_deref()) {
						Ok((_, r)) => steps[t] = r.stepped[0],
						Err(g) => return gone(ctx, &g, "in a remux by itself")
					}
				}
			}
			Err(g) => return gone(ctx, &g, "in a remux by itself")
		}
	}
	let n = progs.len();
	let spec = Spec {
		every: j.num("every", 0, 0, 1 << 30) as u64,
		pre: sched::places(j.get("pre"), n, &yields),
		steps: sched::places(j.get("steps"), n, &steps),
		stepping,
		from,
		touch: sched::places(j.get("touch"), n, &touches),
		every_touch: j.num("every_touch", 0, 0, 1 << 30) as u64,
		watch: true,
		spurious: j.flag("spurious", false)
	};
	let limit = yields.iter().sum::<u64>() * 3 + 20_000;
	let ran = match run_threads(&progs, true, &spec, limit, var.as_deref()) {
		Ok(r) => r,
		Err(g) => return gone(ctx, &g, "among concurrent remuxes")
	};
	ctx.st.digest.u64(ran.report.trace);
	ctx.state(ran.report.trace);
	ctx.count("judged:schedules", 1);
	ctx.count("probe:switches between threads", ran.report.switches);
	ctx.count("probe:waits for a lock", ran.report.waits);
	ctx.count("probe:accesses to statics of the library", ran.report.touched.iter().sum());
	ctx.count("probe:instructions stepped through", ran.report.stepped.iter().sum());
	ctx.count("fault:spurious wakeup", ran.report.forced);
	let ranked = |t: usize, i: usize| ran.out[t][i].as_ref();
	let is_shared = |t: usize, i: usize| {
		let p = &progs[t][i];
		p.conf.randomize && (valid == Some(true) || (valid.is_none() && ranked(t, i).is_some_and(|o| o.used.entropy_failed > 0)))
	};
	for &(t, i) in &flat {
		let Some(o) = ranked(t, i) else {
			ctx.count("skipped:inner remux not reached", 1);
			continue;
		};
		account(ctx, o);
		if i > 0 || progs[t][i].inside.is_some() {
			ctx.count(if progs[t][i].inside.is_some() { "probe:remux inside a remux" } else { "probe:second remux of a thread" }, 1);
		}
		if let Some(d) = differs(o, &solo[t][i], is_shared(t, i)) {
			return ctx.fail("interference", format!("thread {t}, remux {i}: {d}"));
		}
		if o.used.entropy_calls != solo[t][i].used.entropy_calls {
			return ctx.fail("interference", format!("thread {t}, remux {i}: {} requests for entropy instead of {}", o.used.entropy_calls, solo[t][i].used.entropy_calls));
		}
	}
	// Serials that come from the generator of the process: those of some order
	let shared: Vec<(usize, usize)> = flat.iter().copied().filter(|&(t, i)| ranked(t, i).is_some() && is_shared(t, i)).collect();
	let seen = |o: &Outcome| masked(&o.out).1;
	let got: Vec<Vec<u32>> = shared.iter().map(|&(t, i)| seen(ranked(t, i).unwrap())).collect();
	if got.iter().filter(|g| !g.is_empty()).count() < 1 || shared.len() > 6 {
		return;
	}
	let mut first: Vec<usize> = (0..shared.len()).collect();
	first.sort_by_key(|&k| ranked(shared[k].0, shared[k].1).unwrap().rewound);
	ctx.count("judged:serials of concurrent remuxes", got.iter().filter(|g| !g.is_empty()).count() as u64);
	let matches = |order: &[usize], ctx: &mut Ctx| -> Option<bool> {
		let list: Vec<Todo> = order.iter().map(|&k| progs[shared[k].0][shared[k].1].clone()).collect();
		match in_turn(&list, None, false, var.as_deref()) {
			Ok((o, _)) => Some(order.iter().zip(&o).all(|(&k, o)| seen(o) == got[k])),
			Err(g) => {
				gone(ctx, &g, "in remuxes one after the other");
				None
			}
		}
	};
	match matches(&first, ctx) {
		Some(true) | None => return,
		_ => ()
	}
	ctx.count("probe:serials of another order than that of the rewinds", 1);
	let mut orders = vec![];
	permute(&shared, &mut vec![], &mut orders);
	for o in &orders {
		match matches(o, ctx) {
			Some(true) | None => return,
			_ => ()
		}
	}
	ctx.fail("serials", format!("serials {got:x?} do not come from any of the {} orders", orders.len()));
}
/// Orders of the jobs that keep those of each thread in their order.
fn permute(jobs: &[(usize, usize)], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
	if cur.len() == jobs.len() {
		out.push(cur.clone());
		return;
	}
	for k in 0..jobs.len() {
		let ready = !cur.contains(&k) && (0..jobs.len()).all(|o| cur.contains(&o) || jobs[o].0 != jobs[k].0 || jobs[o].1 >= jobs[k].1);
		if ready {
			cur.push(k);
			permute(jobs, cur, out);
			cur.pop();
		}
	}
}

/// Signed decimal integers of up to 128 bits.
pub fn valid_epoch(e: &[u8]) -> bool {
	let (neg, d) = match e.split_first() {
		Some((b'-', d)) => (true, d),
		Some((b'+', d)) => (false, d),
		_ => (false, e)
	};
	if d.is_empty() || !d.iter().all(u8::is_ascii_digit) {
		return false;
	}
	let d = &d[d.iter().position(|c| *c != b'0').unwrap_or(d.len())..];
	let most: &[u8] = if neg { b"170141183460469231731687303715884105728" } else { b"170141183460469231731687303715884105727" };
	d.len() < most.len() || (d.len() == most.len() && d <= most)
}

pub fn gen11(r: &mut Rng) -> J {
	if r.chance(1, 4) {
		return cli::gen11(r);
	}
	let n = 1 + r.below(4);
	let mut items: Vec<J> = (0..n).map(|_| job(r, false)).collect();
	if r.chance(1, 3) {
		items.push(items[0].clone());
	}
	let variants: Vec<J> = (0..1 + r.below(2))
		.map(|_| {
			let mut e = entropy_random(r);
			if r.chance(1, 2) {
				e.set("fail", J::Arr((0..1 + r.below(4)).map(|_| J::from(r.below(5))).collect()));
			}
			obj! {"entropy" => e, "flow" => r.chance(1, 2), "seed" => r.below(1 << 30)}
		})
		.collect();
	let mut sc = obj! {"items" => J::Arr(items), "variants" => J::Arr(variants), "log" => r.below(3)};
	match r.below(8) {
		0..=3 => sc.set("epoch", J::Str(epoch(r, true))),
		4 | 5 => sc.set("epoch", J::Str(epoch(r, false))),
		_ => ()
	}
	if r.chance(1, 4) {
		sc.set("plain", 1);
	}
	sc
}

/// Without its default features, the library does not look at the variable at all, and otherwise does
/// in the same world what it does with them when the variable is not set.
fn run11_plain(items: &[Todo], var: Option<&[u8]>, ctx: &mut Ctx) {
	let mut list = items.to_vec();
	for t in &mut list {
		// Their tags may be told apart
		t.conf.vendor = 0;
	}
	let with = in_turn(&list, None, false, None);
	for t in &mut list {
		t.plain = true;
	}
	let (with, without) = match (with, in_turn(&list, None, false, var)) {
		(Ok((a, _)), Ok((b, _))) => (a, b),
		(Err(g), _) => return gone(ctx, &g, "without the variable"),
		(_, Err(g)) => return gone(ctx, &g, "without the default features")
	};
	let text = |o: &Outcome| match &o.res {
		Res::Err(e) => format!("error: {}", e.text),
		r => r.brief()
	};
	for (k, (a, b)) in with.iter().zip(&without).enumerate() {
		account(ctx, a);
		account(ctx, b);
		ctx.count("judged:remuxes without the default features", 1);
		if let Res::Panic(m) = &b.res {
			return ctx.fail("panic", format!("remux {k} without the default features: {m}"));
		}
		if text(a) != text(b) || a.out != b.out {
			return ctx.fail(
				"features",
				format!(
					"remux {k}: without the default features and with SOURCE_DATE_EPOCH {:?} {} ({} bytes, serials {:x?}), with them and without the variable {} ({} bytes, serials {:x?})",
					var.map(String::from_utf8_lossy), text(b), b.out.len(), masked(&b.out).1, text(a), a.out.len(), masked(&a.out).1
				)
			);
		}
	}
}

pub fn run11(sc: &J, ctx: &mut Ctx) {
	if sc.has("opts") {
		return cli::run11(sc, ctx);
	}
	set_log_level(sc);
	let items: Vec<Todo> = sc.get("items").arr().iter().take(8).map(todo).collect();
	if items.is_empty() {
		return;
	}
	let var = sc.has("epoch").then(|| bytes_of(sc.get("epoch").str()));
	if sc.num("plain", 0, 0, 1) != 0 {
		return run11_plain(&items, var.as_deref(), ctx);
	}
	// Without the variable, with entropy
	let mut list = items.clone();
	for t in &mut list {
		t.job.plan.fail_all = false;
		t.job.plan.fail.clear();
	}
	let base = match in_turn(&list, None, false, None) {
		Ok((o, _)) => o,
		Err(g) => return gone(ctx, &g, "without the variable")
	};
	for o in &base {
		account(ctx, o);
	}
	let mut runs: Vec<Vec<Outcome>> = vec![];
	let mut variants = vec![J::Null];
	variants.extend(sc.get("variants").arr().iter().take(4).cloned());
	for v in &variants {
		let mut list = items.clone();
		for (k, t) in list.iter_mut().enumerate() {
			if *v == J::Null {
				continue;
			}
			t.job.plan = plan_from(v.get("entropy"));
			t.job.plan.seed ^= (k as u64) << 32;
			// How the bytes are delivered; operations that fail stay where they are
			if v.flag("flow", false) && t.job.src_faults.is_empty() && t.job.sink_faults.is_empty() {
				let mut r = Rng::new(v.num("seed", 1, 0, i64::MAX) as u64 + k as u64);
				t.job.src = crate::io::Flow::from(&flow_random(&mut r, false));
				t.job.sink = crate::io::Flow::from(&flow_random(&mut r, true));
			}
		}
		let o = match in_turn(&list, None, false, var.as_deref()) {
			Ok((o, _)) => o,
			Err(g) => return gone(ctx, &g, "in a sequence of remuxes")
		};
		for o in &o {
			account(ctx, o);
		}
		runs.push(o);
	}
	let valid = var.as_ref().map(|v| valid_epoch(v));
	let what = || var.as_ref().map(|v| String::from_utf8_lossy(v).into_owned());
	for (v, run) in runs.iter().enumerate() {
		let mut drawn: Vec<u32> = vec![];
		for (k, o) in run.iter().enumerate() {
			let (conf, b) = (&items[k].conf, &base[k]);
			let at = format!("variant {v}, remux {k}, variable {:?}", what());
			if matches!(b.res, Res::Panic(_)) && o.res == b.res {
				continue;
			}
			if !conf.randomize {
				if o.used.entropy_calls + o.used.clock_reads > 0 {
					return ctx.fail("consulted", format!("{at}: entropy or the clock was used without randomization"));
				}
				if o.res.class() != b.res.class() || o.out != b.out {
					return ctx.fail("effect", format!("{at}: {} ({} bytes) instead of {} ({} bytes) without randomization", o.res.brief(), o.out.len(), b.res.brief(), b.out.len()));
				}
				continue;
			}
			if valid == Some(false) {
				ctx.count("judged:values that are not valid", 1);
				if o.res.is_ok() {
					return ctx.fail("epoch-accepted", format!("{at}: success"));
				}
				if o.sink.bytes > 0 {
					return ctx.fail("epoch-written", format!("{at}: {} bytes were written", o.sink.bytes));
				}
				let dedicated = matches!(&o.res, Res::Err(e) if e.kind == "epoch");
				if (b.res.is_ok() || b.sink.bytes > 0) && !dedicated {
					return ctx.fail("epoch-error", format!("{at}: {}", o.res.brief()));
				}
				continue;
			}
			if matches!(&o.res, Res::Err(e) if e.kind == "epoch") {
				return ctx.fail("epoch-refused", format!("{at}: {}", o.res.brief()));
			}
			if o.res.class() != b.res.class() || masked(&o.out).0 != masked(&b.out).0 {
				return ctx.fail("effect", format!("{at}: {} ({} bytes) instead of {} ({} bytes)", o.res.brief(), o.out.len(), b.res.brief(), b.out.len()));
			}
			if valid == Some(true) {
				if o.used.entropy_calls + o.used.clock_reads > 0 {
					return ctx.fail("consulted", format!("{at}: entropy was used {} times, the clock {} times", o.used.entropy_calls, o.used.clock_reads));
				}
				if o.out != runs[0][k].out {
					return ctx.fail("irreproducible", format!("{at}: serials {:x?} instead of {:x?}", masked(&o.out).1, masked(&runs[0][k].out).1));
				}
				ctx.count("judged:reproducible remuxes", 1);
			} else if o.used.entropy_failed > 0 {
				ctx.count("judged:remuxes without entropy", 1);
			}
			// What a simulated entropy source provides twice is none of their business
			if let Some(s) = masked(&o.out).1.first().filter(|_| valid == Some(true) || o.used.entropy_failed > 0) {
				drawn.push(s.wrapping_sub(conf.offset));
			}
		}
		let mut d = drawn.clone();
		d.sort_unstable();
		d.dedup();
		if d.len() != drawn.len() {
			return ctx.fail("repeated", format!("variant {v}, variable {:?}: remuxes of the same process share serials {drawn:x?}", what()));
		}
	}
}
