//! Families that look at more than one run: sequences of remuxes on one remuxer, manglers
//! with state, and packet-level optimizers used in turns.

use super::*;
use optivorbis::{
	OggToOgg, Remuxer, VorbisOptimizer,
	remuxer::ogg_to_ogg::OggVorbisStreamMangler
};
use ::ogg::PacketWriteEndInfo;
use simcore::{input::*, ogg as sogg};
use std::{
	borrow::Cow,
	num::NonZeroU32,
	sync::Mutex
};

fn random_faults(r: &mut Rng, sink: bool) -> J {
	let n = 1 + r.below(2);
	J::Arr((0..n).map(|_| J::Arr(vec![J::from(r.skewed(300)), J::from(fault_kind(r, sink))])).collect())
}

/// One remux of a history: an input of any kind, delivered in any way, possibly failing.
fn item(r: &mut Rng, sh: &Shape) -> J {
	let mut input = if r.chance(1, 30) {
		obj! {"raw" => obj! {"len" => r.skewed(3000), "seed" => r.below(1 << 30)}}
	} else {
		random_input(r, sh)
	};
	if r.chance(1, 6) && !input.has("raw") {
		super::remux::add_chaos(r, &mut input, 2);
	}
	let mut src = flow_random(r, false);
	let mut sink = flow_random(r, true);
	if r.chance(1, 5) {
		src.set("faults", random_faults(r, false));
	}
	if r.chance(1, 5) {
		sink.set("faults", random_faults(r, true));
	}
	obj! {"input" => input, "src" => src, "sink" => sink, "entropy" => obj! {"seed" => r.below(1 << 32)}, "log" => r.below(3)}
}

pub fn gen09(r: &mut Rng) -> J {
	let mut conf = conf_random(r);
	if r.chance(1, 3) {
		conf.randomize = false;
	}
	let n = 1 + r.below(5);
	let sh = Shape { max_packets: 10, ..shape_small() };
	let mut items: Vec<J> = (0..n).map(|_| item(r, &sh)).collect();
	if r.chance(1, 3) {
		// The same one again
		let i = r.below(n) as usize;
		items.push(items[i].clone());
	}
	obj! {"conf" => conf.to_json(), "items" => J::Arr(items), "again" => r.chance(1, 2)}
}

/// A history on one remuxer, compared with a fresh remuxer for every run.
pub fn run09(sc: &J, ctx: &mut Ctx) {
	let conf = Conf::from(sc.get("conf"));
	let shared = remuxer(&conf);
	for (i, it) in sc.get("items").arr().iter().take(12).enumerate() {
		set_log_level(it);
		let b = built(it);
		let mut job = job_from(it, &b.bytes);
		job.plan.fail_all = false;
		let before = ctx.viols.len();
		let o = ctx.remux(&shared, &job);
		let f = ctx.remux(&remuxer(&conf), &job);
		if ctx.viols.len() > before {
			// Panics and budgets are for other properties, unless only one of the two has them
			let both = o.res.class() == f.res.class() && o.over_budget() == f.over_budget();
			ctx.viols.truncate(before);
			if !both {
				ctx.fail("history", format!("run {i}: {} instead of {}", o.res.brief(), f.res.brief()));
				return;
			}
			continue;
		}
		if o.res != f.res {
			ctx.fail("history", format!("run {i}: {} instead of {}", o.res.brief(), f.res.brief()));
			return;
		}
		if o.out != f.out {
			ctx.fail("history-bytes", format!("run {i}: the bytes differ from those of a fresh remuxer ({} and {} bytes)", o.out.len(), f.out.len()));
			return;
		}
		if o.src.log.0 != f.src.log.0 || o.used.entropy_calls != f.used.entropy_calls {
			ctx.fail("history-io", format!("run {i}: the operations differ from those of a fresh remuxer"));
			return;
		}
		if !o.res.is_ok() || conf.randomize || o.out.is_empty() {
			continue;
		}
		// Fixed point
		let m = model::predict(&b.bytes, &conf);
		let m2 = model::predict(&o.out, &conf);
		let comparable = m.verdict == model::Verdict::MustOk
			&& m2.verdict == model::Verdict::MustOk
			&& m.streams.len() == m2.streams.len()
			&& m.streams.iter().zip(&m2.streams).all(|(a, b)| {
				// A vendor string that was torn away becomes an empty one, to which the tag is added next time
				a.comments.as_ref().is_some_and(|c| c.vendor.is_some())
					&& !a.has_cut() && !b.has_cut() && !a.extreme() && a.positions(conf.ignore_start) == b.positions(conf.ignore_start)
			});
		if !comparable {
			ctx.count("skipped:fixed point not defined", 1);
			continue;
		}
		let r = if sc.flag("again", false) { &shared } else { &remuxer(&conf) };
		let a = ctx.remux(r, &Job::new(Arc::new(o.out.clone())));
		ctx.count("judged:fixed point", 1);
		if !ctx.viols.is_empty() {
			return;
		}
		if !a.res.is_ok() {
			ctx.fail("fixed-point", format!("run {i}: the output is refused: {}", a.res.brief()));
			return;
		}
		if a.out != o.out {
			let at = a.out.iter().zip(&o.out).position(|(a, b)| a != b).unwrap_or(a.out.len().min(o.out.len()));
			ctx.fail("fixed-point", format!("run {i}: remuxing the output again changes it at byte {at} ({} and {} bytes)", o.out.len(), a.out.len()));
			return;
		}
	}
}

// Manglers

#[derive(Clone, Debug, PartialEq, Eq)]
enum Call {
	Rate(u32, u32),
	Bitrates([i32; 3], [i32; 3]),
	/// Argument, result, packet number, last.
	Serial(u32, u32, usize, bool),
	End(u8, u8, usize, bool),
	/// Argument, result, packet number, header, last.
	Gp(i64, i64, usize, bool, bool)
}
fn end_code(e: &PacketWriteEndInfo) -> u8 {
	match e {
		PacketWriteEndInfo::NormalPacket => 0,
		PacketWriteEndInfo::EndPage => 1,
		PacketWriteEndInfo::EndStream => 2
	}
}
fn end_from(c: u8) -> PacketWriteEndInfo {
	match c {
		0 => PacketWriteEndInfo::NormalPacket,
		1 => PacketWriteEndInfo::EndPage,
		_ => PacketWriteEndInfo::EndStream
	}
}
#[derive(Default)]
struct Log {
	calls: Vec<(u64, Call)>
}
/// What a mangler changes.
#[derive(Clone, Debug, Default)]
struct Changes {
	rate: u32,
	bitrates: [i32; 3],
	serial: u32,
	gp: u64,
	/// One packet in this many ends its page (0: as it was).
	flush: u64,
	/// Page ends of the headers are taken away.
	merge: bool
}
impl Changes {
	fn from(j: &J) -> Changes {
		let b = j.get("bitrates").arr();
		let at = |i: usize| b.get(i).map_or(0, |v| v.int() as i32);
		Changes {
			rate: j.num("rate", 0, 0, u32::MAX as i64) as u32,
			bitrates: [at(0), at(1), at(2)],
			serial: j.num("serial", 0, 0, u32::MAX as i64) as u32,
			gp: j.num("gp", 0, 0, i64::MAX) as u64,
			flush: j.num("flush", 0, 0, 1 << 20) as u64,
			merge: j.flag("merge", false)
		}
	}
}
struct Mangler {
	log: Arc<Mutex<Log>>,
	ch: Changes,
	/// Calls so far; lives in the mangler itself.
	n: u64
}
impl Mangler {
	fn put(&mut self, c: Call) {
		world::yield_point(world::Y::Mangler);
		self.log.lock().unwrap().calls.push((self.n, c));
		self.n += 1;
	}
}
impl OggVorbisStreamMangler for Mangler {
	fn mangle_sampling_frequency(&mut self, f: NonZeroU32) -> NonZeroU32 {
		let r = NonZeroU32::new(f.get() ^ self.ch.rate).unwrap_or(f);
		self.put(Call::Rate(f.get(), r.get()));
		r
	}
	fn mangle_bitrates(&mut self, min: i32, nominal: i32, max: i32) -> (i32, i32, i32) {
		let a = [min, nominal, max];
		let r = [min ^ self.ch.bitrates[0], nominal ^ self.ch.bitrates[1], max ^ self.ch.bitrates[2]];
		self.put(Call::Bitrates(a, r));
		(r[0], r[1], r[2])
	}
	fn mangle_packet_stream_serial(&mut self, s: u32, n: usize, last: bool) -> u32 {
		let r = s ^ self.ch.serial;
		self.put(Call::Serial(s, r, n, last));
		r
	}
	fn mangle_packet_page_end_info(&mut self, e: PacketWriteEndInfo, n: usize, last: bool) -> PacketWriteEndInfo {
		let c = end_code(&e);
		let mut r = c;
		if self.ch.merge && n < 3 && c == 1 {
			r = 0;
		}
		if self.ch.flush > 0 && c == 0 && simcore::rng::mix(self.n ^ 77) % self.ch.flush == 0 {
			r = 1;
		}
		self.put(Call::End(c, r, n, last));
		end_from(r)
	}
	fn mangle_granule_position(&mut self, g: i64, n: usize, header: bool, last: bool) -> i64 {
		let r = if self.ch.gp == 0 { g } else { g.wrapping_add(simcore::rng::mix(self.n ^ self.ch.gp) as i64 >> 20) };
		self.put(Call::Gp(g, r, n, header, last));
		r
	}
}

pub fn gen18(r: &mut Rng) -> J {
	let mut ch = obj! {};
	if r.chance(2, 3) {
		if r.chance(1, 2) {
			ch.set("rate", r.u32());
		}
		if r.chance(1, 2) {
			ch.set("bitrates", J::Arr((0..3).map(|_| J::from(if r.chance(2, 5) { 0 } else { r.u32() as i32 })).collect()));
		}
		if r.chance(1, 2) {
			ch.set("serial", r.u32());
		}
		if r.chance(1, 2) {
			ch.set("gp", 1 + r.below(1 << 40));
		}
		if r.chance(1, 3) {
			ch.set("flush", 1 + r.below(12));
		}
		if r.chance(1, 6) {
			ch.set("merge", true);
		}
	}
	let n = 1 + r.below(4);
	let mut items: Vec<J> = (0..n).map(|_| item(r, &shape_small())).collect();
	if let Some(i) = items[0].get_mut("input") {
		super::remux::long(r, i, 2000);
	}
	let conf = conf_random(r);
	obj! {"conf" => conf.to_json(), "items" => J::Arr(items), "changes" => ch}
}

pub fn run18(sc: &J, ctx: &mut Ctx) {
	let conf = Conf::from(sc.get("conf"));
	let ch = Changes::from(sc.get("changes"));
	let identity = sc.get("changes").dump() == "{}" || ch.rate | ch.serial == 0 && ch.bitrates == [0; 3] && ch.gp == 0 && ch.flush == 0 && !ch.merge;
	let log = Arc::new(Mutex::new(Log::default()));
	let re = OggToOgg::new(settings(&conf, Mangler { log: log.clone(), ch: ch.clone(), n: 0 }), optimizer_settings(&conf));
	let mut expected_n = 0u64;
	for (i, it) in sc.get("items").arr().iter().take(12).enumerate() {
		set_log_level(it);
		let b = built(it);
		let mut job = job_from(it, &b.bytes);
		job.plan.fail_all = false;
		let before = ctx.viols.len();
		let o = ctx.remux(&re, &job);
		let f = ctx.remux(&remuxer(&conf), &job);
		let failing = ctx.viols.len() > before;
		ctx.viols.truncate(before);
		let calls = std::mem::take(&mut log.lock().unwrap().calls);
		ctx.count("judged:mangler calls", calls.len() as u64);
		// The state of the mangler goes on from one run to the next
		for (n, _) in &calls {
			if *n != expected_n {
				ctx.fail("state", format!("run {i}: the mangler was at call {n} instead of {expected_n}"));
				return;
			}
			expected_n += 1;
		}
		let calls = ordered(calls);
		if failing {
			if matches!(o.res, Res::Panic(_)) != matches!(f.res, Res::Panic(_)) {
				ctx.fail("panic", format!("run {i}: {} instead of {}", o.res.brief(), f.res.brief()));
			}
			return;
		}
		if identity {
			ctx.count("judged:identity", 1);
			if o.res != f.res || o.out != f.out {
				ctx.fail("identity", format!("run {i}: a mangler that changes nothing gives {} ({} bytes) instead of {} ({} bytes)", o.res.brief(), o.out.len(), f.res.brief(), f.out.len()));
				return;
			}
		}
		let m = model::predict(&b.bytes, &conf);
		// Pages changed in size move the operation that fails to another place
		if o.res.is_ok() != f.res.is_ok() && job.sink_faults.is_empty() && job.src_faults.is_empty() {
			ctx.fail("result", format!("run {i}: {} instead of {}", o.res.brief(), f.res.brief()));
			return;
		}
		if m.verdict == model::Verdict::MustOk && !m.nil_end {
			if let Err((class, e)) = check_calls(&m, &conf, &calls, o.res.is_ok(), &f) {
				ctx.fail(class, format!("run {i}: {e}"));
				return;
			}
		} else if let Err(e) = check_pattern(&calls) {
			ctx.fail("order", format!("run {i}: {e}"));
			return;
		}
		if o.res.is_ok() {
			if let Err(e) = check_output(&calls, &o.out) {
				ctx.fail("output", format!("run {i}: {e}"));
				return;
			}
			if m.verdict == model::Verdict::MustOk && ch.flush == 0 && !ch.merge && m.streams.len() <= 1 {
				let asp = model::Aspects { serials: false, granules: false, rates: false };
				let (vs, _) = model::judge(&m, &conf, &o.out, tags(), asp);
				if let Some(v) = vs.into_iter().find(|v| v.class != "cut-pad") {
					ctx.fail("audio", format!("run {i}: {}", v.msg));
					return;
				}
			}
		}
	}
}

/// Nothing is promised about the order of the questions about one packet, or one stream: brings
/// them into one, with the streams before the packets.
fn ordered(calls: Vec<(u64, Call)>) -> Vec<(u64, Call)> {
	let rank = |c: &(u64, Call)| match c.1 {
		Call::Rate(..) | Call::Serial(..) => 0,
		Call::Bitrates(..) | Call::End(..) => 1,
		Call::Gp(..) => 2
	};
	let (mut ids, mut packets): (Vec<_>, Vec<_>) = calls.into_iter().partition(|(_, c)| matches!(c, Call::Rate(..) | Call::Bitrates(..)));
	for (v, n) in [(&mut ids, 2), (&mut packets, 3)] {
		for group in v.chunks_exact_mut(n) {
			if (0..n).all(|i| group.iter().any(|c| rank(c) == i)) {
				group.sort_by_key(rank);
			}
		}
	}
	ids.append(&mut packets);
	ids
}

/// Per written packet: serial, page end and position, all with the same packet number.
fn check_pattern(calls: &[(u64, Call)]) -> Result<(), String> {
	let mut i = 0;
	while i < calls.len() {
		match &calls[i].1 {
			Call::Rate(..) => {
				if !matches!(calls.get(i + 1).map(|c| &c.1), Some(Call::Bitrates(..))) {
					return Err("no bitrates after the sampling frequency".into());
				}
				i += 2;
			}
			Call::Serial(_, _, n, l) => {
				let ok = matches!(calls.get(i + 1).map(|c| &c.1), Some(Call::End(_, _, n2, l2)) if n2 == n && l2 == l)
					&& matches!(calls.get(i + 2).map(|c| &c.1), Some(Call::Gp(_, _, n2, h, l2)) if n2 == n && l2 == l && *h == (*n < 3));
				if !ok {
					return Err(format!("calls of packet {n} do not belong together: {:?}", &calls[i..calls.len().min(i + 3)]));
				}
				i += 3;
			}
			c => return Err(format!("unexpected call {c:?}"))
		}
	}
	Ok(())
}

/// The calls against the model. A run that failed has made some of the expected ones.
fn check_calls(m: &Model, conf: &Conf, calls: &[(u64, Call)], complete: bool, built_in: &Outcome) -> Result<(), (&'static str, String)> {
	// Serials of the built-in mangler; known if it succeeded
	let mut serials: Vec<Option<u32>> = vec![None; m.streams.len()];
	if !conf.randomize {
		for (i, s) in serials.iter_mut().enumerate() {
			*s = Some(conf.offset.wrapping_add(i as u32));
		}
	} else if built_in.res.is_ok() {
		let pages = sogg::parse_pages(&built_in.out, false).unwrap_or_default();
		for (s, p) in serials.iter_mut().zip(pages.iter().filter(|p| p.flags & sogg::BOS != 0)) {
			*s = Some(p.serial);
		}
	}
	let split = calls.partition_point(|(_, c)| matches!(c, Call::Rate(..) | Call::Bitrates(..)));
	let (mut ids, mut it) = (calls[..split].iter().map(|c| &c.1), calls[split..].iter().map(|c| &c.1));
	let missing = || Err(("missing-call", "the mangler was not asked as often as expected".into()));
	macro_rules! next {
		($it:ident, $end:expr) => {
			match $it.next() {
				Some(c) => c,
				None if complete => return missing(),
				None => $end
			}
		};
	}
	for (si, s) in m.streams.iter().enumerate() {
		match next!(ids, break) {
			Call::Rate(a, _) if *a == s.id.rate => (),
			c => return Err(("rate", format!("stream {si}: {c:?} instead of sampling frequency {}", s.id.rate)))
		}
		let b = [s.id.bitrates[2], s.id.bitrates[1], s.id.bitrates[0]];
		match next!(ids, break) {
			Call::Bitrates(a, _) if *a == b => (),
			c => return Err(("bitrates", format!("stream {si}: {c:?} instead of bitrates {b:?}")))
		}
	}
	for (si, s) in m.streams.iter().enumerate() {
		let (want, cum) = (s.positions(conf.ignore_start), s.cumulative());
		let n = 3 + s.kept.len();
		for p in 0..n {
			let last = p + 1 == n;
			match next!(it, return Ok(())) {
				Call::Serial(a, _, k, l) if *k == p && *l == last && serials[si].is_none_or(|s| s == *a) => (),
				c => return Err(("serial", format!("stream {si}, packet {p} of {n}: {c:?} instead of serial {:?}", serials[si])))
			}
			let e = if last { 2 } else if p == 0 || p == 2 { 1 } else { 0 };
			match next!(it, return Ok(())) {
				Call::End(a, _, k, l) if *k == p && *l == last && *a == e => (),
				c => return Err(("end", format!("stream {si}, packet {p} of {n}: {c:?} instead of page end {e}")))
			}
			let header = p < 3;
			let ok = |g: i64| {
				if header {
					return g == 0;
				}
				let a = p - 3;
				// Positions before the start offset is known are not yet moved by it
				g == want[a] || s.extreme() || (s.anchor.is_none_or(|x| a < x) && g == cum[a])
			};
			match next!(it, return Ok(())) {
				Call::Gp(g, _, k, h, l) if *k == p && *l == last && *h == header && ok(*g) => (),
				c => return Err(("position", format!("stream {si}, packet {p} of {n}: {c:?} instead of position {:?}", if header { 0 } else { want[p - 3] })))
			}
		}
	}
	match ids.next().or(it.next()) {
		Some(c) => Err(("extra-call", format!("one call too many: {c:?}"))),
		None => Ok(())
	}
}

/// What the mangler returned is what was written.
fn check_output(calls: &[(u64, Call)], out: &[u8]) -> Result<(), String> {
	let pages = sogg::parse_pages(out, true)?;
	let pkts = sogg::packets(&pages)?;
	let mut it = calls.iter().map(|c| &c.1).filter(|c| !matches!(c, Call::Rate(..) | Call::Bitrates(..)));
	let mut ids = calls.iter().map(|c| &c.1).filter(|c| matches!(c, Call::Rate(..) | Call::Bitrates(..)));
	for (i, p) in pkts.iter().enumerate() {
		let (Some(Call::Serial(_, s, n, _)), Some(Call::End(_, e, ..)), Some(Call::Gp(_, g, ..))) = (it.next(), it.next(), it.next()) else {
			return Err(format!("packet {i} was written without asking"));
		};
		if p.serial != *s {
			return Err(format!("packet {i} has serial {:#x} instead of {s:#x}", p.serial));
		}
		if *e > 0 && !p.last_in_page {
			return Err(format!("packet {i} does not end its page"));
		}
		let page = &pages[p.end_page];
		if (*e == 2) != (page.flags & sogg::EOS != 0) && p.last_in_page {
			return Err(format!("packet {i}: end mark {} instead of {}", page.flags & sogg::EOS != 0, *e == 2));
		}
		if p.last_in_page && page.gp as i64 != *g {
			return Err(format!("packet {i}: position {} instead of {g}", page.gp as i64));
		}
		if *n == 0 {
			let vorbis::IdParse::Ok(id) = vorbis::parse_id(&p.data) else {
				return Err(format!("packet {i} is no identification header"));
			};
			let (Some(Call::Rate(_, r)), Some(Call::Bitrates(_, b))) = (ids.next(), ids.next()) else {
				return Err("more streams than asked for".into());
			};
			if id.rate != *r || id.bitrates != [b[2], b[1], b[0]] {
				return Err(format!("sampling frequency {} and bitrates {:?} instead of {r} and {b:?}", id.rate, id.bitrates));
			}
		}
	}
	if it.next().is_some() {
		return Err("a packet that the mangler was asked about was not written".into());
	}
	Ok(())
}

// Packet-level optimizers

pub fn gen17(r: &mut Rng) -> J {
	let n = 1 + r.below(3);
	let v: Vec<J> = (0..n)
		.map(|i| {
			let (sloppy, cut) = (r.chance(1, 4), r.chance(1, 3));
			let s = random_stream(r, &Shape { max_packets: 12, max_channels: 2, cut, sloppy, ..shape_small() }, i);
			let mut bad: Vec<J> = vec![];
			if r.chance(1, 2) {
				for _ in 0..1 + r.below(4) {
					bad.push(J::Arr(vec![J::from(r.below(18)), J::from(r.below(6)), J::from(r.below(1 << 20))]));
				}
			}
			obj! {"stream" => s, "bad" => J::Arr(bad), "owned" => r.below(1 << 16)}
		})
		.collect();
	let conf = conf_random(r);
	obj! {"opts" => J::Arr(v), "order" => r.below(1 << 32), "conf" => conf.to_json()}
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ana {
	Err(String),
	Ok(Option<u16>)
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Opt {
	Err(String),
	Dropped,
	Ok(Vec<u8>, Option<u16>)
}
/// One packet sequence on its way through an optimizer.
struct Seq<'a> {
	packets: Vec<Vec<u8>>,
	/// Packets that are not part of the stream.
	odd: Vec<bool>,
	owned: u64,
	opt: Option<VorbisOptimizer<'a>>,
	at: usize,
	ana: Vec<Ana>,
	out: Vec<Opt>,
	dead: Option<String>
}
impl<'a> Seq<'a> {
	fn done(&self) -> bool {
		self.dead.is_some() || self.at >= 2 * self.packets.len()
	}
	/// The second pass has to get the packets that the first one accepted.
	fn left_out(&self, i: usize) -> bool {
		i > 0 && matches!(self.ana[i - 1], Ana::Err(_))
	}
	fn step(&mut self, st: &'a optivorbis::VorbisOptimizerSettings) {
		let n = self.packets.len();
		let i = self.at;
		self.at += 1;
		let owned = self.owned >> (i % 16) & 1 == 1;
		let r = guarded(|| {
			if i == 0 {
				let r = if owned { VorbisOptimizer::new(st, self.packets[0].clone()) } else { VorbisOptimizer::new(st, &self.packets[0]) };
				match r {
					Ok(o) => self.opt = Some(o),
					Err(e) => self.dead = Some(e.to_string())
				}
				return;
			}
			let o = self.opt.as_mut().unwrap();
			if i < n {
				let r = if owned { o.analyze_packet(self.packets[i].clone()) } else { o.analyze_packet(&self.packets[i][..]) };
				self.ana.push(match r {
					Ok(b) => Ana::Ok(b),
					Err(e) => Ana::Err(e.to_string())
				});
				return;
			}
			let i = i - n;
			if self.left_out(i) {
				self.out.push(Opt::Dropped);
				return;
			}
			let o = self.opt.as_mut().unwrap();
			let r = if owned {
				o.optimize_packet(Cow::<[u8]>::Owned(self.packets[i].clone()))
			} else {
				o.optimize_packet(&self.packets[i][..])
			};
			self.out.push(match r {
				Ok(Some((d, b))) => Opt::Ok(d.into_owned(), b),
				Ok(None) => Opt::Dropped,
				Err(e) => Opt::Err(e.to_string())
			});
		});
		if let Err(p) = r {
			self.dead = Some(format!("panic: {p}"));
		}
	}
}

fn seq_from<'a>(j: &J) -> Seq<'a> {
	let parts = stream_parts(j.get("stream"));
	let mut packets: Vec<Vec<u8>> = parts.headers.to_vec();
	packets.extend(parts.audio.into_iter().map(|a| a.0));
	let mut odd = vec![false; packets.len()];
	for b in j.get("bad").arr().iter().take(20) {
		let a = b.arr();
		if a.len() < 3 {
			continue;
		}
		let at = 1 + (a[0].u64() as usize) % packets.len();
		let mut r = Rng::new(a[2].u64());
		let d = match a[1].int() {
			// An audio packet of the wrong type
			0 => vec![1 | r.u32() as u8, r.u32() as u8],
			// Noise, with and without the audio mark
			1 => {
				let n = r.skewed(60) as usize;
				r.bytes(n)
			}
			2 => {
				let n = 1 + r.skewed(60) as usize;
				let mut v = r.bytes(n);
				v[0] &= !1;
				v
			}
			// A header once more, or cut short
			3 => packets[r.below(packets.len().min(3) as u64) as usize].clone(),
			4 => {
				let p = &packets[r.below(packets.len() as u64) as usize];
				p[..r.below(p.len() as u64 + 1) as usize].to_vec()
			}
			// A damaged packet
			_ => {
				let mut p = packets[r.below(packets.len() as u64) as usize].clone();
				if !p.is_empty() {
					let i = r.below(p.len() as u64) as usize;
					p[i] ^= 1 << r.below(8);
				}
				p
			}
		};
		// The sequence of real packets stays as it is
		let at = at.min(packets.len());
		packets.insert(at, d);
		odd.insert(at, true);
	}
	Seq {
		packets,
		odd,
		owned: j.num("owned", 0, 0, 1 << 16) as u64,
		opt: None,
		at: 0,
		ana: vec![],
		out: vec![],
		dead: None
	}
}

/// Puts packets into a minimal file.
fn file_of(packets: &[&[u8]]) -> Vec<u8> {
	let mut p = sogg::Paginator::new(1, 0, 255);
	for (i, d) in packets.iter().enumerate() {
		p.packet(d, 0, i == 0 || i == 2);
	}
	p.finish(true).iter().flat_map(|p| p.encode()).collect()
}

pub fn run17(sc: &J, ctx: &mut Ctx) {
	let conf = Conf::from(sc.get("conf"));
	let st = optimizer_settings(&conf);
	let list = || -> Vec<Seq> { sc.get("opts").arr().iter().take(6).map(seq_from).collect() };
	let mut seqs = list();
	let mut r = Rng::new(sc.num("order", 0, 0, i64::MAX) as u64);
	let mut order = Hash64::default();
	loop {
		let live: Vec<usize> = (0..seqs.len()).filter(|i| !seqs[*i].done()).collect();
		if live.is_empty() {
			break;
		}
		let i = *r.pick(&live);
		order.u64(i as u64);
		for _ in 0..1 + r.below(4) {
			if !seqs[i].done() {
				seqs[i].step(&st);
				ctx.st.ops += 1;
			}
		}
	}
	ctx.st.runs += 1;
	// Alone, with borrowed data
	let mut solo = list();
	for s in &mut solo {
		s.owned = 0;
		while !s.done() {
			s.step(&st);
			ctx.st.ops += 1;
		}
	}
	for (k, (a, b)) in seqs.iter().zip(&solo).enumerate() {
		for o in &a.out {
			if let Opt::Ok(d, _) = o {
				order.bytes(d);
			}
		}
		if a.dead != b.dead || a.ana != b.ana || a.out != b.out {
			ctx.fail("interference", format!("optimizer {k} gives something else when it is used on its own"));
			return;
		}
		if let Some(d) = &a.dead {
			if d.starts_with("panic") {
				ctx.fail("panic", format!("optimizer {k}, step {}: {d}", a.at));
				return;
			}
			continue;
		}
		ctx.count("judged:packets", a.packets.len() as u64);
		ctx.count("fault:packet rejected by the analysis", a.ana.iter().filter(|a| matches!(a, Ana::Err(_))).count() as u64);
		// The two passes agree
		let n = a.packets.len();
		let mut accepted = 1;
		let mut plain = true;
		let (mut before, mut after): (Vec<&[u8]>, Vec<&[u8]>) = (vec![], vec![]);
		for i in 0..n {
			let out = &a.out[i];
			if i == 0 {
				match out {
					Opt::Ok(d, None) => {
						before.push(&a.packets[0]);
						after.push(d);
					}
					o => {
						ctx.fail("passes", format!("optimizer {k}: identification header gives {o:?}"));
						return;
					}
				}
				continue;
			}
			let ana = &a.ana[i - 1];
			if a.left_out(i) {
				continue;
			}
			let same = match (ana, out) {
				(Ana::Ok(None), Opt::Dropped) => accepted >= 3,
				(Ana::Ok(x), Opt::Ok(_, y)) => x == y && (accepted < 3 || x.is_some()),
				_ => false
			};
			if !same {
				ctx.fail("passes", format!("optimizer {k}, packet {i}: {ana:?} in the first pass, {} in the second", match out {
					Opt::Ok(d, b) => format!("{} bytes and {b:?}", d.len()),
					o => format!("{o:?}")
				}));
				return;
			}
			if let Ana::Ok(_) = ana {
				accepted += 1;
				plain &= !a.odd[i] || accepted > 3;
				before.push(&a.packets[i]);
				if let Opt::Ok(d, _) = out {
					after.push(d);
				}
			}
		}
		// A rejected packet that was not left out may have used up part of a state
		let m = model::predict(&file_of(&before), &conf);
		if m.verdict != model::Verdict::MustOk || !plain || accepted < 3 {
			ctx.count("skipped:no reference for this sequence", 1);
			continue;
		}
		let asp = model::Aspects { serials: false, granules: false, rates: true };
		let (vs, rep) = model::judge(&m, &conf, &file_of(&after), tags(), asp);
		ctx.count("judged:values", rep.symbols as u64);
		let rejected = a.ana.iter().any(|a| matches!(a, Ana::Err(_)));
		let mut h = Hash64::default();
		m.streams[0].shape_hash(&mut h);
		ctx.shape(h.0);
		// What a rejected packet had already used is still counted
		let ok = |v: &Viol| v.class == "cut-pad" || (rejected && v.prop == "C19");
		if let Some(v) = vs.into_iter().find(|v| !ok(v)) {
			ctx.fail("decode", format!("optimizer {k}: {}", v.msg));
			return;
		}
		// The real packets of a valid stream are accepted however many others are in between
		for i in 1..n {
			if let (Ana::Err(e), false) = (&a.ana[i - 1], a.odd[i]) {
				ctx.count("skipped:a packet of the stream was rejected", 1);
				let _ = e;
			}
		}
	}
	ctx.state(order.0);
	ctx.st.digest.u64(order.0);
}
