//! Runs one remux of the real library inside the simulated world and records what happened.

use crate::{
	io::{EndStats, Fault, Flow, Sink, SimFault, Src, reset_failed},
	world
};
use optivorbis::{
	OPTIVORBIS_SHORT_VERSION_TAG, OPTIVORBIS_VERSION_TAG, OggToOgg, Remuxer, VorbisCommentFieldsAction,
	VorbisOptimizerError, VorbisOptimizerSettings, VorbisVendorStringAction,
	remuxer::ogg_to_ogg::{OggVorbisStreamMangler, OggVorbisStreamPassthroughMangler, RemuxError, Settings}
};
use simcore::{
	json::J,
	model::{Conf, Viol},
	rng::{Hash64, hash_bytes}
};
use std::{
	cell::RefCell,
	collections::{BTreeMap, HashSet},
	error::Error,
	io,
	panic::{AssertUnwindSafe, catch_unwind},
	sync::Arc
};

pub fn tags() -> (&'static str, &'static str) {
	(OPTIVORBIS_VERSION_TAG, OPTIVORBIS_SHORT_VERSION_TAG)
}

pub type PlainRemuxer = OggToOgg<OggVorbisStreamPassthroughMangler>;

pub fn settings<M: OggVorbisStreamMangler>(c: &Conf, m: M) -> Settings<M> {
	Settings {
		randomize_stream_serials: c.randomize,
		first_stream_serial_offset: c.offset,
		ignore_start_sample_offset: c.ignore_start,
		error_on_no_vorbis_streams: c.error_on_none,
		verify_ogg_page_checksums: c.verify,
		vorbis_stream_mangler: m
	}
}
pub fn optimizer_settings(c: &Conf) -> VorbisOptimizerSettings {
	let mut o = VorbisOptimizerSettings::default();
	o.vendor_string_action = match c.vendor {
		0 => VorbisVendorStringAction::Copy,
		1 => VorbisVendorStringAction::Replace,
		2 => VorbisVendorStringAction::AppendTag,
		3 => VorbisVendorStringAction::AppendShortTag,
		_ => VorbisVendorStringAction::Empty
	};
	o.comment_fields_action =
		if c.comments == 0 { VorbisCommentFieldsAction::Copy } else { VorbisCommentFieldsAction::Delete };
	o
}
pub fn remuxer(c: &Conf) -> PlainRemuxer {
	OggToOgg::new(settings(c, OggVorbisStreamPassthroughMangler), optimizer_settings(c))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ErrInfo {
	/// ogg, ogg-io, optimizer, optimizer-io, multiplex, no-vorbis, epoch, io, unknown
	pub kind: &'static str,
	pub text: String,
	/// The injected failure found in the error.
	pub fault: Option<u64>
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
	Ok,
	Err(ErrInfo),
	Panic(String)
}
impl Res {
	pub fn is_ok(&self) -> bool {
		*self == Res::Ok
	}
	pub fn brief(&self) -> String {
		match self {
			Res::Ok => "success".into(),
			Res::Err(e) => format!("{} error: {}", e.kind, e.text),
			Res::Panic(m) => format!("panic: {m}")
		}
	}
	/// Comparable part of the result.
	pub fn class(&self) -> String {
		match self {
			Res::Ok => "ok".into(),
			Res::Err(e) => format!("{}:{}", e.kind, e.text),
			Res::Panic(m) => format!("panic:{m}")
		}
	}
}

fn fault_in(e: &io::Error) -> Option<u64> {
	e.get_ref().and_then(|i| i.downcast_ref::<SimFault>()).map(|f| f.0)
}
pub fn classify(e: &RemuxError) -> ErrInfo {
	#[allow(unreachable_patterns)]
	let (kind, mut fault) = match e {
		RemuxError::OggError(ogg::OggReadError::ReadError(i)) => ("ogg-io", fault_in(i)),
		RemuxError::OggError(_) => ("ogg", None),
		RemuxError::OptimizerError(VorbisOptimizerError::Io(i)) => ("optimizer-io", fault_in(i)),
		RemuxError::OptimizerError(_) => ("optimizer", None),
		RemuxError::UnsupportedStreamMultiplexing => ("multiplex", None),
		RemuxError::NoVorbisStreamFound => ("no-vorbis", None),
		RemuxError::InvalidSourceDateEpoch => ("epoch", None),
		RemuxError::IoError(i) => ("io", fault_in(i)),
		_ => ("unknown", None)
	};
	let mut cur: Option<&dyn Error> = Some(e);
	while let Some(c) = cur {
		if fault.is_none() {
			fault = c
				.downcast_ref::<io::Error>()
				.and_then(fault_in)
				.or_else(|| c.downcast_ref::<SimFault>().map(|f| f.0))
				.or_else(|| {
					let t = c.to_string();
					let p = t.find("simulated failure #")?;
					t[p + 19..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
				});
		}
		cur = c.source();
	}
	ErrInfo { kind, text: e.to_string(), fault }
}

thread_local! {
	static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|i| {
		let m = i
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| i.payload().downcast_ref::<String>().cloned())
			.unwrap_or_default();
		let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let text = format!("{m} at {l}");
		let _ = PANIC.try_with(|p| {
			if let Ok(mut p) = p.try_borrow_mut() {
				*p = text.clone();
			}
		});
		if std::env::var_os("SIM_DEBUG").is_some() {
			eprintln!("panic: {text}");
		}
	}));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

#[derive(Clone)]
pub struct Job {
	pub data: Arc<Vec<u8>>,
	pub base: u64,
	/// How far into the source all of the data is.
	pub far: u64,
	pub src: Flow,
	pub src_faults: Vec<Fault>,
	pub sink: Flow,
	pub sink_faults: Vec<Fault>,
	pub plan: world::Plan,
	pub second: Option<Arc<Vec<u8>>>,
	pub switch_at: Option<u64>
}
impl Job {
	pub fn new(data: Arc<Vec<u8>>) -> Job {
		Job {
			data,
			base: 0,
			far: 0,
			src: Flow::ALL,
			src_faults: vec![],
			sink: Flow::ALL,
			sink_faults: vec![],
			plan: world::Plan { seed: 1, clock: 1_700_000_000_000_000_000, ..Default::default() },
			second: None,
			switch_at: None
		}
	}
}

#[derive(Clone, Debug)]
pub struct Outcome {
	pub res: Res,
	pub out: Vec<u8>,
	pub src: EndStats,
	pub sink: EndStats,
	pub used: world::Used,
	/// Source operations issued before the rewind.
	pub first_ops: u64,
	pub rewound: u64
}
impl Outcome {
	pub fn over_budget(&self) -> bool {
		self.src.over_budget || self.sink.over_budget
	}
}

pub fn remux_with<M: OggVorbisStreamMangler>(r: &OggToOgg<M>, job: &Job) -> Outcome {
	remux_bounded(r, job, None)
}
pub fn remux_bounded<M: OggVorbisStreamMangler>(r: &OggToOgg<M>, job: &Job, boundary: Option<crate::io::Boundary>) -> Outcome {
	remux_hooked(r, job, boundary, None)
}
pub fn remux_hooked<M: OggVorbisStreamMangler>(r: &OggToOgg<M>, job: &Job, boundary: Option<crate::io::Boundary>, hook: Option<(u64, Box<dyn FnOnce()>)>) -> Outcome {
	simulated(job, boundary, hook, |src, sink| r.remux(src, sink).map(|_| ()).map_err(|e| classify(&e)))
}
/// The same with the library as built without its default features. Its errors are only text here.
pub fn remux_plain(c: &Conf, job: &Job, hook: Option<(u64, Box<dyn FnOnce()>)>) -> Outcome {
	use optivorbis_plain as lib;
	use lib::Remuxer as _;
	let mut o = lib::VorbisOptimizerSettings::default();
	o.vendor_string_action = match c.vendor {
		0 => lib::VorbisVendorStringAction::Copy,
		1 => lib::VorbisVendorStringAction::Replace,
		2 => lib::VorbisVendorStringAction::AppendTag,
		3 => lib::VorbisVendorStringAction::AppendShortTag,
		_ => lib::VorbisVendorStringAction::Empty
	};
	o.comment_fields_action = if c.comments == 0 { lib::VorbisCommentFieldsAction::Copy } else { lib::VorbisCommentFieldsAction::Delete };
	let settings = lib::remuxer::ogg_to_ogg::Settings {
		randomize_stream_serials: c.randomize,
		first_stream_serial_offset: c.offset,
		ignore_start_sample_offset: c.ignore_start,
		error_on_no_vorbis_streams: c.error_on_none,
		verify_ogg_page_checksums: c.verify,
		vorbis_stream_mangler: lib::remuxer::ogg_to_ogg::OggVorbisStreamPassthroughMangler
	};
	let r = lib::OggToOgg::new(settings, o);
	simulated(job, None, hook, |src, sink| {
		r.remux(src, sink).map(|_| ()).map_err(|e| ErrInfo { kind: "plain", text: e.to_string(), fault: None })
	})
}
fn simulated(job: &Job, boundary: Option<crate::io::Boundary>, hook: Option<(u64, Box<dyn FnOnce()>)>, f: impl FnOnce(&mut Src, &mut Sink) -> Result<(), ErrInfo>) -> Outcome {
	reset_failed();
	let mut src = Src::new(job.data.clone(), job.base, job.src, job.src_faults.clone());
	src.boundary = boundary;
	src.far = job.far;
	src.pos += job.far;
	src.second = job.second.clone();
	src.switch_at = job.switch_at;
	let more = job.second.as_ref().map_or(0, |s| s.len());
	// The output is about as large as the input; every page takes a handful of writes
	src.budget += more as u64 * 24;
	let mut sink = Sink::new(job.sink, job.sink_faults.clone(), src.budget * 4 + 70_000);
	sink.hook = hook;
	world::enter(job.plan.clone());
	let res = guarded(|| f(&mut src, &mut sink));
	let used = world::leave();
	let res = match res {
		Ok(Ok(())) => Res::Ok,
		Ok(Err(e)) => Res::Err(e),
		Err(p) => Res::Panic(p)
	};
	Outcome {
		res,
		out: std::mem::take(&mut sink.out),
		first_ops: src.reads_before_rewind,
		rewound: src.rewound,
		src: src.st.clone(),
		sink: sink.st.clone(),
		used
	}
}

/// What a batch of simulated runs accumulates.
#[derive(Default)]
pub struct Stats {
	pub runs: u64,
	pub counters: BTreeMap<String, u64>,
	/// Hashes of the runs that did something.
	pub states: HashSet<u64>,
	/// Hashes of the structure of the streams judged.
	pub shapes: HashSet<u64>,
	pub ops: u64,
	/// Simulated time that passed on the simulated clocks.
	pub sim_ns: i128,
	pub digest: Hash64
}
pub struct Ctx {
	pub prop: &'static str,
	pub viols: Vec<Viol>,
	pub st: Stats
}
impl Ctx {
	pub fn new(prop: &'static str) -> Ctx {
		Ctx { prop, viols: vec![], st: Stats::default() }
	}
	pub fn count(&mut self, k: &str, n: u64) {
		if n > 0 {
			if let Some(c) = self.st.counters.get_mut(k) {
				*c += n;
			} else {
				self.st.counters.insert(k.to_string(), n);
			}
		}
	}
	pub fn state(&mut self, h: u64) {
		if self.st.states.len() < 4_000_000 {
			self.st.states.insert(h);
		}
	}
	pub fn shape(&mut self, h: u64) {
		if self.st.shapes.len() < 4_000_000 {
			self.st.shapes.insert(h);
		}
	}
	/// Reports a violation of the property under check, whatever it was attributed to.
	pub fn fail(&mut self, class: impl Into<String>, msg: impl Into<String>) {
		let v = Viol { prop: self.prop, class: class.into(), msg: msg.into() };
		self.viols.push(v);
	}
	pub fn account(&mut self, o: &Outcome) {
		self.st.runs += 1;
		self.st.ops += o.src.ops + o.sink.ops;
		let d = &mut self.st.digest;
		d.bytes(o.res.class().as_bytes());
		d.u64(o.src.log.0);
		d.u64(o.sink.log.0);
		if o.used.entropy_failed == 0 {
			d.bytes(&o.out);
			d.u64(o.used.log.0);
		} else {
			// The generator that then provides the serials is shared by the whole process
			d.u64(o.out.len() as u64);
		}
		let mut s = Hash64::default();
		s.u64(o.src.log.0);
		s.u64(o.sink.log.0);
		s.u64(hash_bytes(&o.out));
		if o.src.ops > 3 {
			self.state(s.0);
		}
		self.st.sim_ns += o.used.sim_ns;
		self.count("fault:short read", o.src.short);
		self.count("fault:short write", o.sink.short);
		self.count("fault:interrupted read", o.src.interrupted);
		self.count("fault:interrupted write", o.sink.interrupted);
		self.count("fault:entropy failure", o.used.entropy_failed);
		self.count("fault:clock step", o.used.clock_reads);
		for (side, st) in [("source", &o.src), ("sink", &o.sink)] {
			if let Some((_, k)) = st.failed {
				let name = match k {
					crate::io::NO_PROGRESS => "no progress",
					k => crate::io::kind(k).0
				};
				self.count(&format!("fault:{side} {name}"), 1);
			}
		}
		match &o.res {
			Res::Ok => self.count("result:ok", 1),
			Res::Err(e) => self.count(&format!("result:{}", e.kind), 1),
			Res::Panic(_) => self.count("result:panic", 1)
		}
	}
	pub fn remux<M: OggVorbisStreamMangler>(&mut self, r: &OggToOgg<M>, job: &Job) -> Outcome {
		let o = remux_with(r, job);
		self.account(&o);
		if let Res::Panic(m) = &o.res {
			self.fail("panic", m.clone());
		} else if o.over_budget() {
			self.fail("budget", format!("{} source and {} sink operations for {} bytes", o.src.ops, o.sink.ops, job.data.len()));
		}
		o
	}
}

pub fn plan_from(j: &J) -> world::Plan {
	world::Plan {
		seed: j.num("seed", 1, 0, i64::MAX) as u64,
		fail_all: j.flag("fail_all", false),
		fail: j.get("fail").arr().iter().map(|v| v.u64()).collect(),
		clock: j.num("clock", 1_700_000_000_000_000_000, i64::MIN, i64::MAX) as i128,
		step: j.num("step", 1000, i64::MIN / 4, i64::MAX / 4)
	}
}
