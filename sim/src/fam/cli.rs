//! The real command-line program, as a process whose system calls are answered by a preloaded
//! shim according to the scenario.

use super::*;
use simcore::input::*;
use std::{
	ffi::OsString,
	fs,
	io::Write as _,
	os::unix::{ffi::OsStringExt, process::ExitStatusExt},
	path::{Path, PathBuf},
	process::{Command, Stdio},
	sync::OnceLock
};

pub const OPS: [&str; 11] =
	["open input", "read", "seek", "open output", "write", "standard output", "standard error", "entropy", "clock", "foreign", "sync"];
mod op {
	pub const OPEN_IN: u32 = 0;
	pub const READ: u32 = 1;
	pub const SEEK: u32 = 2;
	pub const OPEN_OUT: u32 = 3;
	pub const WRITE: u32 = 4;
	pub const STDOUT: u32 = 5;
	pub const STDERR: u32 = 6;
	pub const ENTROPY: u32 = 7;
	pub const FOREIGN: u32 = 9;
}
mod kind {
	pub const ERRNO: u32 = 0;
	pub const SHORT: u32 = 1;
	pub const NONE: u32 = 2;
	pub const CRASH: u32 = 3;
	pub const TORN: u32 = 4;
}
const F_WRITES: u32 = 2;
const EINTR: u32 = 4;
/// Errors that an operation may meet, by operation.
fn errnos(o: u32) -> &'static [u32] {
	match o {
		op::OPEN_IN => &[EINTR, 1, 2, 5, 12, 13, 20, 23, 24, 40, 116],
		op::READ => &[EINTR, 5, 11, 21, 22, 110, 116],
		op::SEEK => &[5, 22, 29, 116],
		op::OPEN_OUT => &[EINTR, 1, 2, 5, 13, 17, 20, 21, 23, 24, 26, 28, 30, 122],
		op::WRITE => &[EINTR, 5, 11, 22, 27, 28, 30, 116, 122],
		op::STDOUT => &[EINTR, 5, 11, 28, 32],
		_ => &[EINTR, 5, 28, 32]
	}
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SysFault {
	pub op: u32,
	pub nth: u32,
	pub kind: u32,
	pub arg: u32
}

/// What the program is run with.
#[derive(Clone, Debug)]
pub struct Call {
	pub args: Vec<OsString>,
	pub faults: Vec<SysFault>,
	pub capacity: u64,
	pub seed: u64,
	pub clock: i64,
	pub step: i64,
	pub entropy_fails: bool,
	pub read_max: u32,
	pub write_max: u32,
	pub epoch: Option<Vec<u8>>,
	pub input: String,
	pub output: String
}
#[derive(Clone, Debug)]
pub struct Rec {
	pub op: u32,
	pub flags: u32,
	pub res: i64,
	pub size: u64
}
#[derive(Clone, Debug)]
pub struct Exec {
	pub code: Option<i32>,
	pub signal: Option<i32>,
	pub stdout: Vec<u8>,
	pub stderr: Vec<u8>,
	pub recs: Vec<Rec>,
	pub counts: [u64; 16],
	pub fired: u32,
	pub over: bool,
	pub clock_moved: u64
}
impl Exec {
	fn how(&self) -> String {
		match (self.code, self.signal) {
			(Some(c), _) => format!("exit status {c}, message {:?}", String::from_utf8_lossy(&self.stderr).trim().chars().take(200).collect::<String>()),
			(_, s) => format!("signal {s:?}")
		}
	}
	/// A digest of everything that is observable.
	fn hash(&self) -> Hash64 {
		let mut h = Hash64::default();
		h.u64(self.code.unwrap_or(-1) as u64);
		h.u64(self.signal.unwrap_or(0) as u64);
		for r in &self.recs {
			h.u64((r.op as u64) << 56 ^ (r.res as u64) << 8 ^ r.size);
		}
		h
	}
}

/// Where the program runs: a directory of its own for each process of the simulator.
pub struct Place {
	pub dir: PathBuf,
	ctl: PathBuf,
	exe: PathBuf,
	shim: PathBuf
}
const CTL_SIZE: usize = 2008 + 4096 * 24;
static PLACE: OnceLock<Result<Place, String>> = OnceLock::new();

pub fn scratch_root() -> PathBuf {
	std::env::var_os("SIM_SCRATCH").map_or_else(|| crate::drive::root().join("target/scratch"), Into::into)
}
pub fn place() -> &'static Place {
	let p = PLACE.get_or_init(|| {
		let root = scratch_root();
		let dir = root.join(format!("w{}", std::process::id()));
		fs::create_dir_all(&dir).map_err(|e| format!("{}: {e}", dir.display()))?;
		let dir = fs::canonicalize(&dir).map_err(|e| e.to_string())?;
		let ctl = root.join(format!("ctl{}", std::process::id()));
		let exe = crate::drive::root().join("target/cli/debug/optivorbis");
		let shim = crate::drive::root().join("target/shim.so");
		for f in [&exe, &shim] {
			if !f.is_file() {
				return Err(format!("{} is missing", f.display()));
			}
		}
		fs::write(&ctl, vec![0; CTL_SIZE]).map_err(|e| e.to_string())?;
		let p = Place { dir, ctl, exe, shim };
		// Both builds must agree on what they call themselves
		let e = p.run(&Call::new(vec!["--version".into()]))?;
		if !e.stdout.starts_with(tags().0.as_bytes()) {
			return Err(format!("the program calls itself {:?}", String::from_utf8_lossy(&e.stdout)));
		}
		Ok(p)
	});
	match p {
		Ok(p) => p,
		Err(e) => panic!("cannot run the program: {e}")
	}
}
/// Removes what this process left behind.
pub fn cleanup() {
	if let Some(Ok(p)) = PLACE.get() {
		let _ = fs::remove_dir_all(&p.dir);
		let _ = fs::remove_file(&p.ctl);
	}
}

impl Call {
	pub fn new(args: Vec<OsString>) -> Call {
		Call {
			args,
			faults: vec![],
			capacity: u64::MAX,
			seed: 1,
			clock: 1_700_000_000_000_000_000,
			step: 1000,
			entropy_fails: false,
			read_max: 0,
			write_max: 0,
			epoch: None,
			input: "in.ogg".into(),
			output: "out.ogg".into()
		}
	}
}
impl Place {
	pub fn run(&self, c: &Call) -> Result<Exec, String> {
		let err = |e: std::io::Error| e.to_string();
		let mut b = vec![0u8; 2008];
		let mut put = |at: usize, v: &[u8]| b[at..at + v.len()].copy_from_slice(v);
		put(0, &0x51AB1Eu32.to_le_bytes());
		put(4, &(c.faults.len().min(16) as u32).to_le_bytes());
		for (i, f) in c.faults.iter().take(16).enumerate() {
			for (k, v) in [f.op, f.nth, f.kind, f.arg].into_iter().enumerate() {
				put(8 + i * 16 + k * 4, &v.to_le_bytes());
			}
		}
		put(264, &c.capacity.to_le_bytes());
		put(272, &c.seed.to_le_bytes());
		put(280, &c.clock.to_le_bytes());
		put(288, &c.step.to_le_bytes());
		put(296, &(c.entropy_fails as u32).to_le_bytes());
		put(300, &c.read_max.to_le_bytes());
		put(304, &c.write_max.to_le_bytes());
		put(308, &400_000u32.to_le_bytes());
		put(312, c.input.as_bytes());
		put(824, c.output.as_bytes());
		let d = self.dir.to_str().unwrap().as_bytes();
		put(1336, d);
		{
			let mut f = fs::OpenOptions::new().write(true).open(&self.ctl).map_err(err)?;
			f.write_all(&b).map_err(err)?;
		}
		let (so, se) = (self.ctl.with_extension("out"), self.ctl.with_extension("err"));
		let mut cmd = Command::new(&self.exe);
		cmd.args(&c.args)
			.current_dir(&self.dir)
			.env_clear()
			.env("LD_PRELOAD", &self.shim)
			.env("CLISIM_CTL", &self.ctl)
			.stdin(Stdio::null())
			.stdout(fs::File::create(&so).map_err(err)?)
			.stderr(fs::File::create(&se).map_err(err)?);
		if let Some(e) = &c.epoch {
			cmd.env("SOURCE_DATE_EPOCH", OsString::from_vec(e.iter().copied().filter(|b| *b != 0).collect()));
		}
		let st = cmd.status().map_err(err)?;
		let r = fs::read(&self.ctl).map_err(err)?;
		let (stdout, stderr) = (fs::read(&so).map_err(err)?, fs::read(&se).map_err(err)?);
		let _ = fs::remove_file(&so);
		let _ = fs::remove_file(&se);
		let u32_at = |at: usize| u32::from_le_bytes(r[at..at + 4].try_into().unwrap());
		let u64_at = |at: usize| u64::from_le_bytes(r[at..at + 8].try_into().unwrap());
		if u32_at(1848) != 1 || st.code() == Some(97) {
			return Err("the shim did not start".into());
		}
		let n = (u32_at(1852) as usize).min(4096);
		let recs = (0..n)
			.map(|i| {
				let at = 2008 + i * 24;
				Rec { op: u32_at(at), flags: u32_at(at + 4), res: u64_at(at + 8) as i64, size: u64_at(at + 16) }
			})
			.collect();
		Ok(Exec {
			code: st.code(),
			signal: st.signal(),
			stdout,
			stderr,
			recs,
			counts: std::array::from_fn(|i| u64_at(1872 + i * 8)),
			fired: u32_at(1856),
			over: u32_at(1860) != 0,
			clock_moved: u64_at(2000)
		})
	}
}

/// Output bytes with serials replaced by stream numbers and checksums checked and left out.
pub fn canonical(out: &[u8]) -> Option<(Vec<u8>, Vec<u32>)> {
	let mut serials: Vec<u32> = vec![];
	let mut v = Vec::with_capacity(out.len());
	for p in ogg::parse_pages(out, true).ok()? {
		let at = serials.iter().position(|s| *s == p.serial).unwrap_or_else(|| {
			serials.push(p.serial);
			serials.len() - 1
		});
		v.extend((at as u32).to_le_bytes());
		v.push(p.flags);
		v.extend(p.gp.to_le_bytes());
		v.extend(p.seq.to_le_bytes());
		v.push(p.segs.len() as u8);
		v.extend(&p.segs);
		v.extend(&p.body);
	}
	Some((v, serials))
}

// Command lines

const NAMES: [&str; 10] =
	["out.ogg", "out.oga", "out.ogx", "-", "out.bin", "missing/out.ogg", "dir.ogg", "OUT.OGG", "out", "sub/result.ogg"];
const BAD: [&[&str]; 22] = [
	&["--remuxer_option", "foo=1"],
	&["--remuxer_option", "randomize_stream_serials"],
	&["--remuxer_option", "randomize_stream_serials=maybe"],
	&["--remuxer_option", "first_stream_serial_offset=-1"],
	&["--remuxer_option=first_stream_serial_offset=4294967296"],
	&["--vendor_string_action", "nope"],
	&["--comment_fields_action=nope"],
	&["-r", "webm"],
	&["--nope"],
	&["-x"],
	&["--vendor_string_action=Copy"],
	&["--remuxer_option", "verify_ogg_page_checksums=TRUE"],
	&["--remuxer_option", " randomize_stream_serials=true"],
	&["--remuxer_option", "ignore_start_sample_offset="],
	&["--quiet=1"],
	&["--remuxer_option", "error_on_no_vorbis_streams=0"],
	&["--remuxer_option", ""],
	&["--comment_fields_action", ""],
	&["--remuxer="],
	&["--vendor_string_action", "append_tag"],
	&["--remuxer_option", "first_stream_serial_offset=0x10"],
	&["\u{1}invalid"]
];
const RO: [&str; 5] = [
	"randomize_stream_serials",
	"first_stream_serial_offset",
	"ignore_start_sample_offset",
	"error_on_no_vorbis_streams",
	"verify_ogg_page_checksums"
];
const VENDOR: [&str; 5] = ["copy", "replace", "appendTag", "appendShortTag", "empty"];
const COMMENTS: [&str; 2] = ["copy", "delete"];

/// Options are pairs of a kind and a value: 0 quiet, 1 verbose, 2 remuxer, 3 vendor string,
/// 4 comments, 10.. remuxer options, 50 mistakes; the third number selects how it is written.
fn options(r: &mut Rng, out: u64, quiet: (u64, u64)) -> J {
	let mut v: Vec<(u64, u64)> = vec![];
	if r.chance(quiet.0, quiet.1) {
		v.push((0, 0));
	}
	if r.chance(1, 4) {
		v.push((1, r.below(3)));
	}
	if !matches!(out, 0..=2 | 5 | 6 | 9) || r.chance(1, 4) {
		v.push((2, 0));
	}
	if r.chance(1, 3) {
		v.push((3, r.below(5)));
	}
	if r.chance(1, 3) {
		v.push((4, r.below(2)));
	}
	let usual = r.chance(1, 3);
	for i in 0..5 {
		if r.chance(1, if usual { 6 } else { 2 }) {
			v.push((10 + i, if i == 1 { if r.chance(1, 2) { r.below(3) } else { r.u32() as u64 } } else { r.below(2) }));
		}
	}
	r.shuffle(&mut v);
	J::Arr(v.into_iter().map(|(k, x)| J::Arr(vec![J::from(k), J::from(x), J::from(r.below(4))])).collect())
}

struct Line {
	args: Vec<OsString>,
	conf: Conf,
	quiet: bool,
	/// Why it must be refused.
	wrong: Option<&'static str>,
	/// -h or --version
	info: bool,
	output: String
}
fn line(sc: &J) -> Line {
	let mut args: Vec<Vec<u8>> = vec![];
	let mut conf = Conf::default();
	let (mut quiet, mut remuxer, mut wrong, mut info) = (false, false, None, false);
	let mut seen: Vec<u64> = vec![];
	for o in sc.get("opts").arr().iter().take(40) {
		let at = |i: usize| o.arr().get(i).map_or(0, |v| v.int().clamp(0, u32::MAX as i128) as u64);
		let (k, v, form) = (at(0), at(1), at(2));
		let mut both = |short: &str, long: &str, value: &str| {
			let strs: Vec<String> = match form {
				0 => vec![format!("--{long}"), value.into()],
				1 if !short.is_empty() => vec![format!("-{short}{value}")],
				2 if !short.is_empty() => vec![format!("-{short}"), value.into()],
				_ => vec![format!("--{long}={value}")]
			};
			args.extend(strs.into_iter().map(String::into_bytes));
		};
		if k != 1 && k < 50 && seen.contains(&k) {
			continue;
		}
		seen.push(k);
		match k {
			0 => {
				quiet = true;
				args.push(if form & 1 == 0 { "-q" } else { "--quiet" }.into());
			}
			1 => args.push(["-v", "-vv", "--verbose"][v as usize % 3].into()),
			2 => {
				remuxer = true;
				both("r", "remuxer", "ogg2ogg");
			}
			3 => {
				conf.vendor = (v % 5) as u8;
				both("", "vendor_string_action", VENDOR[v as usize % 5]);
			}
			4 => {
				conf.comments = (v % 2) as u8;
				both("", "comment_fields_action", COMMENTS[v as usize % 2]);
			}
			10..=14 => {
				let on = v & 1 != 0;
				let text = match k {
					10 => {
						conf.randomize = on;
						on.to_string()
					}
					11 => {
						conf.offset = v as u32;
						v.to_string()
					}
					12 => {
						conf.ignore_start = on;
						on.to_string()
					}
					13 => {
						conf.error_on_none = on;
						on.to_string()
					}
					_ => {
						conf.verify = on;
						on.to_string()
					}
				};
				both("", "remuxer_option", &format!("{}={text}", RO[k as usize - 10]));
			}
			51 => {
				info = true;
				args.push(if v & 1 == 0 { "-h".into() } else if v & 2 == 0 { "--help".into() } else { "--version".into() });
			}
			_ => {
				let bad = BAD[v as usize % BAD.len()];
				if (0..5).any(|i| seen.contains(&(10 + i)) && bad.iter().any(|a| a.contains(RO[i as usize]))) {
					// The first of several values counts
					continue;
				}
				wrong = Some("a mistake in the options");
				for a in BAD[v as usize % BAD.len()] {
					let mut a = a.as_bytes().to_vec();
					if a.first() == Some(&1) {
						a[0] = 0xE9;
					}
					args.push(a);
				}
			}
		}
	}
	let name = NAMES[sc.num("out", 0, 0, NAMES.len() as i64 - 1) as usize];
	let guessed = matches!(name.rsplit_once('.').map(|e| e.1), Some("ogg" | "oga" | "ogx"));
	if !remuxer && !guessed {
		wrong.get_or_insert("no remuxer");
	}
	match sc.num("free", 2, 0, 4) {
		0 => wrong = Some("no files"),
		1 => {
			args.push("in.ogg".into());
			wrong = Some("one file");
		}
		3 => {
			args.extend(["in.ogg".into(), name.as_bytes().to_vec(), "third.ogg".into()]);
			wrong = Some("three files");
		}
		4 => {
			args.extend(["in.ogg".into(), name.as_bytes().to_vec(), "-q".into()]);
			wrong = Some("an option after the files");
		}
		_ => args.extend(["in.ogg".into(), name.as_bytes().to_vec()])
	}
	Line { args: args.into_iter().map(OsString::from_vec).collect(), conf, quiet, wrong, info, output: name.into() }
}

fn cli_input(r: &mut Rng) -> J {
	if r.chance(1, 40) {
		return obj! {"raw" => obj! {"len" => r.skewed(2000), "seed" => r.below(1 << 30)}};
	}
	// Now and then more than the buffers of the program hold
	let sh = if r.chance(1, 5) { Shape { max_streams: 3, max_packets: 60, ..Shape::default() } } else { shape_small() };
	random_input(r, &sh)
}
fn common(r: &mut Rng, out: u64, quiet: (u64, u64)) -> J {
	let mut sc = obj! {"input" => cli_input(r), "opts" => options(r, out, quiet), "out" => out, "seed" => r.below(1 << 40)};
	if r.chance(1, 3) {
		sc.set("stale", 1 + r.skewed(60_000));
	}
	if r.chance(1, 3) {
		sc.set("read_max", 1 + r.skewed(5000));
	}
	if r.chance(1, 3) {
		sc.set("write_max", 1 + r.skewed(5000));
	}
	if r.chance(1, 8) {
		sc.set("entropy_fails", true);
	}
	if r.chance(1, 4) {
		sc.set("clock", r.range(-1 << 60, 1 << 61));
		sc.set("step", r.range(-1_000_000_000_000, 1_000_000_000_000));
	}
	sc
}

/// Trials are lists of faults: [operation, place, kind, argument]. The place is taken modulo the
/// number of operations of that kind in a run without faults, plus one now and then.
pub fn gen13(r: &mut Rng) -> J {
	let out = *r.pick(&[0, 0, 0, 0, 1, 2, 3, 3, 4, 9]);
	let mut sc = common(r, out, (2, 3));
	let mut trials = vec![];
	for _ in 0..2 + r.below(4) {
		let mut t = vec![];
		for _ in 0..1 + r.skewed(3) {
			let o = *r.pick(&[0, 1, 1, 1, 2, 3, 4, 4, 4, 5, 5, 6]);
			let (k, a) = match r.below(8) {
				0 => (kind::SHORT, 1 + r.skewed(4000)),
				1 if matches!(o, 4 | 5) => (kind::NONE, 0),
				2 if r.chance(1, 2) => (kind::CRASH, 0),
				2 => (kind::TORN, r.skewed(4000)),
				_ => (kind::ERRNO, *r.pick(errnos(o)) as u64)
			};
			// Ends matter most
			let at = match r.below(4) {
				0 => 0,
				1 => 1 << 20,
				2 => (1 << 20) - 1,
				_ => r.below(1 << 19)
			};
			t.push(J::Arr(vec![J::from(o), J::from(at), J::from(k), J::from(a)]));
		}
		trials.push(J::Arr(t));
	}
	sc.set("trials", J::Arr(trials));
	if r.chance(1, 3) {
		sc.set("full", J::Arr((0..1 + r.below(3)).map(|_| J::from(if r.chance(1, 3) { 1 + r.below(5) } else { r.below(1 << 16) })).collect()));
	}
	if r.chance(1, 30) {
		sc.set("what", 1 + r.below(3));
	}
	sc
}

pub fn gen14(r: &mut Rng) -> J {
	let out = r.below(NAMES.len() as u64);
	let mut sc = common(r, out, (1, 2));
	if r.chance(1, 4) {
		let bad = J::Arr(vec![J::from(50), J::from(r.below(BAD.len() as u64)), J::from(0)]);
		if let Some(o) = sc.get_mut("opts").and_then(|o| o.arr_mut()) {
			let at = r.below(o.len() as u64 + 1) as usize;
			o.insert(at, bad);
		}
	} else if r.chance(1, 8) {
		sc.set("free", *r.pick(&[0, 1, 3, 4]));
	} else if r.chance(1, 30) {
		let info = J::Arr(vec![J::from(51), J::from(r.below(4)), J::from(0)]);
		if let Some(o) = sc.get_mut("opts").and_then(|o| o.arr_mut()) {
			o.push(info);
		}
	} else if r.chance(1, 8) && !matches!(out, 3 | 5 | 6) {
		// Without the option that says which remuxer to use
		if let Some(o) = sc.get_mut("opts").and_then(|o| o.arr_mut()) {
			o.retain(|o| o.arr()[0].int() != 2);
		}
	}
	if r.chance(1, 20) {
		// Missing, a directory, empty
		sc.set("what", 1 + r.below(3));
	}
	match r.below(12) {
		0 | 1 => super::remux::add_chaos(r, sc.get_mut("input").unwrap(), 2),
		// Checksums that are wrong
		2 | 3 => {
			let m = J::Arr(vec![J::from(2), J::from(r.below(60)), J::from(1 + r.below(1 << 30)), J::from(0)]);
			sc.get_mut("input").unwrap().set("mut", J::Arr(vec![m]));
		}
		// No Vorbis stream at all
		4 => sc.set("input", obj! {"streams" => J::Arr((0..r.below(3)).map(|_| random_other(r)).collect())}),
		_ => ()
	}
	if r.chance(1, 6) {
		let e = epoch_text(r);
		sc.set("epoch", J::Str(e));
	}
	sc
}
pub fn epoch_text(r: &mut Rng) -> String {
	match r.below(7) {
		0 => "0".into(),
		1 => format!("{}", r.next() as i64),
		2 => format!("-{}", r.next()),
		3 => format!("{}{}", r.next(), r.below(1000)),
		_ => format!("{}", r.below(1 << 32))
	}
}

/// Puts the files in place. The content that the output had before is returned.
fn prepare(sc: &J, p: &Place, bytes: &[u8], output: &str) -> Option<Vec<u8>> {
	let _ = fs::remove_dir_all(&p.dir);
	let ok = |r: std::io::Result<()>| r.unwrap_or_else(|e| panic!("cannot prepare the files: {e}"));
	ok(fs::create_dir_all(p.dir.join("sub")));
	ok(fs::create_dir(p.dir.join("dir.ogg")));
	match sc.num("what", 0, 0, 3) {
		1 => (),
		2 => ok(fs::create_dir(p.dir.join("in.ogg"))),
		_ => ok(fs::write(p.dir.join("in.ogg"), bytes))
	}
	let stale = sc.num("stale", 0, 0, 200_000) as usize;
	if stale == 0 || !writable(output) {
		return None;
	}
	let old = decoy(stale, sc.num("seed", 1, 0, i64::MAX) as u64);
	ok(fs::write(p.dir.join(output), &old));
	Some(old)
}
fn writable(output: &str) -> bool {
	!matches!(output, "-" | "missing/out.ogg" | "dir.ogg")
}
/// Files in the directory that are not supposed to be there.
fn strange(p: &Path, output: &str, what: i64) -> Option<String> {
	let mut bad = None;
	for e in fs::read_dir(p).ok()?.flatten() {
		let n = e.file_name().to_string_lossy().into_owned();
		match &*n {
			"in.ogg" if what != 1 => (),
			"dir.ogg" | "sub" => {
				for e in fs::read_dir(e.path()).ok()?.flatten() {
					let m = format!("{n}/{}", e.file_name().to_string_lossy());
					if m != output {
						bad = Some(m);
					}
				}
			}
			_ if n == output => (),
			_ => bad = Some(n)
		}
	}
	bad
}

struct Case<'a> {
	sc: &'a J,
	line: &'a Line,
	input: &'a [u8],
	what: i64,
	/// What the library does with the same input and settings.
	expected: &'a Result<(Vec<u8>, Vec<u32>), String>,
	exp_len: usize
}
/// What was left on the output: the file, or the end of the standard output.
fn output_of(p: &Place, c: &Case, e: &Exec) -> Option<Vec<u8>> {
	if c.line.output == "-" {
		let n = e.stdout.len().saturating_sub(c.exp_len);
		return Some(if c.line.quiet { e.stdout.clone() } else { e.stdout[n..].to_vec() });
	}
	fs::read(p.dir.join(&c.line.output)).ok()
}

/// Judges one run of the program.
fn judge(ctx: &mut Ctx, p: &Place, c: &Case, call: &Call, e: &Exec, old: &Option<Vec<u8>>) {
	account(ctx, call, e);
	let trial = if call.faults.is_empty() && call.capacity == u64::MAX { String::new() } else { format!(" with {:?}, capacity {:x}", call.faults, call.capacity) };
	let bad = |ctx: &mut Ctx, class: &str, m: String| {
		ctx.fail(class, format!("{m} ({:?}{trial}: {})", call.args, e.how()));
	};
	let fired: Vec<&SysFault> = call.faults.iter().enumerate().filter(|(i, _)| e.fired >> i & 1 != 0).map(|f| f.1).collect();
	if e.signal == Some(9) && fired.iter().any(|f| matches!(f.kind, kind::CRASH | kind::TORN)) {
		ctx.count("fault:killed", 1);
		return;
	}
	if e.signal.is_some() || e.code == Some(101) {
		return bad(ctx, "crash", "the program crashed".into());
	}
	if e.over {
		return bad(ctx, "endless", format!("{} operations", e.recs.len()));
	}
	let ok = e.code == Some(0);
	let full = e.counts[15] > 0;
	let hard = full
		|| fired.iter().any(|f| match f.kind {
			kind::ERRNO => f.arg != EINTR && f.op <= op::STDOUT,
			kind::NONE => f.op == op::WRITE || f.op == op::STDOUT,
			_ => false
		});
	// Interrupted reads may or may not be survived
	let may = fired.iter().any(|f| f.kind == kind::ERRNO && f.arg == EINTR && matches!(f.op, op::READ | op::SEEK));
	let mute = fired.iter().any(|f| f.op == op::STDERR);
	if !ok && !mute && e.stderr.iter().all(u8::is_ascii_whitespace) {
		return bad(ctx, "silent", "no message for the failure".into());
	}
	// What it touched
	if ctx.prop == "C14" || ctx.prop == "C13" {
		if e.counts[14] > 0 {
			let r = e.recs.iter().find(|r| r.op == op::FOREIGN && r.flags & F_WRITES != 0);
			return bad(ctx, "foreign-write", format!("a file other than the output was to be changed ({r:?})"));
		}
		if let Some(s) = strange(&p.dir, &c.line.output, c.what) {
			return bad(ctx, "foreign-file", format!("{s} was created"));
		}
		if matches!(c.what, 0 | 3) && fs::read(p.dir.join("in.ogg")).ok().as_deref() != Some(c.input) {
			return bad(ctx, "input-changed", "the input was changed".into());
		}
	}
	if c.line.info {
		if hard && ok {
			bad(ctx, "lost-failure", "success although standard output failed".into());
		} else if !hard && c.line.wrong.is_none() && (!ok || !e.stdout.starts_with(tags().0.as_bytes())) {
			bad(ctx, "info", "no information".into());
		}
		if e.counts[op::OPEN_OUT as usize] + e.counts[op::WRITE as usize] > 0 {
			bad(ctx, "foreign-write", "the output was touched".into());
		}
		return;
	}
	if let Some(w) = c.line.wrong {
		if ok {
			return bad(ctx, "accepted", format!("success although there is {w}"));
		}
		if e.counts[op::OPEN_OUT as usize] > 0 {
			return bad(ctx, "usage-output", "the output was opened although the options are wrong".into());
		}
		let now = if writable(&c.line.output) { fs::read(p.dir.join(&c.line.output)).ok() } else { None };
		if &now != old {
			return bad(ctx, "usage-output", "the output changed although the options are wrong".into());
		}
		if c.line.output == "-" && e.stdout.windows(4).any(|w| w == b"OggS") {
			return bad(ctx, "usage-output", "data on standard output although the options are wrong".into());
		}
		return;
	}
	// A file of that name that was there before must not be lost to a mistyped input
	if c.what == 1 {
		let now = if writable(&c.line.output) { fs::read(p.dir.join(&c.line.output)).ok() } else { None };
		if ctx.prop == "C14" && (e.counts[op::OPEN_OUT as usize] > 0 || &now != old) {
			return bad(ctx, "usage-output", "the output was opened although there is no input".into());
		}
	}
	let possible = c.what != 1 && c.what != 2 && !matches!(&*c.line.output, "missing/out.ogg" | "dir.ogg");
	let epoch_bad = call.epoch.as_ref().is_some_and(|e| c.line.conf.randomize && !valid_epoch(e));
	let out = output_of(p, c, e);
	if ok {
		if hard {
			return bad(ctx, "lost-failure", "success although an operation failed".into());
		}
		if !possible {
			return bad(ctx, "accepted", "success without files to work on".into());
		}
		if epoch_bad {
			return bad(ctx, "epoch", "success although SOURCE_DATE_EPOCH is not valid".into());
		}
		match c.expected {
			Err(w) => return bad(ctx, "accepted", format!("success although the library fails: {w}")),
			Ok((want, serials)) => {
				let Some(out) = out else { return bad(ctx, "output", "no output".into()) };
				let Some((got, got_serials)) = canonical(&out) else {
					return bad(ctx, "output", format!("the output ({} bytes) is not what the library writes", out.len()));
				};
				if &got != want || (!c.line.conf.randomize && &got_serials != serials) {
					return bad(ctx, "output", format!("the output ({} bytes, serials {got_serials:x?}) is not what the library writes ({} bytes, {serials:x?})", out.len(), c.exp_len));
				}
			}
		}
		let head = if c.line.output == "-" && !c.line.quiet { &e.stdout[..e.stdout.len() - c.exp_len] } else if c.line.output == "-" { &[] } else { &e.stdout[..] };
		if c.line.quiet && !head.is_empty() {
			return bad(ctx, "quiet", format!("{} bytes on standard output", head.len()));
		}
		if c.line.quiet && !e.stderr.is_empty() {
			return bad(ctx, "quiet", format!("messages although nothing failed: {}", String::from_utf8_lossy(&e.stderr)));
		}
		ctx.count("judged:complete outputs", 1);
	} else {
		if !hard && !may && possible && !epoch_bad && c.expected.is_ok() {
			bad(ctx, "refused", "failure although nothing failed".into());
		}
	}
}
use super::threads::valid_epoch;

fn account(ctx: &mut Ctx, call: &Call, e: &Exec) {
	ctx.st.runs += 1;
	ctx.st.ops += e.recs.len() as u64;
	ctx.st.sim_ns += e.clock_moved as i128;
	let mut h = e.hash();
	ctx.st.digest.u64(h.0);
	for a in &call.args {
		h.bytes(a.as_encoded_bytes());
	}
	h.bytes(&e.stdout);
	if e.recs.len() > 1 {
		ctx.state(h.0);
	}
	for (i, f) in call.faults.iter().enumerate() {
		if e.fired >> i & 1 != 0 {
			let k = match f.kind {
				kind::ERRNO => format!("errno {}", f.arg),
				kind::SHORT => "short".into(),
				kind::NONE => "no progress".into(),
				kind::CRASH => "crash".into(),
				_ => "torn write and crash".to_string()
			};
			ctx.count(&format!("fault:{} {k}", OPS[f.op as usize % OPS.len()]), 1);
		}
	}
	let n = |f: &dyn Fn(&Rec) -> bool| e.recs.iter().filter(|r| f(r)).count() as u64;
	ctx.count("fault:disk full", e.counts[15]);
	ctx.count("fault:short write", n(&|r| matches!(r.op, op::WRITE | op::STDOUT) && r.res > 0 && (r.res as u64) < r.size));
	ctx.count("fault:entropy failure", n(&|r| r.op == op::ENTROPY && r.flags & 1 != 0));
	ctx.count(
		match e.code {
			Some(0) => "result:exit 0",
			Some(_) => "result:exit with an error",
			None => "result:killed"
		},
		1
	);
}

fn base_call(sc: &J, l: &Line) -> Call {
	let mut c = Call::new(l.args.clone());
	c.output = l.output.clone();
	c.seed = sc.num("seed", 1, 0, i64::MAX) as u64;
	c.read_max = sc.num("read_max", 0, 0, 1 << 20) as u32;
	c.write_max = sc.num("write_max", 0, 0, 1 << 20) as u32;
	c.entropy_fails = sc.flag("entropy_fails", false);
	c.clock = sc.num("clock", 1_700_000_000_000_000_000, i64::MIN / 2, i64::MAX / 2);
	c.step = sc.num("step", 1000, i64::MIN / (1 << 20), i64::MAX / (1 << 20));
	if sc.has("epoch") {
		c.epoch = Some(sc.get("epoch").str().as_bytes().to_vec());
	}
	c
}
fn exec(p: &Place, c: &Call) -> Exec {
	p.run(c).unwrap_or_else(|e| panic!("cannot run the program: {e}"))
}
fn library(sc: &J, conf: &Conf, bytes: &[u8]) -> (Result<(Vec<u8>, Vec<u32>), String>, usize) {
	let mut job = Job::new(Arc::new(bytes.to_vec()));
	job.plan.seed = sc.num("seed", 1, 0, i64::MAX) as u64;
	let o = remux_with(&remuxer(conf), &job);
	match o.res {
		Res::Ok => match canonical(&o.out) {
			Some(c) => (Ok(c), o.out.len()),
			None => (Err("its output is not Ogg".into()), 0)
		},
		r => (Err(r.brief()), 0)
	}
}

pub fn run_cli(sc: &J, ctx: &mut Ctx) {
	let p = place();
	let l = line(sc);
	let what = sc.num("what", 0, 0, 3);
	let bytes = if what == 3 { vec![] } else { built(sc).bytes };
	let (expected, exp_len) = library(sc, &l.conf, &bytes);
	let c = Case { sc, line: &l, input: &bytes, what, expected: &expected, exp_len };
	let mut call = base_call(c.sc, &l);
	// Pieces of big inputs are not that small
	let least = (bytes.len() / 4000) as u32;
	for m in [&mut call.read_max, &mut call.write_max] {
		if *m > 0 {
			*m = (*m).max(least);
		}
	}
	// Without faults
	let old = prepare(sc, p, &bytes, &l.output);
	let plain = exec(p, &call);
	judge(ctx, p, &c, &call, &plain, &old);
	if !ctx.viols.is_empty() {
		return;
	}
	if ctx.prop == "C14" {
		if l.conf.randomize && l.conf.offset != 0 && plain.code == Some(0) {
			offset(ctx, p, &c, &call, &plain);
		}
		return;
	}
	let count = |o: u32| plain.counts[o as usize & 15];
	let mut trials: Vec<Call> = vec![];
	for t in sc.get("trials").arr().iter().take(12) {
		let mut call = call.clone();
		for f in t.arr().iter().take(8) {
			let at = |i: usize| f.arr().get(i).map_or(0, |v| v.int().clamp(0, u32::MAX as i128) as u32);
			let (o, place) = (at(0).min(6), at(1) as u64);
			let n = count(o);
			// From the end: the last operation, the one before it, one that would follow
			let nth = match place {
				0x100000 => n.saturating_sub(1),
				0xFFFFF => n.saturating_sub(2),
				p => p % (n + 1)
			};
			call.faults.push(SysFault { op: o, nth: nth as u32, kind: at(2).min(4), arg: at(3) });
		}
		trials.push(call);
	}
	for f in sc.get("full").arr().iter().take(8) {
		let mut call = call.clone();
		// A few bytes less than needed, or anything
		let v = f.u64();
		let total = exp_len as u64;
		call.capacity = if v <= 5 { total.saturating_sub(v) } else { v % (total + 1) };
		trials.push(call);
	}
	for t in trials {
		let old = prepare(sc, p, &bytes, &l.output);
		let e = exec(p, &t);
		judge(ctx, p, &c, &t, &e, &old);
		if !ctx.viols.is_empty() {
			return;
		}
		if e.signal == Some(9) {
			// What is left of the output must not disturb the next run
			let e = exec(p, &call);
			ctx.count("judged:runs after a crash", 1);
			judge(ctx, p, &c, &call, &e, &None);
			if !ctx.viols.is_empty() {
				return;
			}
		}
	}
}

/// The offset is added to the random serials.
fn offset(ctx: &mut Ctx, p: &Place, c: &Case, call: &Call, plain: &Exec) {
	let with = output_of(p, c, plain).and_then(|o| canonical(&o)).map(|o| o.1).unwrap_or_default();
	let mut sc = c.sc.clone();
	if let Some(o) = sc.get_mut("opts").and_then(|o| o.arr_mut()) {
		for o in o.iter_mut().filter(|o| o.arr().first().map_or(0, |k| k.int()) == 11) {
			*o = J::Arr(vec![J::from(11), J::from(0), J::from(0)]);
		}
	}
	let l = line(&sc);
	prepare(&sc, p, c.input, &l.output);
	let mut call = call.clone();
	call.args = l.args.clone();
	let e = exec(p, &call);
	account(ctx, &call, &e);
	let c2 = Case { sc: &sc, line: &l, input: c.input, what: c.what, expected: c.expected, exp_len: c.exp_len };
	let without = output_of(p, &c2, &e).and_then(|o| canonical(&o)).map(|o| o.1).unwrap_or_default();
	if with.len() != without.len() || with.iter().zip(&without).any(|(a, b)| *a != b.wrapping_add(c.line.conf.offset)) {
		ctx.fail("offset", format!("serials {with:x?} with an offset of {:x}, {without:x?} without it", c.line.conf.offset));
	}
}

/// The same command line twice, in worlds that differ in everything but the variable.
pub fn gen11(r: &mut Rng) -> J {
	let out = *r.pick(&[0, 0, 0, 1, 2, 3, 4]);
	let mut sc = common(r, out, (1, 1));
	let e = if r.chance(1, 5) {
		r.pick(&["", "x", "1.5", " 1", "1 ", "0x1", "-", "99999999999999999999999999999999999999999999"]).to_string()
	} else {
		epoch_text(r)
	};
	sc.set("epoch", J::Str(e));
	if let Some(o) = sc.get_mut("opts").and_then(|o| o.arr_mut()) {
		if !o.iter().any(|o| o.arr()[0].int() == 2) {
			o.push(J::Arr(vec![J::from(2), J::from(0), J::from(0)]));
		}
		if r.chance(3, 4) {
			o.retain(|o| o.arr()[0].int() != 10);
		}
	}
	sc.set("worlds", J::Arr(
		(0..1 + r.below(2))
			.map(|_| {
				let mut w = obj! {"seed" => r.below(1 << 40)};
				if r.chance(1, 2) {
					w.set("read_max", 1 + r.skewed(5000));
				}
				if r.chance(1, 2) {
					w.set("write_max", 1 + r.skewed(5000));
				}
				if r.chance(1, 3) {
					w.set("entropy_fails", true);
				}
				w.set("clock", r.range(-1 << 60, 1 << 61));
				w.set("step", r.range(-1_000_000_000_000, 1_000_000_000_000));
				w
			})
			.collect()
	));
	sc
}
pub fn run11(sc: &J, ctx: &mut Ctx) {
	let p = place();
	let l = line(sc);
	let bytes = built(sc).bytes;
	let (expected, exp_len) = library(sc, &l.conf, &bytes);
	let c = Case { sc, line: &l, input: &bytes, what: 0, expected: &expected, exp_len };
	let least = (bytes.len() / 4000) as u32;
	let mut first: Option<(Option<i32>, Option<Vec<u8>>)> = None;
	let mut worlds = vec![sc.clone()];
	worlds.extend(sc.get("worlds").arr().iter().take(4).cloned());
	for (i, w) in worlds.iter().enumerate() {
		let mut call = base_call(w, &l);
		call.epoch = Some(sc.get("epoch").str().as_bytes().to_vec());
		for m in [&mut call.read_max, &mut call.write_max] {
			if *m > 0 {
				*m = (*m).max(least);
			}
		}
		let old = prepare(sc, p, &bytes, &l.output);
		let e = exec(p, &call);
		judge(ctx, p, &c, &call, &e, &old);
		if !ctx.viols.is_empty() {
			return;
		}
		let valid = valid_epoch(call.epoch.as_ref().unwrap());
		if l.wrong.is_some() {
			return;
		}
		// The keys of hash tables are not about serials
		let entropy = e.recs.iter().filter(|r| r.op == op::ENTROPY && r.size != 16).count();
		if (valid || !l.conf.randomize) && entropy > 0 {
			return ctx.fail("consulted", format!("world {i}: the entropy source was used {entropy} times although SOURCE_DATE_EPOCH is {:?}", sc.get("epoch").str()));
		}
		if !valid && l.conf.randomize && e.counts[op::WRITE as usize] > 0 {
			return ctx.fail("epoch-written", format!("world {i}: there were writes although SOURCE_DATE_EPOCH is {:?}", sc.get("epoch").str()));
		}
		let out = (e.code == Some(0)).then(|| output_of(p, &c, &e)).flatten();
		ctx.count("judged:reproducible runs of the program", 1);
		let now = (e.code, out);
		match &first {
			None => first = Some(now),
			Some(f) if *f != now => {
				return ctx.fail("irreproducible", format!("world {i}: exit status {:?} and {:?} bytes instead of {:?} and {:?}", now.0, now.1.as_ref().map(|o| o.len()), f.0, f.1.as_ref().map(|o| o.len())));
			}
			_ => ()
		}
	}
}
