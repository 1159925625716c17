//! The bit packer on simulated endpoints, compared bit by bit with a model that handles one
//! bit at a time.

use super::*;
use crate::io::{SimFault, Sink, Src};
use simcore::bits::{BitR, BitW};
use std::io::ErrorKind;
fn value(r: &mut Rng) -> u64 {
	match r.below(5) {
		0 => 0,
		1 => u32::MAX as u64,
		2 => 1 << r.below(32),
		3 => r.skewed(300),
		_ => r.u32() as u64
	}
}
fn any_width(r: &mut Rng) -> u64 {
	match r.below(6) {
		0 => *r.pick(&[0, 1, 7, 8, 9, 16, 24, 25, 31, 32]),
		1 => 1 + r.below(8),
		_ => r.below(33)
	}
}

/// Writer operations: [0, value, width] unsigned, [1, value, width] signed, [2, word] float,
/// [3, bit] flag, [4] finalize, [5] flush, [6] drop and continue with a new writer.
/// Reader operations: [0, width] unsigned, [1, width] signed, [2] float, [3] flag,
/// [4] take the source back and continue with a new reader.
pub fn gen16(r: &mut Rng) -> J {
	let n = 1 + r.skewed(60);
	let reader = r.chance(1, 2);
	let mut flow = flow_random(r, true);
	if r.chance(1, 3) {
		let k = fault_kind(r, !reader);
		flow.set("faults", J::Arr(vec![J::Arr(vec![J::from(r.skewed(120)), J::from(k)])]));
	}
	let narrow = r.chance(1, 4);
	let one = any_width(r);
	let w = |r: &mut Rng| if narrow { if r.chance(1, 8) { any_width(r) } else { one } } else { any_width(r) };
	let mut ops = vec![];
	for _ in 0..n {
		let o: Vec<u64> = match (reader, r.below(24)) {
			(_, 0..=1) => vec![2, (value(r) & !0) | 1 << 20],
			(_, 2..=4) => vec![3, r.below(2)],
			(false, 5) => vec![4],
			(false, 6) if r.chance(1, 2) => vec![5],
			(false, 7) if r.chance(1, 2) => vec![6],
			(true, 5) if r.chance(1, 2) => vec![4],
			(false, k) => vec![(k & 1), value(r), w(r)],
			(true, k) => vec![(k & 1), w(r)]
		};
		ops.push(J::Arr(o.into_iter().map(J::from).collect()));
	}
	let mut j = obj! {"ops" => J::Arr(ops), "flow" => flow, "back" => r.below(1 << 30)};
	if r.chance(1, 3) {
		j.set("lean", 1);
	}
	if reader {
		// Usually about as much as is read
		let len = if r.chance(1, 3) { r.skewed(40) } else { n * 3 };
		j.set("data", obj! {"len" => len, "seed" => r.below(1 << 30), "kind" => r.below(3)});
		j.set("base", r.skewed(5));
	}
	j
}

/// The value the specification gives to a codebook float word.
fn exact(word: u32) -> f64 {
	let m = (word & 0x1F_FFFF) as f64;
	let e = ((word >> 21) & 0x3FF) as i32 - 788;
	// Powers of two in steps that stay exact
	let mut v = m;
	for _ in 0..e.unsigned_abs() {
		v = if e < 0 { v / 2.0 } else { v * 2.0 };
	}
	if word >> 31 != 0 { -v } else { v }
}
fn extended(v: u32, w: u64) -> i64 {
	if w > 0 && v >> (w - 1) & 1 != 0 { v as i64 - (1i64 << w) } else { v as i64 }
}

fn expected_fault(e: &std::io::Error, st: &crate::io::EndStats) -> bool {
	match st.failed {
		None => false,
		Some((_, crate::io::NO_PROGRESS)) if e.kind() == ErrorKind::WriteZero => true,
		Some((op, _)) => e.get_ref().and_then(|i| i.downcast_ref::<SimFault>()).is_some_and(|f| f.0 == op)
	}
}

pub fn run16(sc: &J, ctx: &mut Ctx) {
	crate::io::reset_failed();
	// A third of the runs are for the build without the standard library
	let lean = sc.num("lean", 0, 0, 1) != 0;
	ctx.count(if lean { "judged:runs of the no-std build" } else { "judged:runs of the ordinary build" }, 1);
	let r = match guarded(|| match (sc.has("data"), lean) {
		(true, false) => full::read(sc),
		(false, false) => full::write(sc),
		(true, true) => lean::read(sc),
		(false, true) => lean::write(sc)
	}) {
		Ok(r) => r,
		Err(m) => {
			ctx.st.runs += 1;
			ctx.fail("panic", m);
			return;
		}
	};
	ctx.st.runs += 1;
	ctx.st.ops += r.st.ops;
	ctx.st.digest.u64(r.hash.0);
	if r.bits > 0 {
		ctx.state(r.hash.0);
	}
	let side = if sc.has("data") { "read" } else { "write" };
	ctx.count(&format!("fault:short {side}"), r.st.short);
	ctx.count(&format!("fault:interrupted {side}"), r.st.interrupted);
	if let Some((_, k)) = r.st.failed {
		let name = if k == NO_PROGRESS { "no progress" } else { crate::io::kind(k).0 };
		ctx.count(&format!("fault:{side} {name}"), 1);
	}
	ctx.count(&format!("judged:operations ({side})"), r.done);
	ctx.count(&format!("judged:bits ({side})"), r.bits);
	ctx.count("probe:end of data met", r.eof as u64);
	ctx.count("probe:width 0", r.zero);
	ctx.count("probe:value wider than its width", r.wide);
	if let Some((c, m)) = r.bad {
		ctx.fail(c, m);
	}
}

#[derive(Default)]
struct Run {
	st: crate::io::EndStats,
	hash: Hash64,
	bits: u64,
	done: u64,
	eof: bool,
	zero: u64,
	wide: u64,
	bad: Option<(&'static str, String)>
}

fn hash_out(b: &[u8]) -> u64 {
	let mut h = Hash64::default();
	h.bytes(b);
	h.0
}
/// Whether an endpoint of this thread has failed for good.
fn w_failed<T>(_: &T) -> bool {
	crate::io::failed()
}


/// The same for both builds: the names of the reader and the writer are those of the module it is in.
macro_rules! runs {
	() => {
		pub fn write(sc: &J) -> Run {
			let mut run = Run::default();
			let flow = sc.get("flow");
			let mut sink = Sink::new(Flow::from(flow), faults_from(flow.get("faults")), 100_000);
			let mut m = BitW::new();
			let ops = sc.get("ops").arr();
			let mut i = 0;
			'writers: loop {
				let mut w = BitpackWriter::new(&mut sink);
				loop {
					let Some(op) = ops.get(i).filter(|_| i < 400) else { break };
					let a = op.arr();
					let arg = |n: usize| a.get(n).map_or(0, |v| v.int().clamp(0, u32::MAX as i128) as u64);
					let v = arg(1) as u32;
					let n = arg(2).min(32);
					i += 1;
					let (raw, is) = (v as u8, BitpackedIntegerWidth::new(v as u8).map(|w| w.get()));
					if is != (raw <= 32).then_some(raw) {
						run.bad = Some(("width", format!("a width of {raw} became {is:?}")));
						return run;
					}
					run.hash.u64(arg(0) << 40 ^ n << 32 ^ v as u64);
					let before = m.clone();
					let res = match arg(0) {
						0 | 1 => {
							run.zero += (n == 0) as u64;
							run.wide += ((v as u64) >> n != 0) as u64;
							m.put(v as u64, n as u32);
							if arg(0) == 0 { w.write_unsigned_integer(v, width(n)) } else { w.write_signed_integer(v as i32, width(n)) }
						}
						2 => {
							let v = v | 1 << 20;
							m.put(v as u64, 32);
							w.write_float32(exact(v))
						}
						3 => {
							m.put((v & 1) as u64, 1);
							w.write_flag(v & 1 != 0)
						}
						4 => {
							m.align();
							w.finalize()
						}
						// Interrupted flushes are passed on, for the caller to repeat
						5 => match w.flush() {
							Err(e) if e.kind() == ErrorKind::Interrupted => Ok(()),
							r => r
						},
						_ => {
							m.align();
							drop(w);
							if sink.st.failed.is_some() {
								// A failure while dropping has nowhere to go
								run.st = sink.st.clone();
								run.bits = before.nbits as u64;
								if !m.bytes.starts_with(&sink.out) {
									run.bad = Some(("bits-before-failure", format!("wrote {:x?} before the failure, expected {:x?}", sink.out, m.bytes)));
								}
								return run;
							}
							continue 'writers;
						}
					};
					run.done += 1;
					if let Err(e) = res {
						// Dropping it must do no harm
						drop(w);
						run.st = sink.st.clone();
						let ok = expected_fault(&e, &sink.st);
						let at = sink.st.failed.map_or(0, |f| f.0);
						run.hash.u64(at);
						if !ok {
							run.bad = Some(("error", format!("operation {}: {e} although failure {:?} happened", i - 1, sink.st.failed)));
						}
						return run;
					}
					if w_failed(&w) {
						drop(w);
						run.st = sink.st.clone();
						run.bad = Some(("lost-failure", format!("operation {} succeeded although the sink failed", i - 1)));
						return run;
					}
				}
				let explicit = sc.num("back", 0, 0, i64::MAX) & 1 != 0;
				m.align();
				if explicit {
					let r = w.finalize();
					let failed = w_failed(&w);
					drop(w);
					match r {
						Ok(()) if failed => run.bad = Some(("lost-failure", "finalizing succeeded although the sink failed".into())),
						Err(e) if !expected_fault(&e, &sink.st) => run.bad = Some(("error", format!("finalizing: {e}"))),
						_ => ()
					}
				} else {
					drop(w);
				}
				break;
			}
			run.st = sink.st.clone();
			run.bits = m.nbits as u64;
			run.hash.u64(hash_out(&sink.out));
			run.hash.u64(sink.st.log.0);
			if run.bad.is_some() {
				return run;
			}
			if sink.st.failed.is_some() {
				if !m.bytes.starts_with(&sink.out) {
					run.bad = Some(("bits-before-failure", format!("wrote {:x?} around the failure, expected {:x?}", sink.out, m.bytes)));
				}
			} else if sink.out != m.bytes {
				run.bad = Some(("bits", format!("wrote {:x?}, expected {:x?}", sink.out, m.bytes)));
			} else {
				// And back, in pieces of other sizes
				let mut r = Rng::new(sc.num("back", 0, 0, i64::MAX) as u64);
				let mut model = BitR::new(&m.bytes);
				let mut rd = BitpackReader::new(&m.bytes[..]);
				loop {
					let n = r.below(33);
					match (model.get(n as u32), rd.read_unsigned_integer(width(n))) {
						(None, Err(e)) if e.kind() == ErrorKind::UnexpectedEof => break,
						(Some(a), Ok(b)) if a == b => (),
						(a, b) => {
							run.bad = Some(("read-back", format!("{n} bits before bit {}: {b:?}, expected {a:?}", model.pos)));
							break;
						}
					}
					if n == 0 && model.bits_left() == 0 {
						break;
					}
				}
			}
			run
		}

		pub fn read(sc: &J) -> Run {
			let mut run = Run::default();
			let d = sc.get("data");
			let mut r = Rng::new(d.num("seed", 0, 0, i64::MAX) as u64);
			let len = d.num("len", 0, 0, 4000) as usize;
			let data = match d.num("kind", 0, 0, 2) {
				0 => r.bytes(len),
				1 => vec![0xFF; len],
				_ => (0..len).map(|i| 1u8 << (i % 8) | (i as u8 & 0x11)).collect()
			};
			let base = (sc.num("base", 0, 0, 64) as usize).min(len);
			let flow = sc.get("flow");
			let mut src = Src::new(Arc::new(data.clone()), base as u64, Flow::from(flow), faults_from(flow.get("faults")));
			let mut m = BitR::new(&data);
			m.pos = base * 8;
			let ops = sc.get("ops").arr();
			let mut i = 0;
			'readers: loop {
				let mut rd = BitpackReader::new(&mut src);
				while let Some(op) = ops.get(i).filter(|_| i < 400) {
					let a = op.arr();
					let arg = |n: usize| a.get(n).map_or(0, |v| v.int().clamp(0, u32::MAX as i128) as u64);
					i += 1;
					let n = match arg(0) {
						0 | 1 => arg(1).min(32),
						2 => 32,
						3 => 1,
						_ => {
							let s = rd.into_inner();
							// What was not asked for is still in the source
							m.pos = m.pos.div_ceil(8) * 8;
							if s.pos as usize * 8 != m.pos {
								run.st = s.st.clone();
								run.bad = Some(("consumed", format!("{} bytes were taken, {} were needed", s.pos, m.pos / 8)));
								return run;
							}
							continue 'readers;
						}
					};
					run.hash.u64(arg(0) << 40 ^ n);
					run.zero += (n == 0) as u64;
					let want = m.get(n as u32);
					let got = match arg(0) {
						0 => rd.read_unsigned_integer(width(n)).map(|v| v as i64),
						1 => rd.read_signed_integer(width(n)).map(|v| v as i64),
						2 => rd.read_float32().map(|v| v.to_bits() as i64),
						_ => rd.read_flag().map(|v| v as i64)
					};
					let want = want.map(|w| match arg(0) {
						0 | 3 => w as i64,
						1 => extended(w, n),
						_ => exact(w).to_bits() as i64
					});
					run.done += 1;
					match (want, got) {
						(Some(a), Ok(b)) if a == b && !crate::io::failed() => run.hash.u64(a as u64),
						(None, Err(e)) if e.kind() == ErrorKind::UnexpectedEof => {
							run.eof = true;
							run.st = rd.into_inner().st.clone();
							run.bits = m.pos as u64;
							return run;
						}
						(_, Err(e)) if expected_fault(&e, &src.st) => {
							run.hash.u64(src.st.failed.map_or(0, |f| f.0));
							run.st = src.st.clone();
							run.bits = m.pos as u64;
							return run;
						}
						(a, b) => {
							run.st = src.st.clone();
							run.bad = Some(("value", format!("operation {} (kind {}, {n} bits): {b:?}, expected {a:?}, failure {:?}", i - 1, arg(0), src.st.failed)));
							return run;
						}
					}
				}
				let s = rd.into_inner();
				run.st = s.st.clone();
				run.bits = (m.pos - base * 8) as u64;
				run.hash.u64(s.st.log.0);
				if s.pos as usize != m.pos.div_ceil(8) {
					run.bad = Some(("consumed", format!("{} bytes were taken, {} were needed", s.pos, m.pos.div_ceil(8))));
				}
				return run;
			}
		}
	};
}

/// The build with the standard library.
mod full {
	use super::*;
	use vorbis_bitpack::{BitpackReader, BitpackWriter, BitpackedIntegerWidth};

	fn width(n: u64) -> BitpackedIntegerWidth {
		BitpackedIntegerWidth::new(n.min(32) as u8).unwrap()
	}
	runs!();
}

/// The build without it, whose endpoints have other traits and errors.
mod lean {
	use super::*;
	use acid_io::ErrorKind as K;
	use std::cell::RefCell;
	use std::io;
	use vorbis_bitpack_lean::BitpackedIntegerWidth;

	thread_local! {
		/// What the endpoint said last: errors of this build cannot carry it.
		static LAST: RefCell<Option<io::Error>> = const { RefCell::new(None) };
	}
	fn width(n: u64) -> BitpackedIntegerWidth {
		BitpackedIntegerWidth::new(n.min(32) as u8).unwrap()
	}
	fn narrow(k: ErrorKind) -> K {
		match k {
			ErrorKind::Interrupted => K::Interrupted,
			ErrorKind::InvalidData => K::InvalidData,
			ErrorKind::InvalidInput => K::InvalidInput,
			ErrorKind::UnexpectedEof => K::UnexpectedEof,
			ErrorKind::WriteZero => K::WriteZero,
			_ => K::Other
		}
	}
	fn lower<T>(r: io::Result<T>) -> acid_io::Result<T> {
		r.map_err(|e| {
			let k = narrow(e.kind());
			LAST.with(|l| *l.borrow_mut() = Some(e));
			k.into()
		})
	}
	fn raise<T>(r: acid_io::Result<T>) -> io::Result<T> {
		r.map_err(|e| match LAST.with(|l| l.borrow_mut().take()) {
			Some(l) if narrow(l.kind()) == e.kind() => l,
			_ => match e.kind() {
				K::Interrupted => ErrorKind::Interrupted,
				K::InvalidData => ErrorKind::InvalidData,
				K::InvalidInput => ErrorKind::InvalidInput,
				K::UnexpectedEof => ErrorKind::UnexpectedEof,
				K::WriteZero => ErrorKind::WriteZero,
				_ => ErrorKind::Other
			}
			.into()
		})
	}
	struct Wrap<T>(T);
	impl<T: io::Read> acid_io::Read for Wrap<T> {
		fn read(&mut self, buf: &mut [u8]) -> acid_io::Result<usize> {
			lower(self.0.read(buf))
		}
	}
	impl<T: io::Write> acid_io::Write for Wrap<T> {
		fn write(&mut self, buf: &[u8]) -> acid_io::Result<usize> {
			lower(self.0.write(buf))
		}
		fn flush(&mut self) -> acid_io::Result<()> {
			lower(self.0.flush())
		}
	}
	struct BitpackWriter<T: io::Write>(vorbis_bitpack_lean::BitpackWriter<Wrap<T>>);
	impl<T: io::Write> BitpackWriter<T> {
		fn new(sink: T) -> Self {
			LAST.with(|l| l.borrow_mut().take());
			Self(vorbis_bitpack_lean::BitpackWriter::new(Wrap(sink)))
		}
		fn write_unsigned_integer(&mut self, v: u32, n: BitpackedIntegerWidth) -> io::Result<()> {
			raise(self.0.write_unsigned_integer(v, n))
		}
		fn write_signed_integer(&mut self, v: i32, n: BitpackedIntegerWidth) -> io::Result<()> {
			raise(self.0.write_signed_integer(v, n))
		}
		fn write_float32(&mut self, v: f64) -> io::Result<()> {
			raise(self.0.write_float32(v))
		}
		fn write_flag(&mut self, v: bool) -> io::Result<()> {
			raise(self.0.write_flag(v))
		}
		fn flush(&mut self) -> io::Result<()> {
			raise(self.0.flush())
		}
		fn finalize(&mut self) -> io::Result<()> {
			raise(self.0.finalize())
		}
	}
	struct BitpackReader<T: io::Read>(vorbis_bitpack_lean::BitpackReader<Wrap<T>>);
	impl<T: io::Read> BitpackReader<T> {
		fn new(source: T) -> Self {
			LAST.with(|l| l.borrow_mut().take());
			Self(vorbis_bitpack_lean::BitpackReader::new(Wrap(source)))
		}
		fn read_unsigned_integer(&mut self, n: BitpackedIntegerWidth) -> io::Result<u32> {
			raise(self.0.read_unsigned_integer(n))
		}
		fn read_signed_integer(&mut self, n: BitpackedIntegerWidth) -> io::Result<i32> {
			raise(self.0.read_signed_integer(n))
		}
		fn read_float32(&mut self) -> io::Result<f64> {
			raise(self.0.read_float32())
		}
		fn read_flag(&mut self) -> io::Result<bool> {
			raise(self.0.read_flag())
		}
		fn into_inner(self) -> T {
			self.0.into_inner().0
		}
	}
	runs!();
}
