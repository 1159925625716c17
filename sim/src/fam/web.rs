//! The WebAssembly build in a JavaScript host that the simulator controls, compared with the
//! native library.

use super::*;
use optivorbis::Remuxer;
use simcore::input::random_input;
use crate::apart::{Dec, Enc, Gone, forked};
use std::{
	cell::RefCell,
	io::{Read, Write},
	process::{Child, ChildStdin, ChildStdout, Command, Stdio}
};

struct Host {
	child: Child,
	to: Option<ChildStdin>,
	from: ChildStdout
}
impl Drop for Host {
	fn drop(&mut self) {
		self.to = None;
		let _ = self.child.kill();
		let _ = self.child.wait();
	}
}
thread_local! {
	static HOST: RefCell<Option<Host>> = const { RefCell::new(None) };
}
fn start() -> Host {
	let root = crate::drive::root();
	let mut child = Command::new("node")
		.arg(root.join("wasm/host.mjs"))
		.arg(root.join("target/wasm/wasm32-unknown-unknown/debug/optivorbis.wasm"))
		.stdin(Stdio::piped())
		.stdout(Stdio::piped())
		.spawn()
		.expect("cannot start node");
	Host { to: child.stdin.take(), from: child.stdout.take().unwrap(), child }
}
impl Host {
	fn ask(&mut self, head: &J, blobs: &[Vec<u8>]) -> std::io::Result<(J, Vec<u8>)> {
		let h = head.dump();
		let to = self.to.as_mut().unwrap();
		to.write_all(&(h.len() as u32).to_le_bytes())?;
		to.write_all(h.as_bytes())?;
		for b in blobs {
			to.write_all(b)?;
		}
		to.flush()?;
		let mut l = [0; 4];
		self.from.read_exact(&mut l)?;
		let mut h = vec![0; u32::from_le_bytes(l) as usize];
		self.from.read_exact(&mut h)?;
		let j = J::parse(&String::from_utf8_lossy(&h)).map_err(std::io::Error::other)?;
		let n: u64 = j.get("results").arr().iter().map(|r| r.get("len").u64()).sum();
		let mut out = vec![0; n as usize];
		self.from.read_exact(&mut out)?;
		Ok((j, out))
	}
}

pub fn gen22(r: &mut Rng) -> J {
	let n = 1 + r.below(4);
	let sh = match r.below(8) {
		0 => Shape::default(),
		_ => shape_small()
	};
	let jobs: Vec<J> = (0..n)
		.map(|_| {
			let mut input = if r.chance(1, 30) {
				obj! {"raw" => obj! {"len" => r.skewed(3000), "seed" => r.below(1 << 30)}}
			} else {
				random_input(r, &sh)
			};
			if r.chance(1, 4) && !input.has("raw") {
				super::remux::add_chaos(r, &mut input, 3);
			}
			let mut entropy = obj! {"seed" => r.below(1 << 32)};
			match r.below(8) {
				0 => entropy.set("fail_all", true),
				1 => entropy.set("fail", J::Arr(vec![J::from(0)])),
				_ => ()
			}
			let mut j = obj! {"input" => input, "entropy" => entropy, "object" => r.below(3)};
			if r.chance(1, 6) {
				// The file ends early
				j.set("cut", r.below(1 << 20));
			}
			j
		})
		.collect();
	let mut jobs = jobs;
	if r.chance(1, 5) {
		// The same file once more, maybe with no randomness to be had either time
		let at = r.below(jobs.len() as u64) as usize;
		let mut again = jobs[at].clone();
		if r.chance(3, 4) {
			let fail = obj! {"seed" => r.below(1 << 32), "fail_all" => true};
			jobs[at].set("entropy", fail.clone());
			again.set("entropy", fail);
		}
		again.set("object", r.below(3));
		jobs.push(again);
	}
	obj! {"jobs" => J::Arr(jobs), "log" => r.below(3)}
}

struct Todo {
	bytes: Vec<u8>,
	plan: world::Plan,
	object: usize
}
fn native(jobs: &[Todo]) -> Result<Vec<Outcome>, Gone> {
	let v = forked(|_| {
		let objects: Vec<PlainRemuxer> = (0..3).map(|_| PlainRemuxer::new_with_defaults()).collect();
		let mut e = Enc::new();
		for j in jobs {
			let mut job = Job::new(Arc::new(j.bytes.clone()));
			job.plan = j.plan.clone();
			e.outcome(&remux_with(&objects[j.object], &job));
		}
		e.0
	})?;
	let mut d = Dec(&v);
	Ok(jobs.iter().map(|_| d.outcome()).collect())
}

pub fn run22(sc: &J, ctx: &mut Ctx) {
	set_log_level(sc);
	let jobs: Vec<Todo> = sc
		.get("jobs")
		.arr()
		.iter()
		.take(8)
		.map(|j| {
			let mut bytes = built(j).bytes;
			if j.has("cut") {
				bytes.truncate((j.get("cut").u64() % (bytes.len() as u64 + 1)) as usize);
			}
			Todo { bytes, plan: plan_from(j.get("entropy")), object: j.num("object", 0, 0, 2) as usize }
		})
		.collect();
	let want = match native(&jobs) {
		Ok(w) => w,
		Err(_) => {
			ctx.count("skipped:the native library ended the process", 1);
			return;
		}
	};
	let mut blobs = vec![];
	let mut heads = vec![];
	for j in &jobs {
		// The bytes that the native library is given
		let mut b = Rng::new(simcore::rng::mix(j.plan.seed ^ 0x0E17)).bytes(64);
		let n = b.len();
		b.extend_from_slice(&j.bytes);
		heads.push(obj! {"len" => b.len(), "entropy_len" => n, "object" => j.object, "fail_all" => j.plan.fail_all,
			"fail" => J::Arr(j.plan.fail.iter().map(|n| J::from(*n)).collect())});
		blobs.push(b);
	}
	let head = obj! {"jobs" => J::Arr(heads)};
	let got = HOST.with(|h| {
		let mut h = h.borrow_mut();
		let r = h.get_or_insert_with(start).ask(&head, &blobs);
		if r.is_err() {
			*h = None;
		}
		r
	});
	let (j, mut out) = match got {
		Ok(g) => g,
		Err(e) => {
			ctx.fail("host-died", format!("the JavaScript host ended: {e}"));
			return;
		}
	};
	let mut shared: Vec<Vec<u32>> = vec![];
	let mut digest = Hash64::default();
	for (i, w) in want.iter().enumerate() {
		ctx.account(w);
		if matches!(w.res, Res::Panic(_)) || w.over_budget() {
			ctx.count("skipped:the native library panicked", 1);
			return;
		}
		let Some(r) = j.get("results").arr().get(i) else { return };
		let n = r.get("len").u64() as usize;
		let rest = out.split_off(n.min(out.len()));
		let mine = std::mem::replace(&mut out, rest);
		let (is, text) = (r.get("is").str(), r.get("text").str());
		digest.bytes(is.as_bytes());
		digest.bytes(text.as_bytes());
		digest.bytes(&mine);
		ctx.count(&format!("result:in WebAssembly: {is}"), 1);
		ctx.count("judged:bytes written in WebAssembly", mine.len() as u64);
		ctx.count("fault:crypto.getRandomValues throws", r.get("failed").u64());
		if w.used.entropy_calls != r.get("calls").u64() {
			ctx.count("tolerated:other number of entropy requests", 1);
		}
		let what = format!("remux {i} in WebAssembly");
		match (&w.res, is) {
			(_, "trap") => ctx.fail("trap", format!("{what} ends with a trap ({text}) instead of: {}", w.res.brief())),
			(Res::Ok, "ok") => {
				let random = w.used.entropy_failed > 0;
				let (a, b) = (super::threads::masked(&w.out), super::threads::masked(&mine));
				if if random { a.0 != b.0 } else { w.out != mine } {
					let at = w.out.iter().zip(&mine).position(|(a, b)| a != b).unwrap_or(mine.len().min(w.out.len()));
					ctx.fail("bytes", format!("{what} writes {} bytes, natively {}; they differ at byte {at}", mine.len(), w.out.len()));
				} else if random {
					if let Err(e) = ogg::strict_streams(&mine) {
						ctx.fail("malformed", format!("{what}: {e}"));
					}
					if !b.1.is_empty() && shared.contains(&b.1) {
						ctx.fail("repeated", format!("{what}: the serials {:x?} were given out before", b.1));
					}
					shared.push(b.1);
				}
			}
			(Res::Err(e), "error") if e.text == text => (),
			_ => ctx.fail("result", format!("{what} ends with {is} {text}, natively: {}", w.res.brief()))
		}
		if !ctx.viols.is_empty() {
			return;
		}
	}
	if !j.get("trap").str().is_empty() {
		ctx.fail("trap", format!("freeing the remuxers in WebAssembly: {}", j.get("trap").str()));
	}
	ctx.state(digest.0);
	ctx.st.digest.u64(digest.0);
}
