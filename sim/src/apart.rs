//! Runs a part of a scenario in a fresh copy of this process, so that what the code under
//! test keeps for the lifetime of a process starts anew.

use crate::{
	io::EndStats,
	run::{ErrInfo, Outcome, Res},
	sched,
	world::{Used, raw_syscall}
};
use simcore::rng::Hash64;
use std::sync::atomic::Ordering::SeqCst;

unsafe extern "C" {
	fn fork() -> i32;
	fn pipe2(fds: *mut i32, flags: i32) -> i32;
	fn waitpid(pid: i32, st: *mut i32, flags: i32) -> i32;
	fn close(fd: i32) -> i32;
	fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Gone {
	/// Every thread waits for another one.
	Deadlock,
	/// No end within the budget of operations.
	Endless,
	Died(String)
}

/// What `f` returns, computed in a child process. `f` is given a descriptor for bad news.
pub fn forked(f: impl FnOnce(i32) -> Vec<u8>) -> Result<Vec<u8>, Gone> {
	let mut fds = [0i32; 2];
	unsafe {
		assert!(pipe2(fds.as_mut_ptr(), 0o2000000) == 0, "no pipe");
		let pid = fork();
		assert!(pid >= 0, "no process");
		if pid == 0 {
			close(fds[0]);
			sched::APART.store(true, SeqCst);
			setrlimit(0, &[20, 25]);
			setrlimit(4, &[0, 0]);
			let v = f(fds[1]);
			let mut at = 0;
			while at < v.len() {
				let n = raw_syscall(1, [fds[1] as i64, v[at..].as_ptr() as i64, (v.len() - at) as i64, 0, 0, 0]);
				if n <= 0 {
					break;
				}
				at += n as usize;
			}
			raw_syscall(231, [0; 6]);
			unreachable!();
		}
		close(fds[1]);
		let mut v = vec![];
		let mut buf = [0u8; 65536];
		loop {
			let n = raw_syscall(0, [fds[0] as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0]);
			if n <= 0 {
				break;
			}
			v.extend_from_slice(&buf[..n as usize]);
		}
		close(fds[0]);
		let mut st = 0;
		while waitpid(pid, &mut st, 0) < 0 {}
		if st & 0x7f != 0 {
			return Err(if st & 0x7f == 24 { Gone::Endless } else { Gone::Died(format!("signal {}", st & 0x7f)) });
		}
		match v[..] {
			[b'!', sched::DEADLOCK] => Err(Gone::Deadlock),
			[b'!', ..] => Err(Gone::Endless),
			[b'=', ..] => Ok(v[1..].to_vec()),
			_ => Err(Gone::Died(format!("status {:x}, {} bytes", st, v.len())))
		}
	}
}

#[derive(Default)]
pub struct Enc(pub Vec<u8>);
impl Enc {
	pub fn new() -> Enc {
		Enc(vec![b'='])
	}
	pub fn n(&mut self, n: u64) {
		self.0.extend(n.to_le_bytes());
	}
	pub fn b(&mut self, b: &[u8]) {
		self.n(b.len() as u64);
		self.0.extend_from_slice(b);
	}
	fn end(&mut self, e: &EndStats) {
		for n in [e.ops, e.short, e.interrupted, e.bytes, e.after, e.seeks, e.flushes, e.log.0, e.over_budget as u64] {
			self.n(n);
		}
		match e.failed {
			None => self.n(0),
			Some((a, b)) => {
				self.n(1);
				self.n(a);
				self.n(b as u64);
			}
		}
	}
	pub fn outcome(&mut self, o: &Outcome) {
		match &o.res {
			Res::Ok => self.n(0),
			Res::Panic(m) => {
				self.n(1);
				self.b(m.as_bytes());
			}
			Res::Err(e) => {
				self.n(2);
				self.b(e.kind.as_bytes());
				self.b(e.text.as_bytes());
				self.n(e.fault.is_some() as u64);
				self.n(e.fault.unwrap_or(0));
			}
		}
		self.b(&o.out);
		self.end(&o.src);
		self.end(&o.sink);
		for n in [o.first_ops, o.rewound, o.used.entropy_calls, o.used.entropy_failed, o.used.clock_reads, o.used.sim_ns as u64, (o.used.sim_ns >> 64) as u64, o.used.log_records, o.used.log.0] {
			self.n(n);
		}
	}
}
pub struct Dec<'a>(pub &'a [u8]);
const KINDS: [&str; 8] = ["ogg-io", "ogg", "optimizer-io", "optimizer", "multiplex", "no-vorbis", "epoch", "io"];
impl Dec<'_> {
	pub fn n(&mut self) -> u64 {
		let (a, b) = self.0.split_at(8);
		self.0 = b;
		u64::from_le_bytes(a.try_into().unwrap())
	}
	pub fn b(&mut self) -> Vec<u8> {
		let n = self.n() as usize;
		let (a, b) = self.0.split_at(n);
		self.0 = b;
		a.to_vec()
	}
	fn s(&mut self) -> String {
		String::from_utf8_lossy(&self.b()).into_owned()
	}
	fn end(&mut self) -> EndStats {
		let mut e = EndStats {
			ops: self.n(),
			short: self.n(),
			interrupted: self.n(),
			bytes: self.n(),
			after: self.n(),
			seeks: self.n(),
			flushes: self.n(),
			..Default::default()
		};
		e.log = Hash64(self.n());
		e.over_budget = self.n() != 0;
		if self.n() != 0 {
			e.failed = Some((self.n(), self.n() as u8));
		}
		e
	}
	pub fn outcome(&mut self) -> Outcome {
		let res = match self.n() {
			0 => Res::Ok,
			1 => Res::Panic(self.s()),
			_ => {
				let k = self.s();
				let text = self.s();
				let has = self.n() != 0;
				let f = self.n();
				Res::Err(ErrInfo { kind: KINDS.iter().find(|x| **x == k).copied().unwrap_or("unknown"), text, fault: has.then_some(f) })
			}
		};
		let out = self.b();
		let (src, sink) = (self.end(), self.end());
		let (first_ops, rewound) = (self.n(), self.n());
		let mut used = Used { entropy_calls: self.n(), entropy_failed: self.n(), clock_reads: self.n(), ..Default::default() };
		let lo = self.n();
		used.sim_ns = lo as i128 | (self.n() as i128) << 64;
		used.log_records = self.n();
		used.log = Hash64(self.n());
		Outcome { res, out, src, sink, used, first_ops, rewound }
	}
}
