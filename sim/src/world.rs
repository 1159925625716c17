//! Seams for what the code under test takes from its process: entropy, the clock, logging,
//! and, for threads that the scheduler manages, every point at which another thread may run.

use simcore::rng::{Hash64, Rng, mix};
use std::{
	cell::{Cell, RefCell},
	sync::atomic::{AtomicU64, Ordering::SeqCst}
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Y {
	Io,
	Entropy,
	Clock,
	Log,
	Mangler,
	/// A source has nothing left to give.
	End
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
	pub seed: u64,
	/// Entropy calls that fail: all of them, or those with the given numbers.
	pub fail_all: bool,
	pub fail: Vec<u64>,
	/// Realtime clock, in nanoseconds since the epoch, and how it moves between readings.
	pub clock: i128,
	pub step: i64
}

#[derive(Clone, Debug, Default)]
pub struct Used {
	pub entropy_calls: u64,
	pub entropy_failed: u64,
	pub clock_reads: u64,
	pub sim_ns: i128,
	pub log_records: u64,
	pub log: Hash64,
	pub drawn: Vec<Vec<u8>>
}

struct State {
	plan: Plan,
	used: Used,
	rng: Rng,
	clock: i128
}

thread_local! {
	/// One for each remux that is going on in this thread; the last one is the innermost.
	static STATE: RefCell<Vec<State>> = const { RefCell::new(Vec::new()) };
	static YIELD: Cell<Option<fn(Y)>> = const { Cell::new(None) };
	static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

/// Readings of the realtime clock and entropy requests outside of any simulated world.
pub static STRAY_ENTROPY: AtomicU64 = AtomicU64::new(0);

pub fn set_yield(f: Option<fn(Y)>) {
	YIELD.with(|y| y.set(f));
}
#[inline]
pub fn yield_point(y: Y) {
	if let Ok(Some(f)) = YIELD.try_with(|f| f.get()) {
		f(y);
	}
}

/// Installs a plan for the calling thread.
pub fn enter(plan: Plan) {
	let rng = Rng::new(mix(plan.seed ^ 0x0E17));
	let clock = plan.clock;
	STATE.with(|s| s.borrow_mut().push(State { plan, used: Used::default(), rng, clock }));
	IN_SIM.with(|s| s.set(true));
}
/// Removes the plan and returns what was used of it.
pub fn leave() -> Used {
	STATE.with(|s| {
		let mut s = s.borrow_mut();
		let last = s.pop();
		IN_SIM.with(|i| i.set(!s.is_empty()));
		last.map(|s| s.used).unwrap_or_default()
	})
}

/// Whatever a panic may have left behind.
pub fn reset() {
	STATE.with(|s| s.borrow_mut().clear());
	IN_SIM.with(|s| s.set(false));
}

#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
	yield_point(Y::Entropy);
	let r = STATE.with(|s| {
		let mut s = s.borrow_mut();
		let Some(s) = s.last_mut() else {
			STRAY_ENTROPY.fetch_add(1, SeqCst);
			return Some(vec![0x42; len]);
		};
		let n = s.used.entropy_calls;
		s.used.entropy_calls += 1;
		s.used.log.u64(0xE0 ^ len as u64);
		if s.plan.fail_all || s.plan.fail.contains(&n) {
			s.used.entropy_failed += 1;
			return None;
		}
		let b = s.rng.bytes(len);
		s.used.drawn.push(b.clone());
		Some(b)
	});
	match r {
		Some(b) => {
			unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), dest, len) };
			Ok(())
		}
		None => Err(getrandom::Error::new_custom(7))
	}
}

#[repr(C)]
pub struct Timespec {
	sec: i64,
	nsec: i64
}

/// Raw system call, past the seams below.
pub fn raw_syscall(n: i64, a: [i64; 6]) -> i64 {
	let ret: i64;
	unsafe {
		std::arch::asm!("syscall", inlateout("rax") n => ret, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
			in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
	}
	ret
}

/// The clock every `SystemTime` and `Instant` of this program reads.
///
/// # Safety
/// Called by the C ABI with a valid pointer.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
	if clk == 0 && IN_SIM.try_with(|s| s.get()).unwrap_or(false) {
		yield_point(Y::Clock);
		let now = STATE.with(|s| {
			let mut s = s.borrow_mut();
			let s = s.last_mut().unwrap();
			s.used.clock_reads += 1;
			s.used.log.u64(0xC0);
			s.clock += s.plan.step as i128;
			s.used.sim_ns += (s.plan.step as i128).abs();
			s.clock
		});
		unsafe {
			(*ts).sec = now.div_euclid(1_000_000_000) as i64;
			(*ts).nsec = now.rem_euclid(1_000_000_000) as i64;
		}
		return 0;
	}
	let r = raw_syscall(228, [clk as i64, ts as i64, 0, 0, 0, 0]);
	if r < 0 { -1 } else { 0 }
}

struct Logger;
impl log::Log for Logger {
	fn enabled(&self, _: &log::Metadata) -> bool {
		IN_SIM.try_with(|s| s.get()).unwrap_or(false)
	}
	fn log(&self, r: &log::Record) {
		if !self.enabled(r.metadata()) {
			return;
		}
		yield_point(Y::Log);
		STATE.with(|s| {
			if let Some(s) = s.borrow_mut().last_mut() {
				s.used.log_records += 1;
			}
		});
	}
	fn flush(&self) {}
}
static LOGGER: Logger = Logger;
pub fn install_logger(level: log::LevelFilter) {
	let _ = log::set_logger(&LOGGER);
	log::set_max_level(level);
}
