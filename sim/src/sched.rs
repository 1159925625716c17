//! Real threads, one of which runs at a time. Which one that is changes only where the plan
//! says so: at I/O, entropy, clock, log and lock operations, and, in a window around the place
//! where the remuxers draw their serials, or after any other opportunity of the plan's choice,
//! after any single machine instruction; or after any access to what the library keeps for the
//! lifetime of the process.

use crate::world::{self, Y, raw_syscall};
use simcore::{json::J, rng::Hash64};
use std::{
	cell::{Cell, UnsafeCell},
	sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, Ordering::SeqCst}
};

pub const MAX: usize = 6;
/// At most so many instructions are stepped through around the draw, and anywhere else.
const STEPS: [u64; 2] = [1_000_000, 12_000];
/// Accesses to statics that a thread may make: at all, and in a row.
const TOUCHES_LIMIT: u64 = 20_000_000;
const STREAK: u64 = 2000;

#[derive(Clone, Debug, Default)]
pub struct Spec {
	/// Let the next thread run at every so manyeth opportunity (0: never).
	pub every: u64,
	/// For each thread: opportunities at which another thread is to run.
	pub pre: Vec<Vec<(u64, u8)>>,
	/// The same, for instructions. Empty: instructions are not stepped through.
	pub steps: Vec<Vec<(u64, u8)>>,
	pub stepping: bool,
	/// For each thread: the opportunity after which its instructions are stepped through, up to
	/// its next I/O. None: after its first pass.
	pub from: Vec<u64>,
	/// For each thread: accesses to statics of the library after which another thread is to run.
	pub touch: Vec<Vec<(u64, u8)>>,
	/// Let the next thread run at every so manyeth access of a thread (0: never).
	pub every_touch: u64,
	/// Notice accesses to statics of the library.
	pub watch: bool,
	/// Waiting threads may be run although nobody woke them.
	pub spurious: bool
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
	Ready,
	/// Waits for the word at this address, possibly not forever.
	Waits(usize, bool),
	Done
}
struct Inner {
	n: usize,
	state: [T; MAX],
	timed_out: [bool; MAX],
	yields: [u64; MAX],
	stepped: [u64; MAX],
	touched: [u64; MAX],
	/// Accesses to statics since the last operation of any other kind.
	streak: u64,
	next_pre: [usize; MAX],
	next_step: [usize; MAX],
	next_touch: [usize; MAX],
	spec: Spec,
	total: u64,
	limit: u64,
	switches: u64,
	waits: u64,
	wakes: u64,
	forced: u64,
	trace: Hash64
}
struct Sched {
	turn: AtomicU32,
	inner: UnsafeCell<Inner>
}
unsafe impl Sync for Sched {}

static SCHED: AtomicPtr<Sched> = AtomicPtr::new(std::ptr::null_mut());
/// Where news of a schedule that cannot go on is written.
static OUT: AtomicU32 = AtomicU32::new(u32::MAX);
static TEXT: [AtomicPtr<u8>; 2] = [const { AtomicPtr::new(std::ptr::null_mut()) }; 2];

thread_local! {
	static ME: Cell<u32> = const { Cell::new(u32::MAX) };
	/// The scheduler itself is at work in this thread.
	static BUSY: Cell<bool> = const { Cell::new(false) };
	static STEPPING: Cell<bool> = const { Cell::new(false) };
	/// Instructions that are yet to be stepped through.
	static LEFT: Cell<u64> = const { Cell::new(0) };
	static ENDS: Cell<u32> = const { Cell::new(0) };
	/// The instruction at hand accesses a static of the library.
	static TOUCHES: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Debug, Default)]
pub struct Report {
	pub yields: [u64; MAX],
	pub stepped: [u64; MAX],
	pub touched: [u64; MAX],
	pub total: u64,
	pub switches: u64,
	pub waits: u64,
	pub wakes: u64,
	pub forced: u64,
	pub trace: u64
}

fn me() -> Option<usize> {
	let m = ME.with(|m| m.get());
	(m != u32::MAX).then_some(m as usize)
}
fn sched() -> &'static Sched {
	unsafe { &*SCHED.load(SeqCst) }
}
/// Only the thread whose turn it is may touch this.
#[allow(clippy::mut_from_ref)]
fn inner() -> &'static mut Inner {
	unsafe { &mut *sched().inner.get() }
}

/// Ends this process: the threads cannot go on.
fn give_up(class: u8) -> ! {
	let m = [b'!', class];
	raw_syscall(1, [OUT.load(SeqCst) as i64, m.as_ptr() as i64, 2, 0, 0, 0]);
	raw_syscall(231, [0; 6]);
	loop {}
}
pub const DEADLOCK: u8 = 1;
pub const ENDLESS: u8 = 2;

fn pass(to: usize) {
	let s = sched();
	s.turn.store(to as u32, SeqCst);
	raw_syscall(202, [s.turn.as_ptr() as i64, 1 | 128, i32::MAX as i64, 0, 0, 0]);
}
fn wait_turn(me: usize) {
	let s = sched();
	loop {
		let t = s.turn.load(SeqCst);
		if t == me as u32 {
			return;
		}
		raw_syscall(202, [s.turn.as_ptr() as i64, 128, t as i64, 0, 0, 0]);
	}
}
/// The thread to run: `want`, or the one after it that can run.
fn pick(i: &mut Inner, want: usize) -> Option<usize> {
	for k in 0..i.n {
		let t = (want + k) % i.n;
		match i.state[t] {
			T::Ready => return Some(t),
			T::Waits(..) if i.spec.spurious && k == 0 => {
				i.forced += 1;
				i.state[t] = T::Ready;
				return Some(t);
			}
			_ => ()
		}
	}
	None
}
fn switch(i: &mut Inner, from: usize, to: usize) {
	i.switches += 1;
	i.trace.u64((from as u64) << 8 ^ to as u64 ^ i.total << 16);
	pass(to);
	wait_turn(from);
}

/// A point at which another thread may run.
fn opportunity(y: Y) {
	let Some(m) = me() else { return };
	match y {
		Y::End => {
			// The first pass is over; what comes next is the draw
			let n = ENDS.with(|e| e.replace(e.get() + 1));
			if n == 0 && inner().spec.stepping && inner().spec.from.is_empty() {
				start_stepping(STEPS[0]);
			}
			return;
		}
		Y::Io => STEPPING.with(|s| s.set(false)),
		_ => ()
	}
	BUSY.with(|b| b.set(true));
	let i = inner();
	let at = i.yields[m];
	i.yields[m] += 1;
	i.streak = 0;
	i.total += 1;
	if i.total > i.limit {
		give_up(ENDLESS);
	}
	let mut want = None;
	let list = &i.spec.pre[m];
	while i.next_pre[m] < list.len() && list[i.next_pre[m]].0 <= at {
		if list[i.next_pre[m]].0 == at {
			want = Some(list[i.next_pre[m]].1 as usize);
		}
		i.next_pre[m] += 1;
	}
	if want.is_none() && i.spec.every > 0 && i.total % i.spec.every == 0 {
		want = Some(m + 1);
	}
	if let Some(t) = want.and_then(|w| pick(i, w % i.n)) {
		if t != m {
			switch(i, m, t);
		}
	}
	let step = i.spec.stepping && i.spec.from.get(m) == Some(&at);
	BUSY.with(|b| b.set(false));
	if step {
		start_stepping(STEPS[1]);
	}
}

/// A new remux begins in this thread.
pub fn next_job() -> u32 {
	ENDS.with(|e| e.replace(0))
}
pub fn back_to(ends: u32) {
	ENDS.with(|e| e.set(ends));
}

fn start_stepping(most: u64) {
	LEFT.with(|l| l.set(most));
	STEPPING.with(|s| s.set(true));
	unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}

#[repr(C)]
struct SigAction {
	handler: usize,
	mask: [u64; 16],
	flags: i32,
	restorer: usize
}
unsafe extern "C" {
	fn sigaction(sig: i32, a: *const SigAction, old: *mut SigAction) -> i32;
	fn __errno_location() -> *mut i32;
	static __executable_start: u8;
	static __watched_start: u8;
	static __watched_end: u8;
	static etext: u8;
}

/// Whether the statics of the library can be accessed.
fn protect(on: bool) {
	let (a, b) = (&raw const __watched_start as usize, &raw const __watched_end as usize);
	if a < b {
		raw_syscall(10, [a as i64, (b - a) as i64, if on { 0 } else { 3 }, 0, 0, 0]);
	}
}
/// An access to a static of the library: let it happen, then see.
unsafe extern "C" fn on_touch(sig: i32, info: *const u64, uc: *mut u64) {
	let addr = unsafe { *info.add(2) };
	if addr < &raw const __watched_start as u64 || addr >= &raw const __watched_end as u64 {
		// Anything else is what it always was
		let a = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
		unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
		return;
	}
	protect(false);
	TOUCHES.with(|t| t.set(true));
	unsafe { *uc.add(5 + 17) |= 0x100 };
}
/// The access took place.
fn touched() {
	protect(true);
	let Some(m) = me() else { return };
	if BUSY.with(|b| b.get()) {
		return;
	}
	let i = inner();
	let at = i.touched[m];
	i.touched[m] += 1;
	i.streak += 1;
	if at > TOUCHES_LIMIT {
		give_up(ENDLESS);
	}
	let list = &i.spec.touch[m];
	let mut want = None;
	while i.next_touch[m] < list.len() && list[i.next_touch[m]].0 <= at {
		if list[i.next_touch[m]].0 == at {
			want = Some(list[i.next_touch[m]].1 as usize);
		}
		i.next_touch[m] += 1;
	}
	// It may well be waiting for another one to change what it looks at
	if want.is_none() && (i.streak > STREAK || i.spec.every_touch > 0 && (at + 1) % i.spec.every_touch == 0) {
		want = Some(m + 1);
		i.streak = 0;
	}
	if let Some(w) = want {
		give_way(i, m, w);
	}
}
/// From within a signal handler, which must not show.
fn give_way(i: &mut Inner, m: usize, w: usize) {
	BUSY.with(|b| b.set(true));
	if let Some(t) = pick(i, w % i.n) {
		if t != m {
			let e = unsafe { *__errno_location() };
			switch(i, m, t);
			unsafe { *__errno_location() = e };
		}
	}
	BUSY.with(|b| b.set(false));
}

/// After every instruction of a thread that is stepped through.
unsafe extern "C" fn on_step(_: i32, _: *const u8, uc: *mut u64) {
	// uc_mcontext.gregs starts after uc_flags, uc_link and uc_stack
	let gregs = unsafe { uc.add(5) };
	let (rip, efl) = unsafe { (*gregs.add(16), gregs.add(17)) };
	if TOUCHES.with(|t| t.replace(false)) {
		touched();
		if !STEPPING.with(|s| s.get()) {
			unsafe { *efl &= !0x100 };
			return;
		}
	}
	let left = LEFT.with(|l| l.replace(l.get().saturating_sub(1)));
	if left == 0 || !STEPPING.with(|s| s.get()) {
		STEPPING.with(|s| s.set(false));
		unsafe { *efl &= !0x100 };
		return;
	}
	let inside = rip >= TEXT[0].load(SeqCst) as u64 && rip < TEXT[1].load(SeqCst) as u64;
	// Code of the C library may hold locks of its own
	if !inside || BUSY.with(|b| b.get()) {
		return;
	}
	let Some(m) = me() else { return };
	let i = inner();
	let at = i.stepped[m];
	i.stepped[m] += 1;
	let list = &i.spec.steps[m];
	let mut want = None;
	while i.next_step[m] < list.len() && list[i.next_step[m]].0 <= at {
		if list[i.next_step[m]].0 == at {
			want = Some(list[i.next_step[m]].1 as usize);
		}
		i.next_step[m] += 1;
	}
	if let Some(w) = want {
		give_way(i, m, w);
	}
}

const EAGAIN: i32 = 11;
const ETIMEDOUT: i32 = 110;

/// Waiting for, and waking up, other threads, as far as managed threads are concerned.
fn futex(m: usize, a: [i64; 6]) -> Result<i64, i32> {
	let word = a[0] as *const AtomicU32;
	let r = match a[1] & 0x7f {
		0 | 9 => {
			let i = inner();
			if unsafe { (*word).load(SeqCst) } != a[2] as u32 {
				return Err(EAGAIN);
			}
			i.waits += 1;
			i.state[m] = T::Waits(word as usize, a[3] != 0);
			i.timed_out[m] = false;
			let mut next = (0..i.n).map(|k| (m + 1 + k) % i.n).find(|t| i.state[*t] == T::Ready);
			if next.is_none() {
				// Time passes when nobody can run
				next = (0..i.n).map(|k| (m + k) % i.n).find(|t| matches!(i.state[*t], T::Waits(_, true)));
				if let Some(t) = next {
					i.state[t] = T::Ready;
					i.timed_out[t] = true;
				}
			}
			let Some(t) = next else { give_up(DEADLOCK) };
			if t != m {
				switch(i, m, t);
			}
			if std::mem::take(&mut i.timed_out[m]) {
				return Err(ETIMEDOUT);
			}
			return Ok(0);
		}
		1 | 10 => {
			let i = inner();
			let mut left = a[2] as i32;
			let mut woken = 0;
			for k in 0..i.n {
				let t = (m + 1 + k) % i.n;
				if left > 0 && matches!(i.state[t], T::Waits(w, _) if w == word as usize) {
					i.state[t] = T::Ready;
					left -= 1;
					woken += 1;
				}
			}
			i.wakes += woken as u64;
			woken
		}
		_ => 0
	};
	// Others, which are not managed, may wait as well
	Ok(raw_syscall(202, a).max(0) + r)
}

/// Every direct system call of this program, which includes those of the standard library.
///
/// # Safety
/// As for the function of the C library it stands in for.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
	let r = if n == 202 && ME.try_with(|m| m.get() != u32::MAX).unwrap_or(false) {
		let m = ME.with(|m| m.get()) as usize;
		BUSY.with(|b| b.set(true));
		let r = futex(m, [a, b, c, d, e, f]);
		BUSY.with(|b| b.set(false));
		r.unwrap_or_else(|e| -e as i64)
	} else {
		raw_syscall(n, [a, b, c, d, e, f])
	};
	if (-4095..0).contains(&r) {
		unsafe { *__errno_location() = -r as i32 };
		return -1;
	}
	r
}
/// Threads that give way, or sleep, let another one run.
///
/// # Safety
/// As for the function of the C library it stands in for.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
	match me() {
		Some(m) => {
			BUSY.with(|b| b.set(true));
			let i = inner();
			i.total += 1;
			if i.total > i.limit {
				give_up(ENDLESS);
			}
			if let Some(t) = pick(i, (m + 1) % i.n) {
				if t != m {
					switch(i, m, t);
				}
			}
			BUSY.with(|b| b.set(false));
		}
		None => {
			raw_syscall(24, [0; 6]);
		}
	}
	0
}

/// The keys of hash maps, and any other entropy that does not pass the seam of the library.
///
/// # Safety
/// As for the function of the C library it stands in for.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
	if APART.load(SeqCst) {
		for k in 0..n {
			unsafe { *buf.add(k) = (k as u8).wrapping_mul(37) ^ 0x5A };
		}
		return n as isize;
	}
	raw_syscall(318, [buf as i64, n as i64, flags as i64, 0, 0, 0]) as isize
}
/// This is a process that was started for one scenario.
pub static APART: AtomicBool = AtomicBool::new(false);

/// Runs the threads to their end. Must be called once, in a process of its own.
pub fn run<O: Send + 'static>(bodies: Vec<Box<dyn FnOnce() -> O + Send>>, spec: Spec, limit: u64, out: i32) -> (Vec<Option<O>>, Report) {
	let n = bodies.len();
	assert!(n <= MAX);
	let mut spec = spec;
	spec.pre.resize(MAX, vec![]);
	spec.steps.resize(MAX, vec![]);
	spec.touch.resize(MAX, vec![]);
	for l in spec.pre.iter_mut().chain(&mut spec.steps).chain(&mut spec.touch) {
		l.sort();
	}
	OUT.store(out as u32, SeqCst);
	{
		TEXT[0].store(&raw const __executable_start as *mut u8, SeqCst);
		TEXT[1].store(&raw const etext as *mut u8, SeqCst);
	}
	let watch = spec.watch;
	if spec.stepping || watch {
		let a = SigAction { handler: on_step as *const () as usize, mask: [0; 16], flags: 4 | 0x1000_0000, restorer: 0 };
		unsafe { sigaction(5, &a, std::ptr::null_mut()) };
	}
	if watch {
		let a = SigAction { handler: on_touch as *const () as usize, mask: [0; 16], flags: 4 | 0x1000_0000, restorer: 0 };
		unsafe { sigaction(11, &a, std::ptr::null_mut()) };
	}
	let s = Box::leak(Box::new(Sched {
		turn: AtomicU32::new(u32::MAX),
		inner: UnsafeCell::new(Inner {
			n,
			state: std::array::from_fn(|i| if i < n { T::Ready } else { T::Done }),
			timed_out: [false; MAX],
			yields: [0; MAX],
			stepped: [0; MAX],
			touched: [0; MAX],
			streak: 0,
			next_pre: [0; MAX],
			next_step: [0; MAX],
			next_touch: [0; MAX],
			spec,
			total: 0,
			limit,
			switches: 0,
			waits: 0,
			wakes: 0,
			forced: 0,
			trace: Hash64::default()
		})
	}));
	SCHED.store(s, SeqCst);
	let handles: Vec<_> = bodies
		.into_iter()
		.enumerate()
		.map(|(k, b)| {
			std::thread::Builder::new()
				.stack_size(16 << 20)
				.spawn(move || {
					wait_turn(k);
					ME.with(|m| m.set(k as u32));
					world::set_yield(Some(opportunity));
					let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)).ok();
					world::set_yield(None);
					STEPPING.with(|s| s.set(false));
					ME.with(|m| m.set(u32::MAX));
					let i = inner();
					i.state[k] = T::Done;
					i.trace.u64(0xD0 ^ k as u64);
					let next = pick(i, (k + 1) % i.n).or_else(|| {
						let t = (0..i.n).find(|t| matches!(i.state[*t], T::Waits(_, true)))?;
						i.state[t] = T::Ready;
						i.timed_out[t] = true;
						Some(t)
					});
					match next {
						Some(t) => pass(t),
						None if i.state.iter().all(|s| *s == T::Done) => pass(MAX),
						None => give_up(DEADLOCK)
					}
					r
				})
				.unwrap()
		})
		.collect();
	if watch {
		protect(true);
	}
	pass(0);
	let r = handles.into_iter().map(|h| h.join().ok().flatten()).collect();
	protect(false);
	let i = inner();
	(r, Report { yields: i.yields, stepped: i.stepped, touched: i.touched, total: i.total, switches: i.switches, waits: i.waits, wakes: i.wakes, forced: i.forced, trace: i.trace.0 })
}

/// Places in ten thousandths, for what is known to have so many.
pub fn places(j: &J, n: usize, counts: &[u64]) -> Vec<Vec<(u64, u8)>> {
	let mut v = vec![vec![]; MAX];
	for p in j.arr() {
		let f = p.arr();
		let g = |i: usize| f.get(i).map_or(0, |x| x.u64());
		let t = (g(0) as usize) % n.max(1);
		let count = counts.get(t).copied().unwrap_or(0);
		v[t].push((g(1).min(9_999) * count / 10_000, (g(2) as usize % n.max(1)) as u8));
	}
	v
}
