//! The simulated source and sink: the only I/O the library sees. Delivery sizes,
//! interruptions and failures follow a plan that is part of the scenario.

use crate::world;
use simcore::{
	json::J,
	rng::{Hash64, Rng, mix}
};
use std::{
	cell::Cell,
	fmt,
	io::{self, ErrorKind, Read, Seek, SeekFrom, Write},
	sync::{
		Arc,
		atomic::{AtomicU64, Ordering::SeqCst}
	}
};

/// Carried by every injected failure, so that it can be recognised in what comes back.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SimFault(pub u64);
impl fmt::Display for SimFault {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "simulated failure #{}", self.0)
	}
}
impl std::error::Error for SimFault {}

pub const KINDS: [(&str, ErrorKind); 26] = [
	("other", ErrorKind::Other),
	("permission-denied", ErrorKind::PermissionDenied),
	("broken-pipe", ErrorKind::BrokenPipe),
	("would-block", ErrorKind::WouldBlock),
	("timed-out", ErrorKind::TimedOut),
	("invalid-data", ErrorKind::InvalidData),
	("invalid-input", ErrorKind::InvalidInput),
	("storage-full", ErrorKind::StorageFull),
	("out-of-memory", ErrorKind::OutOfMemory),
	("not-found", ErrorKind::NotFound),
	("write-zero", ErrorKind::WriteZero),
	("connection-reset", ErrorKind::ConnectionReset),
	("unexpected-eof", ErrorKind::UnexpectedEof),
	("already-exists", ErrorKind::AlreadyExists),
	("connection-aborted", ErrorKind::ConnectionAborted),
	("connection-refused", ErrorKind::ConnectionRefused),
	("not-connected", ErrorKind::NotConnected),
	("host-unreachable", ErrorKind::HostUnreachable),
	("unsupported", ErrorKind::Unsupported),
	("is-a-directory", ErrorKind::IsADirectory),
	("read-only", ErrorKind::ReadOnlyFilesystem),
	("stale-file-handle", ErrorKind::StaleNetworkFileHandle),
	("not-seekable", ErrorKind::NotSeekable),
	("quota-exceeded", ErrorKind::QuotaExceeded),
	("file-too-large", ErrorKind::FileTooLarge),
	("resource-busy", ErrorKind::ResourceBusy)
];

/// How bytes are delivered.
#[derive(Clone, Copy, Debug)]
pub struct Flow {
	/// 0: everything asked for; 1: one byte; 2: up to `max` bytes; 3: mostly everything
	pub mode: u8,
	pub max: usize,
	pub seed: u64,
	/// One in this many operations is interrupted first (0: never).
	pub intr: u64
}
impl Flow {
	pub const ALL: Flow = Flow { mode: 0, max: 0, seed: 0, intr: 0 };
	pub fn from(j: &J) -> Flow {
		Flow {
			mode: j.num("mode", 0, 0, 3) as u8,
			max: j.num("max", 7, 1, 1 << 20) as usize,
			seed: j.num("seed", 0, 0, i64::MAX) as u64,
			intr: j.num("intr", 0, 0, 1 << 20) as u64
		}
	}
	fn size(&self, r: &mut Rng, want: usize) -> usize {
		if want == 0 {
			return 0;
		}
		match self.mode {
			1 => 1,
			2 => 1 + r.below(want.min(self.max) as u64) as usize,
			3 if r.chance(1, 8) => 1 + r.below(want as u64) as usize,
			_ => want
		}
		.min(want)
	}
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
	/// Operation number, from zero, per endpoint.
	pub op: u64,
	/// Index into `KINDS`; 100: interruption that goes away; 101: a write that makes no progress.
	/// 128 more than an index: the failure stays, every operation after it fails likewise.
	pub kind: u8
}
pub const INTERRUPTED: u8 = 100;
pub const NO_PROGRESS: u8 = 101;
pub const STAYS: u8 = 128;
pub fn kind(k: u8) -> (&'static str, ErrorKind) {
	KINDS[(k & !STAYS) as usize % KINDS.len()]
}
impl Fault {
	fn at(&self, op: u64) -> bool {
		self.op == op || self.kind & STAYS != 0 && self.op < op
	}
}

#[derive(Clone, Debug, Default)]
pub struct EndStats {
	pub ops: u64,
	pub short: u64,
	pub interrupted: u64,
	pub bytes: u64,
	pub failed: Option<(u64, u8)>,
	/// Operations issued after an injected failure.
	pub after: u64,
	pub seeks: u64,
	pub flushes: u64,
	pub log: Hash64,
	pub over_budget: bool
}
thread_local! {
	/// Whether either endpoint of the remux on this thread has failed for good.
	static FAILED: Cell<bool> = const { Cell::new(false) };
}
pub fn reset_failed() {
	FAILED.with(|f| f.set(false));
}
pub fn failed() -> bool {
	FAILED.with(|f| f.get())
}
impl EndStats {
	fn begin(&mut self, what: u64, n: u64, budget: u64) {
		self.ops += 1;
		self.log.u64(what << 56 ^ n);
		if FAILED.with(|f| f.get()) {
			self.after += 1;
		}
		if self.ops > budget {
			self.over_budget = true;
			if self.ops > budget * 2 + 1000 {
				panic!("{}", BUDGET_PANIC);
			}
		}
	}
}
pub const BUDGET_PANIC: &str = "simulated I/O budget exhausted";

pub struct Src {
	pub data: Arc<Vec<u8>>,
	/// What the source holds from the second rewind on, if that differs.
	pub second: Option<Arc<Vec<u8>>>,
	/// Switch to `second` at this operation instead of at the rewind.
	pub switch_at: Option<u64>,
	pub pos: u64,
	pub flow: Flow,
	pub faults: Vec<Fault>,
	pub rng: Rng,
	pub st: EndStats,
	pub budget: u64,
	/// Where the data starts in the source; nothing can be read in front of it.
	pub far: u64,
	pub intr_pending: bool,
	pub switched: bool,
	pub reads_before_rewind: u64,
	/// How many sources of this process were rewound before this one was.
	pub rewound: u64,
	/// Called before every operation with the operation number.
	pub boundary: Option<Boundary>
}
static REWINDS: AtomicU64 = AtomicU64::new(0);
pub type Boundary = Arc<dyn Fn(u64) + Send + Sync>;

impl Src {
	pub fn new(data: Arc<Vec<u8>>, base: u64, flow: Flow, faults: Vec<Fault>) -> Src {
		let budget = 4000 + data.len() as u64 * if flow.mode == 0 { 8 } else { 24 };
		Src {
			data,
			second: None,
			switch_at: None,
			pos: base,
			far: 0,
			rng: Rng::new(mix(flow.seed ^ 0x5151)),
			flow,
			faults,
			st: EndStats::default(),
			budget,
			intr_pending: false,
			switched: false,
			reads_before_rewind: 0,
			rewound: u64::MAX,
			boundary: None
		}
	}
	fn op(&mut self, what: u64, n: u64) -> io::Result<()> {
		let op = self.st.ops;
		self.st.begin(what, n, self.budget);
		if let Some(b) = &self.boundary {
			b(op);
		}
		world::yield_point(world::Y::Io);
		if self.switch_at == Some(op) {
			self.switch();
		}
		for f in &self.faults {
			if f.at(op) && f.kind != NO_PROGRESS {
				if f.kind == INTERRUPTED {
					self.st.interrupted += 1;
					return Err(io::Error::new(ErrorKind::Interrupted, SimFault(op)));
				}
				let k = kind(f.kind).1;
				self.st.failed.get_or_insert((op, f.kind));
				FAILED.with(|f| f.set(true));
				return Err(io::Error::new(k, SimFault(op)));
			}
		}
		Ok(())
	}
	fn switch(&mut self) {
		if let Some(s) = self.second.take() {
			self.data = s;
			self.switched = true;
		}
	}
}
impl Read for Src {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		self.op(1, buf.len() as u64)?;
		if self.pos < self.far {
			return Err(io::Error::new(ErrorKind::Other, "read in front of the data"));
		}
		let left = (self.data.len() as u64).saturating_sub(self.pos - self.far) as usize;
		let want = buf.len().min(left);
		if self.flow.intr > 0 && !self.intr_pending && self.rng.chance(1, self.flow.intr) {
			self.intr_pending = true;
			self.st.interrupted += 1;
			return Err(io::Error::new(ErrorKind::Interrupted, SimFault(u64::MAX)));
		}
		self.intr_pending = false;
		let n = self.flow.size(&mut self.rng, want);
		if n < want {
			self.st.short += 1;
		}
		let p = (self.pos - self.far) as usize;
		if n > 0 {
			buf[..n].copy_from_slice(&self.data[p..p + n]);
		}
		self.pos += n as u64;
		self.st.bytes += n as u64;
		self.st.log.u64(n as u64);
		if n == 0 && !buf.is_empty() {
			world::yield_point(world::Y::End);
		}
		Ok(n)
	}
}
impl Seek for Src {
	fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
		self.op(2, 0)?;
		self.st.seeks += 1;
		let len = self.far as i128 + self.data.len() as i128;
		let target = match to {
			SeekFrom::Start(p) => p as i128,
			SeekFrom::End(d) => len + d as i128,
			SeekFrom::Current(d) => self.pos as i128 + d as i128
		};
		if target < 0 || target > i64::MAX as i128 {
			return Err(io::Error::new(ErrorKind::InvalidInput, "seek out of range"));
		}
		if target as u64 != self.pos && self.switch_at.is_none() {
			self.reads_before_rewind = self.st.ops;
			self.rewound = REWINDS.fetch_add(1, SeqCst);
			self.switch();
		}
		self.pos = target as u64;
		self.st.log.u64(self.pos);
		Ok(self.pos)
	}
}

pub struct Sink {
	pub out: Vec<u8>,
	pub flow: Flow,
	pub faults: Vec<Fault>,
	pub rng: Rng,
	pub st: EndStats,
	pub budget: u64,
	pub intr_pending: bool,
	/// Something else to do at the operation with this number.
	pub hook: Option<(u64, Box<dyn FnOnce()>)>
}
impl Sink {
	pub fn new(flow: Flow, faults: Vec<Fault>, budget: u64) -> Sink {
		Sink {
			out: vec![],
			rng: Rng::new(mix(flow.seed ^ 0xACAC)),
			flow,
			faults,
			st: EndStats::default(),
			budget,
			intr_pending: false,
			hook: None
		}
	}
	fn op(&mut self, what: u64, n: u64) -> io::Result<Option<usize>> {
		let op = self.st.ops;
		self.st.begin(what, n, self.budget);
		if let Some((_, h)) = self.hook.take_if(|(n, _)| *n == op) {
			let f = failed();
			h();
			FAILED.with(|x| x.set(f));
		}
		world::yield_point(world::Y::Io);
		for f in &self.faults {
			if f.at(op) {
				if f.kind == INTERRUPTED {
					self.st.interrupted += 1;
					return Err(io::Error::new(ErrorKind::Interrupted, SimFault(op)));
				}
				self.st.failed.get_or_insert((op, f.kind));
				FAILED.with(|f| f.set(true));
				if f.kind == NO_PROGRESS && what == 3 {
					return Ok(Some(0));
				}
				let k = kind(f.kind).1;
				return Err(io::Error::new(k, SimFault(op)));
			}
		}
		Ok(None)
	}
}
impl Write for Sink {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		if let Some(n) = self.op(3, buf.len() as u64)? {
			return Ok(n);
		}
		if self.flow.intr > 0 && !self.intr_pending && self.rng.chance(1, self.flow.intr) {
			self.intr_pending = true;
			self.st.interrupted += 1;
			return Err(io::Error::new(ErrorKind::Interrupted, SimFault(u64::MAX)));
		}
		self.intr_pending = false;
		let n = self.flow.size(&mut self.rng, buf.len());
		if n < buf.len() {
			self.st.short += 1;
		}
		self.out.extend_from_slice(&buf[..n]);
		self.st.bytes += n as u64;
		self.st.log.u64(n as u64);
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		self.st.flushes += 1;
		self.op(4, 0)?;
		Ok(())
	}
}
