//! Turns the input part of a scenario (plain JSON) into the bytes of an Ogg file.
//! Everything is derived from explicit seeds, and every field has a default and a range,
//! so that a shrunk scenario still means something.

use crate::{
	bits::BitW,
	json::J,
	obj,
	ogg::{BOS, EOS, NO_GP, Page, Paginator},
	rng::{Rng, mix},
	vorbis::*
};

/// Features of a generated decoder setup; clearing a bit gives a simpler one.
pub mod feat {
	pub const MODES: u64 = 1;
	pub const COUPLING: u64 = 1 << 1;
	pub const SUBMAPS: u64 = 1 << 2;
	pub const SPARSE: u64 = 1 << 3;
	pub const ORDERED: u64 = 1 << 4;
	pub const LOOKUP2: u64 = 1 << 5;
	pub const SINGLE: u64 = 1 << 6;
	pub const RESTYPES: u64 = 1 << 7;
	pub const CASCADE: u64 = 1 << 8;
	pub const FLOATS: u64 = 1 << 9;
	pub const UNDER: u64 = 1 << 10;
	pub const DEEP: u64 = 1 << 11;
	pub const BIG: u64 = 1 << 12;
	pub const PARTS: u64 = 1 << 13;
	pub const ODD: u64 = 1 << 14;
	pub const MANYBOOKS: u64 = 1 << 15;
	pub const MANYMODES: u64 = 1 << 16;
	pub const SLOPPY: u64 = 1 << 17;
	/// Residue partitions of any small size and residues of a few values.
	pub const FINE: u64 = 1 << 18;
	/// Up to 64 floors, residues and mappings.
	pub const MANYPARTS: u64 = 1 << 19;
	/// Codebooks with more entries than 16 bits can number.
	pub const HUGE: u64 = 1 << 20;
	/// The features that make a setup large.
	pub const MANY: u64 = MANYBOOKS | MANYMODES | MANYPARTS | HUGE;
	pub const ALL: u64 = (1 << 21) - 1;
}

/// Packet kinds.
pub mod pk {
	pub const NORMAL: u8 = 0;
	pub const SILENT: u8 = 1;
	pub const PADDED: u8 = 2;
	pub const CUT: u8 = 3;
	pub const EMPTY: u8 = 4;
	pub const TINY: u8 = 5;
	pub const HALF: u8 = 6;
	pub const WRONG_TYPE: u8 = 7;
	pub const CUT_BIT: u8 = 8;
}

/// Lengths of a random prefix code over `n` entries; complete unless `under`.
pub fn gen_lens(r: &mut Rng, n: usize, deep: bool) -> Vec<u8> {
	if n == 1 {
		return vec![1];
	}
	let mut v: Vec<u8> = vec![0];
	while v.len() < n {
		let i = if deep && r.chance(3, 4) {
			v.len() - 1
		} else {
			r.below(v.len() as u64) as usize
		};
		if v[i] >= 32 && n > 60_000 {
			continue;
		}
		if v[i] >= 32 {
			// Too deep: split the shallowest one instead
			let j = (0..v.len()).min_by_key(|j| v[*j]).unwrap();
			v[j] += 1;
			let l = v[j];
			v.insert(j, l);
			continue;
		}
		v[i] += 1;
		let l = v[i];
		v.push(l);
	}
	r.shuffle(&mut v);
	v
}

fn gen_float(r: &mut Rng, odd: bool) -> u32 {
	if odd {
		match r.below(5) {
			0 => 0,
			1 => 0x8000_0000,
			2 => r.u32(),
			3 => r.u32() & 0x800F_FFFF,
			_ => (r.u32() & 0x801F_FFFF) | ((788 - 20 + r.below(30) as u32) << 21)
		}
	} else {
		let m = 0x10_0000 | (r.u32() & 0xF_FFFF);
		((788 - 20 + r.below(12) as u32) << 21) | m | (r.u32() & 0x8000_0000)
	}
}

struct Books<'a> {
	v: Vec<Book>,
	f: u64,
	r: &'a mut Rng
}
impl Books<'_> {
	fn has(&self, b: u64) -> bool {
		self.f & b != 0
	}
	/// Adds a book with `n` entries and the given dimensions; 0 of them is any number.
	fn add(&mut self, n: usize, dims: u16, vq: bool) -> u8 {
		let any = dims == 0 && self.has(feat::ODD) && self.r.chance(1, 8);
		let dims = if any { 1 + self.r.below(65535) as u16 } else { dims.max(1) };
		let mut n = n.max(1);
		let huge = self.has(feat::HUGE) && (!vq || dims > 1) && self.r.chance(1, 4) && self.v.iter().all(|b| b.lens.len() < 60_000);
		if huge {
			let span = if self.r.chance(1, 2) { 12 } else if self.r.chance(1, 8) { 300_000 } else { 30_000 };
			n = 65_530 + self.r.below(span) as usize;
		}
		if self.has(feat::SINGLE) && !huge && !vq && dims == 1 && self.r.chance(1, 5) {
			n = 1;
		}
		let deep = !huge && self.has(feat::DEEP) && self.r.chance(1, 2);
		let mut lens;
		let mut enc = Enc::Dense;
		if n > 1 && (self.has(feat::SPARSE) || huge) && self.r.chance(1 + huge as u64, 2 + huge as u64) {
			enc = Enc::Sparse;
			let used = 1 + self.r.below(n as u64 - 1).min(200) as usize;
			let code = gen_lens(self.r, used, deep);
			let mut idx: Vec<usize> = (0..n).collect();
			self.r.shuffle(&mut idx);
			let mut idx: Vec<usize> = idx.into_iter().take(used).collect();
			idx.sort_unstable();
			lens = vec![0; n];
			for (i, l) in idx.into_iter().zip(code) {
				lens[i] = l;
			}
		} else {
			lens = gen_lens(self.r, n, deep);
			if huge || self.has(feat::ORDERED) && self.r.chance(1, 3) {
				enc = Enc::Ordered;
				lens.sort_unstable();
			} else if self.has(feat::SPARSE) && self.r.chance(1, 6) {
				enc = Enc::Sparse;
			}
		}
		if n > 1 && self.has(feat::UNDER) && self.r.chance(1, 4) {
			// Make some codewords longer than necessary
			for l in &mut lens {
				if *l > 0 && *l < 30 && self.r.chance(1, 3) {
					*l += 1;
				}
			}
			if self.r.chance(1, 4) {
				// All of them far longer, even
				let k = self.r.below(1 + 32 - *lens.iter().max().unwrap() as u64) as u8;
				for l in lens.iter_mut().filter(|l| **l > 0) {
					*l += k;
				}
			}
			if enc == Enc::Ordered {
				lens.sort_unstable();
			}
		}
		let mut b = Book { dims, lens, enc, lookup: 0, min: 0, delta: 0, vbits: 0, seqp: false, mult: vec![], sync: SYNC };
		if vq || !huge && !any && self.r.chance(1, 8) {
			b.lookup = if !huge && n * (dims as usize) < 50_000 && self.has(feat::LOOKUP2) && self.r.chance(1, 3) { 2 } else { 1 };
			let cnt = if b.lookup == 1 { lookup1_values(n as u32, dims).unwrap_or(0) } else { n as u64 * dims as u64 };
			b.vbits = 1 + self.r.below(16) as u8;
			b.seqp = self.r.chance(1, 2);
			let odd = self.has(feat::FLOATS) && self.r.chance(1, 2);
			b.min = gen_float(self.r, odd);
			b.delta = gen_float(self.r, odd);
			b.mult = (0..cnt).map(|_| self.r.u32() & ((1u32 << b.vbits) - 1)).collect();
		}
		if self.has(feat::SLOPPY) && self.r.chance(1, 4) {
			b.sync = self.r.u32() & 0xFF_FFFF;
		}
		self.v.push(b);
		(self.v.len() - 1) as u8
	}
}

pub fn gen_setup(r: &mut Rng, ch: u8, bs: [u8; 2], f: u64) -> Setup {
	let has = |b: u64| f & b != 0;
	let big = has(feat::BIG);
	let mut b = Books { v: vec![], f, r: &mut r.fork() };
	// Floors
	let nfloors = 1 + if has(feat::PARTS) { r.below(3) } else { 0 };
	let mut floors = vec![];
	for _ in 0..nfloors {
		let nparts = if has(feat::PARTS) {
			if r.chance(1, 8) { 31 } else { r.below(9) }
		} else {
			r.below(4)
		} as usize;
		let ncls = 1 + r.below(if has(feat::PARTS) { 16 } else { 2 }) as u8;
		let mut parts: Vec<u8> = (0..nparts).map(|_| r.below(ncls as u64) as u8).collect();
		let top = parts.iter().max().map_or(0, |m| *m as usize + 1);
		let mut classes = vec![];
		for _ in 0..top {
			let dim = 1 + r.below(if nparts > 7 { 2 } else { 8 }) as u8;
			let sub = r.below(4) as u8;
			// Numbers of subclasses that take more than 16 bits together
			let (dim, sub) = if has(feat::HUGE) && nparts < 8 && r.chance(1, 2) { (6 + r.below(3) as u8, 3) } else { (dim, sub) };
			let bn = if big { 1 + r.skewed(500) } else { 1 + r.below(32) } as usize;
			let master = if sub != 0 { b.add(bn, 0, false) } else { 0 };
			let books = (0..1 << sub)
				.map(|_| {
					if r.chance(1, 4) {
						0
					} else if !b.v.is_empty() && r.chance(1, 2) {
						1 + r.below(b.v.len() as u64) as u8
					} else {
						let n = 1 + r.below(if big { 300 } else { 40 }) as usize;
						1 + b.add(n, 0, false)
					}
				})
				.collect();
			classes.push(FloorClass { dim, sub, master, books });
		}
		// At most 63 points
		let mut total = 0;
		parts.retain(|p| {
			let d = classes[*p as usize].dim as usize;
			total += d;
			if total > 63 {
				total -= d;
				false
			} else {
				true
			}
		});
		let top = parts.iter().max().map_or(0, |m| *m as usize + 1);
		classes.truncate(top);
		let range_bits = (7 + r.below(9)) as u8;
		let range_bits = if total < 8 && has(feat::ODD) { 4 + r.below(4) as u8 } else { range_bits };
		let mut pool: Vec<u32> = (1..(1u32 << range_bits).min(512)).collect();
		r.shuffle(&mut pool);
		let xs = if parts.is_empty() { vec![] } else { pool[..total].to_vec() };
		floors.push(Floor { parts, classes, mult: 1 + r.below(4) as u8, range_bits, xs });
	}
	let more = |r: &mut Rng, n: u64| if has(feat::MANYPARTS) { *r.pick(&[0, 64 - n, 63 - n, 7]) } else { 0 };
	for _ in 0..more(r, nfloors) {
		// Like one of those there are, with other points
		let mut f = r.pick(&floors).clone();
		f.mult = 1 + r.below(4) as u8;
		let mut pool: Vec<u32> = (1..(1u32 << f.range_bits).min(512)).collect();
		r.shuffle(&mut pool);
		f.xs = pool[..f.xs.len()].to_vec();
		floors.push(f);
	}
	let nfloors = floors.len() as u64;
	// Residues
	let nres = 1 + if has(feat::RESTYPES) { r.below(3) } else { 0 };
	let mut residues = vec![];
	for _ in 0..nres {
		let ty = if has(feat::RESTYPES) { r.below(3) as u16 } else { 1 };
		let psize = match has(feat::FINE) {
			true => *r.pick(&[1u32, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 14, 15, 18, 33]),
			false => *r.pick(&[4u32, 8, 12, 16, 24, 32, 60])
		};
		let psize = if has(feat::FINE) && r.chance(1, 12) { 0x80_0000 + psize } else { psize };
		let large = has(feat::FINE) && has(feat::ODD) && r.chance(1, 8);
		let psize = if large { 100 + r.below((1u64 << bs[1]).min(8000)) as u32 } else { psize };
		let mut dims: Vec<u16> = [1u16, 2, 3, 4, 5, 6, 7, 8, 11].into_iter().filter(|d| psize % *d as u32 == 0).collect();
		if psize < 0x1_0000 {
			// Few vectors of many numbers each
			if large {
				dims = (1..=64u32).filter(|k| psize % k == 0).map(|k| (psize / k) as u16).collect();
			}
			dims.push(psize as u16);
		}
		let limit = (1u32 << bs[1]) / 2 * if ty == 2 { ch as u32 } else { 1 };
		let maxparts = if has(feat::FINE) && r.chance(1, 3) {
			2
		} else if has(feat::FINE) && psize < 8 && r.chance(1, 12) {
			1200
		} else if big {
			64
		} else {
			12
		};
		let begin = if has(feat::ODD) { r.skewed(limit as u64 / 2) as u32 } else { 0 };
		let span = (r.below(maxparts + 1) as u32) * (psize & 0xFFFF) + if has(feat::ODD) { r.below(psize as u64) as u32 } else { 0 };
		// An end beyond the vector is cut to it: keep the work small unless it is small anyway
		let beyond = has(feat::ODD) && r.chance(1, 16);
		let begin = if beyond { 0x80_0000 + r.below(200) as u32 } else { begin };
		let end = if beyond || has(feat::ODD) && limit / psize <= 64 && r.chance(1, 4) {
			0xFF_FFFF
		} else if has(feat::ODD) && r.chance(1, 8) {
			begin.saturating_sub(r.below(20) as u32)
		} else {
			begin + span
		};
		let nclass = if has(feat::CASCADE) { 1 + r.skewed(63) as u8 } else { 1 + r.below(4) as u8 };
		let mut cdim = 1 + r.below(if has(feat::ODD) { 9 } else { 4 }) as u16;
		while (nclass as u64).pow(cdim as u32) > if big { 5000 } else { 300 } && cdim > 1 {
			cdim -= 1;
		}
		if nclass == 1 && has(feat::ODD) && r.chance(1, 4) {
			cdim = 1 + r.skewed(65_535) as u16;
		}
		// More partitions than 16 bits can number, of one number each
		let vast = ty == 2 && limit > 0x1_0000 && has(feat::FINE) && has(feat::ODD) && r.chance(1, 2);
		let (psize, begin, end, nclass, cdim) = match vast {
			true => (1, 0, limit.min(65_530 + r.below(2000) as u32), 1, 1 + r.skewed(300) as u16),
			false => (psize, begin, end, nclass, cdim)
		};
		let dims = if vast { vec![1] } else { dims };
		let need = (nclass as u64).pow(cdim as u32);
		let slack = if r.chance(1, 3) { r.below(10) } else { 0 };
		let classbook = b.add((need + slack) as usize, cdim.max(1), false);
		// A class book must not decode to entries that mean nothing, which they never do here,
		// since classifications are taken modulo the number of classes.
		let mut vq: Vec<u8> = vec![];
		for _ in 0..1 + r.below(if has(feat::CASCADE) { 5 } else { 2 }) {
			let d = *r.pick(&dims);
			let n = if big && r.chance(1, 3) { 1 + r.skewed(3000) } else { 1 + r.below(81) } as usize;
			vq.push(b.add(n, d, true));
		}
		let books = (0..nclass)
			.map(|_| {
				let mut row = [None; 8];
				let dens = if vast { 0 } else if has(feat::CASCADE) { r.below(4) } else { 1 };
				for (j, slot) in row.iter_mut().enumerate() {
					if r.chance(dens, 4) && (has(feat::CASCADE) || j < 3) {
						*slot = Some(*r.pick(&vq));
					}
				}
				row
			})
			.collect();
		residues.push(Residue { ty, begin, end, psize, nclass, classbook, books });
	}
	for _ in 0..more(r, nres) {
		let mut x = r.pick(&residues).clone();
		r.shuffle(&mut x.books);
		if r.chance(1, 2) {
			x.ty = if has(feat::RESTYPES) { r.below(3) as u16 } else { 1 };
		}
		if x.end > x.psize && x.end < 0xFF_FFFF {
			x.end -= r.below(x.psize as u64 + 1) as u32;
		}
		residues.push(x);
	}
	let nres = residues.len() as u64;
	if has(feat::MANYBOOKS) {
		let top = *r.pick(&[250, 255, 256]);
		while b.v.len() < top {
			let n = 1 + r.below(4) as usize;
			b.add(n, 0, false);
		}
	}
	// Mappings
	let nmaps = 1 + if has(feat::SUBMAPS) { r.below(3) } else { 0 };
	let nmaps = nmaps + more(r, nmaps);
	let mut mappings = vec![];
	for _ in 0..nmaps {
		let top = if r.chance(1, 6) { 16 } else { 3 };
		let nsub = if has(feat::SUBMAPS) { 1 + r.below(top) } else { 1 };
		let mut coupling = vec![];
		if has(feat::COUPLING) && ch > 1 {
			let steps = if r.chance(1, 12) { 256 } else { r.below(ch as u64) };
			for _ in 0..steps {
				let m = r.below(ch as u64) as u8;
				let a = (m as u64 + 1 + r.below(ch as u64 - 1)) % ch as u64;
				coupling.push((m, a as u8));
			}
		}
		let mux = (0..ch).map(|_| if nsub > 1 { r.below(nsub) as u8 } else { 0 }).collect();
		let submaps = (0..nsub)
			.map(|_| {
				let t = if has(feat::SLOPPY) { r.u32() as u8 } else { 0 };
				(t, r.below(nfloors) as u8, r.below(nres) as u8)
			})
			.collect();
		let reserved = if has(feat::SLOPPY) { r.below(4) as u8 } else { 0 };
		mappings.push(Mapping { coupling, mux, submaps, reserved });
	}
	let nmodes = if has(feat::MANYMODES) {
		1 + r.below(64)
	} else if has(feat::MODES) {
		1 + r.below(4)
	} else {
		1
	};
	let modes = (0..nmodes)
		.map(|_| Mode {
			big: r.chance(1, 2),
			window: if has(feat::SLOPPY) && r.chance(1, 4) { r.u32() as u16 } else { 0 },
			transform: if has(feat::SLOPPY) && r.chance(1, 4) { r.u32() as u16 } else { 0 },
			mapping: r.below(nmaps) as u8
		})
		.collect();
	let times = if has(feat::SLOPPY) { (0..1 + r.skewed(63)).map(|_| if r.chance(1, 4) { r.u32() as u16 } else { r.below(3) as u16 }).collect() } else { vec![0] };
	let framing = !(has(feat::SLOPPY) && r.chance(1, 3));
	let trailing = if has(feat::SLOPPY) && r.chance(1, 2) {
		let n = r.below(30) as usize;
		r.bytes(n)
	} else {
		vec![]
	};
	// No framing bit at all must still be the end of the packet for lenient readers
	if b.v.is_empty() {
		b.add(1, 1, false);
	}
	if has(feat::MANYBOOKS) || r.chance(1, 4) {
		// Books need not come in the order of those that use them. A book of a floor is numbered
		// one higher than it is, so the last one cannot be.
		let n = b.v.len().min(255);
		let mut to: Vec<u8> = (0..n as u64).map(|i| i as u8).collect();
		r.shuffle(&mut to);
		to.extend((n..b.v.len()).map(|i| i as u8));
		let mut v = b.v.clone();
		for (i, x) in b.v.drain(..).enumerate() {
			v[to[i] as usize] = x;
		}
		b.v = v;
		let at = |i: &mut u8| *i = to[*i as usize];
		for c in floors.iter_mut().flat_map(|f| &mut f.classes) {
			if c.sub != 0 {
				at(&mut c.master);
			}
			for i in c.books.iter_mut().filter(|i| **i > 0) {
				*i = 1 + to[*i as usize - 1];
			}
		}
		for x in &mut residues {
			at(&mut x.classbook);
			x.books.iter_mut().flatten().flatten().for_each(at);
		}
	}
	Setup { books: b.v, times, floors, residues, mappings, modes, framing, trailing }
}

struct GenIo<'a> {
	s: &'a Setup,
	used: &'a [Vec<u32>],
	words: &'a [Vec<u32>],
	style: u64,
	w: BitW,
	r: Rng,
	kind: u8,
	cap: usize
}
impl PacketIo for GenIo<'_> {
	fn raw(&mut self, what: What, width: u32) -> Result<u32, Stop> {
		let v = match what {
			What::Type => (self.kind == pk::WRONG_TYPE) as u32,
			What::Mode => self.r.below(self.s.modes.len() as u64) as u32,
			What::FloorFlag => match self.kind {
				pk::SILENT => 0,
				pk::HALF => self.r.below(2) as u32,
				_ => 1
			},
			_ => (self.r.next() & ((1u64 << width) - 1)) as u32
		};
		self.w.put(v as u64, width);
		Ok(v)
	}
	fn entry(&mut self, book: usize) -> Result<u32, Stop> {
		let used = &self.used[book];
		if used.is_empty() || self.w.nbits > self.cap {
			return Err(Stop::Bad("no usable entry".into()));
		}
		let n = used.len() as u64;
		let st = mix(self.style ^ book as u64);
		let k = match st % 4 {
			0 => self.r.below(n),
			1 => self.r.skewed(n - 1),
			2 => {
				if self.r.chance(9, 10) {
					(st >> 8) % n
				} else {
					self.r.below(n)
				}
			}
			_ => (st >> 8) % n
		};
		let e = used[k as usize];
		let len = self.s.books[book].lens[e as usize];
		if self.s.books[book].lens == [1] {
			self.w.put(self.r.below(2), 1);
		} else {
			self.w.put_msb(self.words[book][e as usize], len);
		}
		Ok(e)
	}
}

/// Generates audio packets for one setup.
pub struct PacketGen {
	pub setup: Setup,
	pub ch: u8,
	pub bs: [u8; 2],
	used: Vec<Vec<u32>>,
	words: Vec<Vec<u32>>,
	style: u64
}
impl PacketGen {
	pub fn new(setup: Setup, ch: u8, bs: [u8; 2], style: u64) -> Self {
		let used = setup
			.books
			.iter()
			.map(|b| (0..b.lens.len() as u32).filter(|i| b.lens[*i as usize] != 0).collect())
			.collect();
		let words = setup.books.iter().map(|b| make_words(&b.lens).expect("generated code is overfull")).collect();
		Self { setup, ch, bs, used, words, style }
	}
	/// The packet and the block size a decoder would use for it (None if it is ignored).
	pub fn packet(&self, kind: u8, seed: u64) -> (Vec<u8>, Option<u32>) {
		if kind == pk::EMPTY {
			return (vec![], None);
		}
		let mut cap = 8 * 20_000;
		let mut kind_now = kind;
		for attempt in 0..6u64 {
			let mut io = GenIo {
				s: &self.setup,
				used: &self.used,
				words: &self.words,
				style: self.style,
				w: BitW::new(),
				r: Rng::new(mix(seed) ^ attempt),
				kind: kind_now,
				cap
			};
			let mut pr = Progress::default();
			let res = walk(&self.setup, self.ch, self.bs, &mut io, &mut pr);
			let bs = pr.mode.map(|m| 1u32 << self.bs[self.setup.modes[m].big as usize]);
			if kind == pk::WRONG_TYPE {
				return (io.w.bytes, bs);
			}
			if res.is_err() {
				// Scalar book in vector context, an unusable book or too much data: try again,
				// finally without any audio
				if attempt >= 4 {
					kind_now = pk::SILENT;
				}
				cap = 8 * 60_000;
				continue;
			}
			let mut r = Rng::new(mix(seed ^ 0xAA55));
			let mut v = io.w.bytes;
			let head = (1 + crate::bits::ilog(self.setup.modes.len() as u64 - 1) as usize
				+ if self.setup.modes[pr.mode.unwrap()].big { 2 } else { 0 })
			.div_ceil(8);
			match kind {
				pk::PADDED => {
					let n = if r.chance(1, 4) { r.skewed(2000) } else { 1 + r.below(6) } as usize;
					let rnd = r.chance(1, 2);
					v.extend((0..n).map(|_| if rnd { r.u32() as u8 } else { 0 }));
				}
				pk::CUT | pk::CUT_BIT => {
					if v.len() > head {
						v.truncate(head + r.below((v.len() - head) as u64) as usize);
					}
				}
				pk::TINY => {
					v.truncate(head - 1);
					return (v, None);
				}
				_ => ()
			}
			return (v, bs);
		}
		(vec![], None)
	}
}

#[derive(Clone, Debug, Default)]
pub struct Built {
	pub bytes: Vec<u8>,
	/// Offsets of the pages in `bytes` (after page-level mutations), with a final end offset.
	pub offsets: Vec<usize>,
	pub pages: Vec<Page>,
	/// Packets of the first Vorbis stream before pagination, headers included.
	pub packets: Vec<Vec<Vec<u8>>>
}

fn bytes_of(j: &J) -> Vec<u8> {
	match j {
		J::Str(s) => s.as_bytes().to_vec(),
		J::Arr(a) => a.iter().map(|b| b.int() as u8).collect(),
		J::Obj(_) => {
			// {"len": n, "seed": s}: filler
			let n = j.num("len", 0, 0, 400_000) as usize;
			Rng::new(j.num("seed", 1, 0, i64::MAX) as u64).bytes(n)
		}
		_ => vec![]
	}
}

/// Headers and audio packets of a Vorbis stream with their block sizes.
pub struct StreamParts {
	pub headers: [Vec<u8>; 3],
	pub audio: Vec<(Vec<u8>, Option<u32>)>
}

/// Frequencies that force the optimal prefix code of `n` entries to be a caterpillar: the
/// depth of its deepest leaves is n - 1.
pub fn skewed_weights(n: usize) -> Vec<u64> {
	let mut w: Vec<u64> = vec![];
	let (mut before, mut sum) = (0, 0);
	for i in 0..n {
		// Everything up to the entry before the previous one, combined, is lighter than this one
		let x = if i < 3 { 1 } else { before + 1 };
		w.push(x);
		before = sum;
		sum += x;
	}
	w
}

/// A stream with one codebook that codes very uneven frequencies, given by `skew`, its number of
/// entries, and as many channels as it takes to need few packets.
fn skewed_parts(s: &J, headers: &[Vec<u8>; 3]) -> StreamParts {
	let mut n = s.num("skew", 8, 2, 36) as usize;
	let mut r = Rng::new(s.num("seed", 1, 0, i64::MAX) as u64);
	let mut w = skewed_weights(n);
	if s.has("wide") {
		// Or more entries in use than 16 bits can number, about as often as one another
		n = s.num("wide", 65_540, 65_000, 140_000) as usize;
		w = (0..n).map(|_| 1 + r.below(3)).collect();
	}
	let total: u64 = w.iter().sum();
	let ch = s.num("ch", 1, 1, 255) as u8;
	let per = 4096 * ch as u64;
	let packets = total.div_ceil(per).clamp(1, 4000);
	*w.last_mut().unwrap() += (packets * per).saturating_sub(total);
	// A code for them with at most 32 bits
	let mut lens: Vec<u8> = vec![1; n];
	for (i, l) in lens.iter_mut().rev().enumerate() {
		*l = (i + 1).min(n - 1) as u8;
	}
	if n > 36 {
		lens = gen_lens(&mut r, n, false);
	} else if n > 33 {
		// 1, 2, ..., then a full subtree for what is left
		let mut d = 1;
		let mut left = n;
		while (d as u32) < 32 && left > 1 << (32 - d as u32 + 1) {
			d += 1;
			left -= 1;
		}
		let k = n - left;
		let deep = crate::bits::ilog(left as u64 - 1) as usize;
		for (i, l) in lens.iter_mut().rev().enumerate() {
			*l = if i < k { i + 1 } else { k + deep } as u8;
		}
	}
	let mut order: Vec<usize> = (0..n).collect();
	if s.flag("mixed", true) {
		r.shuffle(&mut order);
	}
	let mut l2 = vec![0; n];
	let mut w2 = vec![0; n];
	for (i, o) in order.iter().enumerate() {
		l2[*o] = lens[i];
		w2[*o] = w[i];
	}
	let book = |dims, lens: Vec<u8>, lookup| Book {
		dims,
		enc: Enc::Dense,
		lookup,
		min: 0,
		delta: 0,
		vbits: 1,
		seqp: false,
		mult: if lookup == 0 { vec![] } else { vec![0; lookup1_values(lens.len() as u32, dims).unwrap() as usize] },
		sync: SYNC,
		lens
	};
	let setup = Setup {
		books: vec![book(1, vec![1], 0), book(1, l2.clone(), 1)],
		times: vec![0],
		floors: vec![Floor { parts: vec![], classes: vec![], mult: 1, range_bits: 4, xs: vec![] }],
		residues: vec![Residue {
			ty: 2,
			begin: 0,
			end: per as u32,
			psize: per as u32,
			nclass: 1,
			classbook: 0,
			books: vec![[Some(1), None, None, None, None, None, None, None]]
		}],
		mappings: vec![Mapping { coupling: vec![], mux: vec![0; ch as usize], submaps: vec![(0, 0, 0)], reserved: 0 }],
		modes: vec![Mode { big: true, window: 0, transform: 0, mapping: 0 }],
		framing: true,
		trailing: vec![]
	};
	let words = make_words(&l2).expect("generated code is overfull");
	let mut audio = vec![];
	let mut at = 0;
	for _ in 0..packets {
		let mut b = BitW::new();
		b.put(0, 1);
		b.put(3, 2);
		for _ in 0..ch {
			b.put(1, 1);
			b.put(0, 16);
		}
		b.put(0, 1);
		for _ in 0..per {
			while at < n && w2[at] == 0 {
				at += 1;
			}
			let e = at.min(n - 1);
			w2[e] = w2[e].saturating_sub(1);
			b.put_msb(words[e], l2[e]);
		}
		audio.push((b.bytes, Some(8192)));
	}
	let mut id = headers[0].clone();
	id[11] = ch;
	id[28] = 0xDD;
	StreamParts { headers: [id, headers[1].clone(), write_setup(&setup)], audio }
}

pub const SPOIL_KINDS: u64 = 26;
/// A value at or near the end of what `n` things are numbered with, or any other.
fn near(n: usize, how: u64) -> u64 {
	match how % 7 {
		0 | 1 => n as u64,
		2 => n as u64 + 1,
		3 => (n as u64).wrapping_sub(1) & 0xFFFF,
		4 => 255,
		5 => 0,
		_ => how >> 3 & 255
	}
}
/// Makes one field of a setup refer to something that is not there, or contradict the others.
fn spoil(s: &mut Setup, kind: u64, which: u64, how: u64, x: u64) {
	let at = |n: usize| which as usize % n.max(1);
	let sub = |n: usize| (which >> 16) as usize % n.max(1);
	let (books, floors, residues, maps) = (s.books.len(), s.floors.len(), s.residues.len(), s.mappings.len());
	let (book, floor, residue, map) = (at(books), at(floors), at(residues), at(maps));
	let classes = s.floors[floor].classes.len();
	let subs = s.mappings[map].submaps.len();
	match kind % SPOIL_KINDS {
		0 => s.mappings[map].submaps[sub(subs)].1 = near(floors, how) as u8,
		1 => s.mappings[map].submaps[sub(subs)].2 = near(residues, how) as u8,
		2 => {
			let m = &mut s.mappings[map].mux;
			if !m.is_empty() {
				let i = sub(m.len());
				m[i] = near(subs, how) as u8 & 15;
			}
		}
		3 => {
			let (m, c) = (s.mappings[map].mux.len().max(1), &mut s.mappings[map].coupling);
			if c.is_empty() {
				c.push((0, 0));
			}
			let i = sub(c.len());
			match x % 3 {
				0 => c[i].0 = near(m, how) as u8,
				1 => c[i].1 = near(m, how) as u8,
				_ => c[i].0 = c[i].1
			}
		}
		4 => {
			let i = at(s.modes.len());
			s.modes[i].mapping = near(maps, how) as u8;
		}
		5 => s.residues[residue].classbook = near(books, how) as u8,
		6 | 7 => {
			let r = &mut s.residues[residue];
			let c = sub(r.books.len());
			if let Some(v) = r.books.get_mut(c) {
				v[(x % 8) as usize] = Some(if kind % SPOIL_KINDS == 6 { near(books, how) } else { how % books as u64 } as u8);
			}
		}
		8 => {
			if let Some(c) = s.floors[floor].classes.get_mut(sub(classes)) {
				c.master = near(books, how) as u8;
			}
		}
		9 | 10 => {
			if let Some(c) = s.floors[floor].classes.get_mut(sub(classes)) {
				let i = x as usize % c.books.len().max(1);
				if let Some(b) = c.books.get_mut(i) {
					*b = if kind % SPOIL_KINDS == 9 { (near(books, how) as u8).wrapping_add((how % 7 < 2) as u8) } else { (how % (books as u64 + 1)) as u8 };
				}
			}
		}
		11 => {
			let f = &mut s.floors[floor];
			let i = sub(f.parts.len());
			if let Some(p) = f.parts.get_mut(i) {
				*p = near(classes, how) as u8 & 15;
			}
		}
		12 => {
			let r = &mut s.residues[residue];
			match x % 4 {
				0 => r.begin = how as u32 & 0xFF_FFFF,
				1 => r.end = how as u32 & 0xFF_FFFF,
				2 => r.psize = (how as u32 & 0xFF_FFFF).max(1),
				_ => std::mem::swap(&mut r.begin, &mut r.end)
			}
		}
		13 => s.residues[residue].ty = if x % 2 == 0 { near(3, how) as u16 } else { how as u16 },
		14 => s.books[book].dims = if x % 2 == 0 { near(0, how) as u16 } else { how as u16 },
		15 => {
			let b = &mut s.books[book];
			b.enc = Enc::Sparse;
			let i = x as usize % b.lens.len().max(1);
			if let Some(l) = b.lens.get_mut(i) {
				*l = (how % 33) as u8;
			}
		}
		16 => {
			let b = &mut s.books[book];
			b.enc = Enc::Sparse;
			b.lens.fill(0);
			if x % 2 == 0 {
				let i = how as usize % b.lens.len().max(1);
				if let Some(l) = b.lens.get_mut(i) {
					*l = 1 + (how >> 16) as u8 % 32;
				}
			}
		}
		17 => {
			let b = &mut s.books[book];
			b.lookup = (how % 16) as u8;
			b.vbits = b.vbits.clamp(1, 16);
		}
		18 => {
			let xs = &mut s.floors[floor].xs;
			let (i, j) = (at(xs.len()), sub(xs.len()));
			if i < xs.len() {
				xs[i] = if x % 2 == 0 { xs[j] } else { 0 };
			}
		}
		19 => {
			if let Some(c) = s.floors[floor].classes.get_mut(sub(classes)) {
				match x % 2 {
					0 => c.dim = 1 + (how % 8) as u8,
					_ => c.sub = (how % 4) as u8
				}
			}
		}
		20 => {
			let r = &mut s.residues[residue];
			r.nclass = 1 + (how % 64) as u8;
			if x % 2 == 0 {
				r.books.resize(r.nclass as usize, [None; 8]);
			}
		}
		21 => {
			let f = &mut s.floors[floor];
			match x % 2 {
				0 => f.mult = 1 + (how % 4) as u8,
				_ => f.range_bits = (how % 16) as u8
			}
		}
		22 => {
			// One of many is not written
			match x % 5 {
				0 if books > 1 => drop(s.books.pop()),
				1 if floors > 1 => drop(s.floors.pop()),
				2 if residues > 1 => drop(s.residues.pop()),
				3 if maps > 1 => drop(s.mappings.pop()),
				_ if s.modes.len() > 1 => drop(s.modes.pop()),
				_ => ()
			}
		}
		23 => {
			let b = &mut s.books[book];
			b.enc = Enc::Dense;
			let l = 1 + (how % 32) as u8;
			for x in &mut b.lens {
				*x = l;
			}
		}
		24 => {
			let b = &mut s.books[book];
			let n = (how % 20) as usize;
			b.lens.truncate(n);
			b.enc = Enc::Sparse;
		}
		_ => {
			let m = &mut s.mappings[map];
			let n = 1 + (how % 16) as usize;
			m.submaps.resize(n, (0, 0, 0));
		}
	}
}
/// A few fields of the setup to spoil.
pub fn random_spoil(r: &mut Rng) -> J {
	let n = if r.chance(3, 4) { 1 } else { 2 + r.below(3) };
	J::Arr((0..n).map(|_| J::Arr(vec![J::from(r.below(SPOIL_KINDS)), J::from(r.below(1 << 32)), J::from(r.below(1 << 40)), J::from(r.below(64))])).collect())
}

pub fn stream_parts(s: &J) -> StreamParts {
	let ch = s.num("ch", 1, 1, 255) as u8;
	let b0 = s.num("b0", 6, 6, 13) as u8;
	let b1 = (s.num("b1", 8, 6, 13) as u8).max(b0);
	let seed = s.num("seed", 1, 0, i64::MAX) as u64;
	let mut r = Rng::new(seed);
	let setup = gen_setup(&mut r, ch, [b0, b1], s.num("feat", 0, 0, feat::ALL as i64) as u64);
	let id = Id {
		channels: ch,
		rate: s.num("rate", 44100, 1, u32::MAX as i64) as u32,
		bitrates: [
			s.num("brmax", 0, i32::MIN as i64, i32::MAX as i64) as i32,
			s.num("brnom", 128000, i32::MIN as i64, i32::MAX as i64) as i32,
			s.num("brmin", 0, i32::MIN as i64, i32::MAX as i64) as i32
		],
		bs: [b0, b1],
		framing: s.num("idframing", 1, 0, 255) as u8,
		trailing: vec![0x5A; s.num("idpad", 0, 0, 70_000) as usize]
	};
	let vendor = bytes_of(s.get("vendor"));
	let comments: Vec<Vec<u8>> = s
		.get("comments")
		.arr()
		.iter()
		.flat_map(|c| std::iter::repeat_n(bytes_of(c), c.num("many", 1, 1, 70_000) as usize))
		.collect();
	let mut cmt = write_comments(&vendor, &comments, s.num("cframing", 1, 0, 255) as u8);
	cmt.extend(std::iter::repeat_n(0, s.num("cpad", 0, 0, 2000) as usize));
	if s.has("ccut") {
		cmt.truncate(s.num("ccut", 0, 0, cmt.len() as i64) as usize);
	}
	let mut written = setup.clone();
	for b in s.get("bad").arr().iter().take(16) {
		let a = b.arr();
		let n = |i: usize| a.get(i).map_or(0, |v| v.u64());
		spoil(&mut written, n(0), n(1), n(2), n(3));
	}
	let headers = [write_id(&id), cmt, write_setup(&written)];
	if s.has("skew") || s.has("wide") {
		return skewed_parts(s, &headers);
	}
	let g = PacketGen::new(setup, ch, [b0, b1], mix(seed));
	let audio: Vec<(Vec<u8>, Option<u32>)> = s
		.get("pk")
		.arr()
		.iter()
		.take(4000)
		.map(|p| {
			let a = p.arr();
			let kind = a.first().map_or(0, |v| v.int().clamp(0, 8)) as u8;
			let pseed = a.get(1).map_or(0, |v| v.int()) as u64;
			g.packet(kind, pseed)
		})
		.collect();
	// The same ones over and over again
	let rep = s.num("rep", 0, 0, 70_000) as usize;
	let audio = if rep > audio.len() { audio.iter().cycle().take(rep).cloned().collect() } else { audio };
	StreamParts { headers, audio }
}

fn vorbis_pages(s: &J) -> (Vec<Page>, Vec<Vec<u8>>) {
	let parts = stream_parts(s);
	let serial = s.num("serial", 1, 0, u32::MAX as i64) as u32;
	let max_segs = s.num("segs", 255, 1, 255) as usize;
	let per = s.num("per", 8, 1, 4000) as u64;
	let mut r = Rng::new(s.num("pseed", 1, 0, i64::MAX) as u64);
	let lay = s.num("hdr", 0, 0, 3);
	let start = s.num("start", 0, i64::MIN, i64::MAX);
	let trim = s.num("trim", 0, 0, 1 << 20);
	let mut p = Paginator::new(serial, s.num("seq0", 0, 0, u32::MAX as i64) as u32, max_segs);
	p.packet(&parts.headers[0], 0, true);
	if s.has("vary") {
		p.vary(Rng::new(s.num("vary", 0, 0, i64::MAX) as u64));
	}
	// 0: comment and setup share pages; 1: separate pages; 2: audio follows on the same page;
	// 3: everything after the first page as the layout of the audio decides
	p.packet(&parts.headers[1], 0, lay == 1);
	p.packet(&parts.headers[2], 0, lay < 2);
	let mut pos = 0i64;
	let mut prev: Option<u32> = None;
	let n = parts.audio.len();
	let mut left = 1 + r.below(2 * per);
	let fixed = s.flag("fixed", false);
	for (i, (d, bs)) in parts.audio.iter().enumerate() {
		let mut last_block = 0;
		if let Some(b) = bs {
			if let Some(a) = prev {
				last_block = ((a + b) / 4) as i64;
			}
			pos += last_block;
			prev = Some(*b);
		}
		let mut gp = start.wrapping_add(pos);
		if i + 1 == n {
			gp = gp.wrapping_sub(trim.min((last_block - 1).max(0)));
			// The boundaries of what is plausible at the end
			let all = start.wrapping_add(pos);
			gp = match s.num("end", 0, 0, 5) {
				1 => all.wrapping_sub(last_block).wrapping_add(1),
				2 => all.wrapping_sub(last_block),
				3 => all.wrapping_add(1),
				4 => all,
				5 => all.wrapping_sub(last_block).wrapping_sub(1),
				_ => gp
			};
		}
		left -= 1;
		let end = left == 0;
		if end {
			left = if fixed { per } else { 1 + r.below(2 * per) };
		}
		p.packet(d, gp as u64, end);
	}
	let mut pages = p.finish(s.flag("eos", true));
	if s.flag("nileos", false) {
		// The end mark sits on a page of its own that carries no packet
		let last = pages.last_mut().unwrap();
		last.flags &= !EOS;
		let (seq, gp) = (last.seq.wrapping_add(1), last.gp);
		pages.push(Page { flags: EOS, gp, serial, seq, segs: vec![], body: vec![], crc_xor: 0 });
	}
	if s.flag("negpages", false) {
		for p in &mut pages {
			if p.ends() == 0 {
				p.gp = NO_GP;
			}
		}
	}
	let mut all: Vec<Vec<u8>> = parts.headers.to_vec();
	all.extend(parts.audio.into_iter().map(|a| a.0));
	(pages, all)
}

/// A logical stream that is not Vorbis.
fn other_pages(s: &J) -> Vec<Page> {
	let serial = s.num("serial", 77, 0, u32::MAX as i64) as u32;
	let mut r = Rng::new(s.num("seed", 1, 0, i64::MAX) as u64);
	let bos: Vec<u8> = match s.num("kind", 1, 1, 9) {
		1 => b"OpusHead\x01\x02\x38\x01\x80\xbb\0\0\0\0\0".to_vec(),
		2 => {
			let mut v = b"fishead\0\x03\0\0\0".to_vec();
			v.extend(r.bytes(52));
			v
		}
		3 => vec![],
		4 => b"\x01vorbi".to_vec(),
		5 => {
			let mut v = b"\x01vorbiz".to_vec();
			v.extend(r.bytes(23));
			v
		}
		6 => {
			let mut v = b"\x03vorbis".to_vec();
			v.extend(r.bytes(30));
			v
		}
		7 => {
			let mut v = b"\x80theora\x03\x02\x01".to_vec();
			v.extend(r.bytes(32));
			v
		}
		8 => {
			let mut v = b"\x05vorbis".to_vec();
			v.extend(r.bytes(30));
			v
		}
		_ => {
			let n = r.below(600) as usize;
			let mut v = r.bytes(n);
			if let Some(b) = v.first_mut() {
				*b |= 0x10;
			}
			v
		}
	};
	let mut p = Paginator::new(serial, 0, s.num("segs", 255, 1, 255) as usize);
	p.packet(&bos, 0, true);
	for i in 0..s.num("n", 3, 0, 200) {
		let n = r.skewed(3000) as usize;
		let d = r.bytes(n);
		let e = r.chance(1, 2);
		p.packet(&d, i as u64 * 100, e);
	}
	let mut pages = p.finish(s.flag("eos", true));
	if s.flag("onlybos", false) {
		pages.truncate(1);
	}
	pages
}

/// Builds the bytes of the input described by `j`.
pub fn build(j: &J) -> Built {
	let mut out = Built::default();
	if j.has("file") {
		let name: String = j.get("file").str().chars().filter(|c| *c != '/').collect();
		let d = std::fs::read(format!("/repo/packages/optivorbis/resources/test/{name}")).unwrap_or_default();
		let mut pos = 0;
		while let Ok(p) = crate::ogg::parse_page(&d, pos, false) {
			pos += p.len();
			out.pages.push(p);
		}
	} else if j.has("raw") {
		out.bytes = bytes_of(j.get("raw"));
		return out;
	} else {
		let mut main: Vec<Page> = vec![];
		let mut side: Vec<(i64, Vec<Page>)> = vec![];
		for s in j.get("streams").arr() {
			if s.flag("v", true) {
				let (pages, packets) = vorbis_pages(s);
				out.packets.push(packets);
				let inside = s.num("inside", 0, 0, 1 << 20);
				if inside > 0 {
					// Starts before the previous stream has ended
					side.push((main.len() as i64 - inside, pages));
				} else {
					main.extend(pages);
				}
			} else {
				let at = s.num("at", 0, 0, 1 << 20);
				side.push((at, other_pages(s)));
			}
		}
		// Interleave the pages of the other streams at seeded positions
		let mut r = Rng::new(j.num("mux", 1, 0, i64::MAX) as u64);
		for (at, pages) in side {
			let mut pos = at.clamp(0, main.len() as i64) as usize;
			let tight = r.chance(1, 2);
			for p in pages {
				main.insert(pos, p);
				pos += 1;
				if !tight {
					pos = (pos + r.below(4) as usize).min(main.len());
				}
			}
		}
		out.pages = main;
	}
	mutate(&mut out, j.get("mut"));
	out
}

pub const MUT_KINDS: i64 = 17;

/// Applies the list of mutations: page edits first, then edits of the encoded bytes.
fn mutate(b: &mut Built, muts: &J) {
	let mut raw: Vec<(i64, i64, i64, i64)> = vec![];
	for m in muts.arr() {
		let a = m.arr();
		let g = |i: usize| a.get(i).map_or(0, |v| v.int().clamp(i64::MIN as i128, i64::MAX as i128) as i64);
		let (k, n, x, y) = (g(0), g(1), g(2), g(3));
		if b.pages.is_empty() {
			continue;
		}
		let n = n.rem_euclid(b.pages.len() as i64) as usize;
		match k {
			1 => {
				let p = &mut b.pages[n];
				if !p.body.is_empty() {
					let i = x.rem_euclid(p.body.len() as i64) as usize;
					p.body[i] ^= y as u8;
				}
			}
			2 => b.pages[n].crc_xor ^= x as u32,
			3 => {
				b.pages.remove(n);
			}
			4 => {
				let p = b.pages[n].clone();
				b.pages.insert(n, p);
			}
			5 => {
				let m = (n + 1).min(b.pages.len() - 1);
				b.pages.swap(n, m);
			}
			7 => b.pages[n].gp = x as u64,
			8 => b.pages[n].flags = x as u8,
			9 => b.pages[n].seq = x as u32,
			// The data goes on after its end mark
			15 => b.pages[n].flags |= EOS,
			// The data goes on after its end mark, once the next stream started
			16 => {
				let serial = b.pages[n].serial;
				let own: Vec<usize> = (0..b.pages.len()).filter(|&i| b.pages[i].serial == serial).collect();
				let moved = 1 + x.rem_euclid(3) as usize;
				if own.len() > moved {
					let first = own[own.len() - moved];
					let next = (first..b.pages.len()).find(|&i| b.pages[i].serial != serial && b.pages[i].flags & BOS != 0);
					if let Some(next) = next {
						b.pages[own[own.len() - moved - 1]].flags |= EOS;
						let to = next + y.rem_euclid(8) as usize;
						let late: Vec<Page> = own[own.len() - moved..].iter().rev().map(|&i| b.pages.remove(i)).collect();
						let to = (to + 1 - late.len()).min(b.pages.len());
						for p in late {
							b.pages.insert(to, p);
						}
					}
				}
			}
			10 => b.pages[n].serial = x as u32,
			12 => {
				let p = &mut b.pages[n];
				let keep = x.rem_euclid(p.body.len() as i64 + 1) as usize;
				p.body[keep..].fill(0);
			}
			13 => {
				// Change a lacing value; the body is cut or filled to match
				let p = &mut b.pages[n];
				if !p.segs.is_empty() {
					let i = x.rem_euclid(p.segs.len() as i64) as usize;
					p.segs[i] = y as u8;
					let len = p.segs.iter().map(|s| *s as usize).sum();
					p.body.resize(len, 0);
				}
			}
			0 | 6 | 11 | 14 => raw.push((k, n as i64, x, y)),
			_ => ()
		}
	}
	let mut bytes = vec![];
	let mut offsets = vec![];
	for (i, p) in b.pages.iter().enumerate() {
		for (k, n, x, y) in &raw {
			if *k == 11 && *n as usize == i {
				bytes.extend(Rng::new(*y as u64).bytes(x.rem_euclid(2000) as usize));
			}
		}
		offsets.push(bytes.len());
		bytes.extend(p.encode());
	}
	offsets.push(bytes.len());
	for (k, n, x, y) in raw {
		match k {
			0 => {
				// Mutations after this one may have taken pages away
				let Some(n) = (n as usize).checked_rem(offsets.len() - 1) else { continue };
				let (lo, hi) = (offsets[n], offsets[n + 1]);
				let i = lo + x.rem_euclid((hi - lo).max(1) as i64) as usize;
				if let Some(c) = bytes.get_mut(i) {
					*c ^= y as u8;
				}
			}
			6 => bytes.truncate(x.rem_euclid(bytes.len() as i64 + 1) as usize),
			14 => bytes.extend(Rng::new(y as u64).bytes(x.rem_euclid(5000) as usize)),
			_ => ()
		}
	}
	b.bytes = bytes;
	b.offsets = offsets;
}

// ---------------------------------------------------------------- random scenarios

/// How wild a random input may be.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
	pub max_streams: u64,
	pub max_packets: u64,
	pub max_channels: u64,
	pub cut: bool,
	pub others: bool,
	pub damage_gp: bool,
	pub sloppy: bool,
	pub files: bool
}
impl Default for Shape {
	fn default() -> Self {
		Self {
			max_streams: 3,
			max_packets: 40,
			max_channels: 3,
			cut: true,
			others: true,
			damage_gp: true,
			sloppy: true,
			files: true
		}
	}
}

pub const FILES: [&str; 10] = [
	"8khz_500ms_mono_400hz_sine_wave.ogg",
	"8khz_500ms_mono_400hz_sine_wave_comments.ogg",
	"8khz_2x500ms_mono_400hz_sine_wave_chained.ogg",
	"44100hz_500ms_stereo_uncoupled_400hz_sine_wave.ogg",
	"44100hz_500ms_stereo_400hz_sine_wave_aotuv.ogg",
	"44100hz_500ms_stereo_400hz_sine_wave_skeleton.ogg",
	"44100hz_500ms_mono_440hz_sine_wave_ogg_opus.ogg",
	"44100hz_500ms_6ch_sine_waves.ogg",
	"crc_mismatch_8khz_500ms_mono_400hz_sine_wave.ogg",
	"zero_bytes_last_audio_packet.ogg"
];

pub fn random_text(r: &mut Rng) -> J {
	match r.below(6) {
		0 => J::Str(String::new()),
		1 => J::Str("Xiph.Org libVorbis I 20200704 (Reducing Environment)".into()),
		2 => J::Str("TITLE=test".into()),
		3 => {
			let n = r.below(40) as usize;
			J::from(r.bytes(n))
		}
		4 => obj! {"len" => if r.chance(1, 8) { r.skewed(70_000) } else { r.skewed(600) }, "seed" => r.below(1 << 20)},
		_ => J::Str("ARTIST=\u{e9}\u{4e2d}".into())
	}
}

pub fn random_stream(r: &mut Rng, sh: &Shape, index: u64) -> J {
	let mut feats = r.next() & r.next() & feat::ALL;
	if r.chance(1, 6) {
		feats = r.next() & feat::ALL;
	}
	if r.chance(1, 8) {
		feats = 0;
	}
	if !sh.sloppy || !r.chance(1, 4) {
		feats &= !feat::SLOPPY;
	}
	if r.chance(3, 4) {
		feats &= !feat::MANY;
	}
	if !r.chance(1, 16) {
		feats &= !feat::HUGE;
	}
	if !r.chance(1, 3) {
		feats &= !feat::MANYPARTS;
	}
	let ch = if r.chance(1, 100) {
		9 + r.below(247)
	} else if r.chance(1, 12) {
		1 + r.below(sh.max_channels.max(8))
	} else { 1 + r.below(sh.max_channels) };
	let b0 = 6 + r.skewed(7) as i64;
	let b1 = (b0 + r.skewed(7) as i64).min(13);
	let b1 = if ch > 16 && r.chance(1, 4) { 13 } else { b1 };
	let n = if r.chance(1, 10) { r.below(4) } else { 1 + r.skewed(sh.max_packets) };
	let calm = r.chance(1, 3);
	let odd = *r.pick(&[0u64, 3, 10]);
	let pks: Vec<J> = (0..n)
		.map(|_| {
			let k = if calm || !r.chance(1 + odd, 20) {
				if r.chance(1, 6) { pk::SILENT } else if r.chance(1, 6) { pk::HALF } else { pk::NORMAL }
			} else {
				match r.below(5) {
					0 | 1 => pk::PADDED,
					2 => {
						if sh.cut {
							pk::CUT
						} else {
							pk::PADDED
						}
					}
					3 => pk::EMPTY,
					_ => pk::TINY
				}
			};
			J::Arr(vec![J::from(k), J::from(r.below(1 << 24))])
		})
		.collect();
	let start: i64 = match r.below(10) {
		0..=5 => 0,
		6 => r.range(-3000, 3000),
		7 => r.range(0, 1 << 40),
		8 => r.range(-(1 << 40), 0),
		// Also such that the stream passes a boundary of narrower numbers
		_ => match r.below(3) {
			0 => *r.pick(&[i64::MAX - 5, i64::MIN + 5, -1, 1, i64::MAX / 2]),
			_ => {
				let edge = *r.pick(&[1i64 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 31, 1 << 32, 1 << 32, 1 << 48, 1 << 53]);
				(if r.chance(1, 4) { -edge } else { edge }) - 1 - r.skewed((n as u64) << (b1 - 1)) as i64
			}
		}
	};
	let mut s = obj! {
		"seed" => r.below(1 << 40), "feat" => feats, "ch" => ch, "b0" => b0, "b1" => b1,
		"serial" => if r.chance(1, 4) { index } else { r.below(1 << 32) },
		"vendor" => random_text(r), "pk" => J::Arr(pks),
		"per" => 1 + r.skewed(40), "segs" => if r.chance(1, 3) { 1 + r.skewed(254) } else { 255 },
		"pseed" => r.below(1 << 24), "start" => start
	};
	if r.chance(1, 2) {
		let n = r.skewed(6);
		let c: Vec<J> = (0..n).map(|_| random_text(r)).collect();
		s.set("comments", J::Arr(c));
	}
	if r.chance(1, 3) {
		s.set("trim", r.skewed(4000));
	}
	if r.chance(1, 6) {
		s.set("fixed", true);
	}
	if r.chance(1, 6) {
		s.set("vary", r.below(1 << 32));
	}
	if r.chance(1, 4) {
		s.set("rate", 1 + r.below((1 << 32) - 1));
		s.set("brmax", r.u32() as i32);
		s.set("brmin", r.u32() as i32);
		s.set("brnom", r.u32() as i32);
	}
	if r.chance(1, 5) {
		s.set("hdr", 1i64);
	}
	if sh.sloppy {
		if r.chance(1, 16) {
			s.set("idframing", r.below(256));
		}
		if r.chance(1, 16) {
			s.set("idpad", r.below(100));
		}
		if r.chance(1, 16) {
			s.set("cframing", r.below(256));
		}
		if r.chance(1, 16) {
			s.set("cpad", r.below(700));
		}
		if r.chance(1, 16) {
			s.set("ccut", r.below(60));
		}
		if r.chance(1, 10) {
			s.set("eos", false);
		}
		if r.chance(1, 12) {
			s.set("seq0", r.below(1 << 32));
		}
	}
	s
}

/// Comments and vendor strings that make the comment header end near page and segment limits.
pub fn near_limit(r: &mut Rng) -> J {
	let unit = *r.pick(&[255i64, 255, 65025, 510, 130050, 65536]);
	let n = (unit * (1 + r.below(3) as i64) - r.range(0, 120)).max(0);
	obj! {"len" => n, "seed" => r.below(1 << 20)}
}

pub fn random_other(r: &mut Rng) -> J {
	obj! {
		"v" => false, "kind" => 1 + r.below(9), "seed" => r.below(1 << 24), "serial" => r.below(1 << 32),
		"n" => r.skewed(12), "at" => if r.chance(1, 2) { 0 } else { r.skewed(20) },
		"segs" => if r.chance(1, 3) { 1 + r.below(255) } else { 255 },
		"eos" => r.chance(3, 4), "onlybos" => r.chance(1, 8)
	}
}

/// A random input that a tolerant player would accept in full.
pub fn random_input(r: &mut Rng, sh: &Shape) -> J {
	let mut j = if sh.files && r.chance(1, 24) {
		obj! {"file" => *r.pick(&FILES)}
	} else {
		let n = if r.chance(1, 2) { 1 } else { 1 + r.below(sh.max_streams) };
		let mut v: Vec<J> = vec![];
		for i in 0..n {
			let mut s = random_stream(r, sh, i);
			// Only the last stream of a chain may lack its end mark
			if i + 1 < n {
				s.set("eos", true);
			}
			v.push(s);
		}
		if sh.others && r.chance(1, 4) {
			for _ in 0..1 + r.below(3) {
				let o = random_other(r);
				let at = r.below(v.len() as u64 + 1) as usize;
				v.insert(at, o);
			}
		}
		obj! {"streams" => J::Arr(v), "mux" => r.below(1 << 24)}
	};
	if sh.damage_gp && r.chance(1, 5) {
		let n = 1 + r.below(3);
		let m: Vec<J> = (0..n)
			.map(|_| {
				let v = match r.below(4) {
					0 => -1,
					1 => r.range(-5000, 5000),
					2 => r.next() as i64,
					_ => *r.pick(&[i64::MAX, i64::MIN, 0])
				};
				J::Arr(vec![J::from(7), J::from(r.below(200)), J::from(v)])
			})
			.collect();
		j.set("mut", J::Arr(m));
	}
	j
}
