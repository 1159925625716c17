//! An independent implementation of the parts of Vorbis I that matter here: headers,
//! codebooks, and the walk over an audio packet down to codebook entries. Written from
//! the specification (and libvorbis' codeword assignment), not from the code under test.

use crate::bits::{BitR, BitW, ilog};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Id {
	pub channels: u8,
	pub rate: u32,
	/// Maximum, nominal, minimum, in stream order.
	pub bitrates: [i32; 3],
	pub bs: [u8; 2],
	pub framing: u8,
	pub trailing: Vec<u8>
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc {
	Ordered,
	Dense,
	Sparse
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Book {
	pub dims: u16,
	pub lens: Vec<u8>,
	pub enc: Enc,
	pub lookup: u8,
	pub min: u32,
	pub delta: u32,
	pub vbits: u8,
	pub seqp: bool,
	pub mult: Vec<u32>,
	pub sync: u32
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FloorClass {
	pub dim: u8,
	pub sub: u8,
	pub master: u8,
	/// Book number plus one; zero for none.
	pub books: Vec<u8>
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Floor {
	pub parts: Vec<u8>,
	pub classes: Vec<FloorClass>,
	pub mult: u8,
	pub range_bits: u8,
	pub xs: Vec<u32>
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Residue {
	pub ty: u16,
	pub begin: u32,
	pub end: u32,
	pub psize: u32,
	pub nclass: u8,
	pub classbook: u8,
	/// Per class and pass; None when the cascade bit is clear.
	pub books: Vec<[Option<u8>; 8]>
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Mapping {
	pub coupling: Vec<(u8, u8)>,
	pub mux: Vec<u8>,
	/// Time (ignored by decoders), floor, residue.
	pub submaps: Vec<(u8, u8, u8)>,
	pub reserved: u8
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Mode {
	pub big: bool,
	pub window: u16,
	pub transform: u16,
	pub mapping: u8
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Setup {
	pub books: Vec<Book>,
	pub times: Vec<u16>,
	pub floors: Vec<Floor>,
	pub residues: Vec<Residue>,
	pub mappings: Vec<Mapping>,
	pub modes: Vec<Mode>,
	pub framing: bool,
	pub trailing: Vec<u8>
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Comments {
	pub vendor: Option<Vec<u8>>,
	pub comments: Vec<Vec<u8>>,
	/// The header ended before everything it announces.
	pub torn: bool
}

pub const SYNC: u32 = 0x564342;

pub fn lookup1_values(entries: u32, dims: u16) -> Option<u64> {
	if dims == 0 {
		return None;
	}
	let fits = |r: u64| -> bool {
		let mut acc: u128 = 1;
		for _ in 0..dims {
			acc *= r as u128;
			if acc > entries as u128 {
				return false;
			}
			if r <= 1 {
				break;
			}
		}
		acc <= entries as u128
	};
	let (mut lo, mut hi) = (0u64, entries as u64 + 1);
	// Invariant: lo fits, hi does not
	while hi - lo > 1 {
		let mid = (lo + hi) / 2;
		if fits(mid) { lo = mid } else { hi = mid }
	}
	Some(lo)
}

// ---------------------------------------------------------------- identification header

pub fn write_id(id: &Id) -> Vec<u8> {
	let mut v = b"\x01vorbis\0\0\0\0".to_vec();
	v.push(id.channels);
	v.extend_from_slice(&id.rate.to_le_bytes());
	for b in id.bitrates {
		v.extend_from_slice(&b.to_le_bytes());
	}
	v.push(id.bs[0] | id.bs[1] << 4);
	v.push(id.framing);
	v.extend_from_slice(&id.trailing);
	v
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IdParse {
	NotVorbis,
	Bad(String),
	Ok(Id)
}

pub fn parse_id(d: &[u8]) -> IdParse {
	if d.len() < 7 || d[0] != 1 || &d[1..7] != b"vorbis" {
		return IdParse::NotVorbis;
	}
	if d.len() < 30 {
		return IdParse::Bad("identification header too short".into());
	}
	let w = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
	let id = Id {
		channels: d[11],
		rate: w(12),
		bitrates: [w(16) as i32, w(20) as i32, w(24) as i32],
		bs: [d[28] & 15, d[28] >> 4],
		framing: d[29],
		trailing: d[30..].to_vec()
	};
	if w(7) != 0 || id.channels == 0 || id.rate == 0 {
		return IdParse::Bad("version, channels or rate".into());
	}
	if id.bs[0] < 6 || id.bs[1] > 13 || id.bs[0] > id.bs[1] {
		return IdParse::Bad("block sizes".into());
	}
	IdParse::Ok(id)
}

// ---------------------------------------------------------------- comment header

pub fn write_comments(vendor: &[u8], comments: &[Vec<u8>], framing: u8) -> Vec<u8> {
	let mut v = b"\x03vorbis".to_vec();
	v.extend_from_slice(&(vendor.len() as u32).to_le_bytes());
	v.extend_from_slice(vendor);
	v.extend_from_slice(&(comments.len() as u32).to_le_bytes());
	for c in comments {
		v.extend_from_slice(&(c.len() as u32).to_le_bytes());
		v.extend_from_slice(c);
	}
	v.push(framing);
	v
}

/// What a tolerant reader can get out of a comment header. `Err` when it is not one.
pub fn read_comments(d: &[u8]) -> Result<Comments, String> {
	let mut out = Comments { torn: true, ..Default::default() };
	if d.len() < 7 {
		return Ok(out);
	}
	if d[0] != 3 || &d[1..7] != b"vorbis" {
		return Err("not a comment header".into());
	}
	let mut p = 7usize;
	let chunk = |p: &mut usize| -> Option<Vec<u8>> {
		let n = u32::from_le_bytes(d.get(*p..*p + 4)?.try_into().unwrap()) as usize;
		let r = d.get(*p + 4..(*p + 4).checked_add(n)?)?.to_vec();
		*p += 4 + n;
		Some(r)
	};
	match chunk(&mut p) {
		None => return Ok(out),
		v => out.vendor = v
	}
	let Some(n) = d.get(p..p + 4) else { return Ok(out) };
	let n = u32::from_le_bytes(n.try_into().unwrap());
	p += 4;
	for _ in 0..n {
		match chunk(&mut p) {
			None => return Ok(out),
			Some(c) => out.comments.push(c)
		}
	}
	out.torn = false;
	Ok(out)
}

/// Strict reading of a comment header written by the code under test.
pub fn strict_comments(d: &[u8]) -> Result<Comments, String> {
	let c = read_comments(d)?;
	if c.torn {
		return Err("comment header is incomplete".into());
	}
	let n = 7 + 8 + c.vendor.as_ref().unwrap().len() + c.comments.iter().map(|c| 4 + c.len()).sum::<usize>();
	if d.len() != n + 1 || d[n] & 1 != 1 {
		return Err("comment header framing or length".into());
	}
	Ok(c)
}

// ---------------------------------------------------------------- setup header

pub fn write_setup(s: &Setup) -> Vec<u8> {
	let mut w = BitW::new();
	for b in b"\x05vorbis" {
		w.put(*b as u64, 8);
	}
	w.put(s.books.len() as u64 - 1, 8);
	for b in &s.books {
		w.put(b.sync as u64, 24);
		w.put(b.dims as u64, 16);
		w.put(b.lens.len() as u64, 24);
		w.put((b.enc == Enc::Ordered) as u64, 1);
		if b.enc == Enc::Ordered {
			let n = b.lens.len();
			let mut len = b.lens.first().copied().unwrap_or(1);
			w.put(len as u64 - 1, 5);
			let mut i = 0;
			while i < n {
				let run = b.lens[i..].iter().take_while(|l| **l == len).count();
				w.put(run as u64, ilog((n - i) as u64));
				i += run;
				len += 1;
			}
		} else {
			w.put((b.enc == Enc::Sparse) as u64, 1);
			for l in &b.lens {
				if b.enc == Enc::Sparse {
					w.put((*l != 0) as u64, 1);
				}
				if *l != 0 {
					w.put(*l as u64 - 1, 5);
				}
			}
		}
		w.put(b.lookup as u64, 4);
		if b.lookup != 0 {
			w.put(b.min as u64, 32);
			w.put(b.delta as u64, 32);
			w.put(b.vbits as u64 - 1, 4);
			w.put(b.seqp as u64, 1);
			for m in &b.mult {
				w.put(*m as u64, b.vbits as u32);
			}
		}
	}
	w.put(s.times.len() as u64 - 1, 6);
	for t in &s.times {
		w.put(*t as u64, 16);
	}
	w.put(s.floors.len() as u64 - 1, 6);
	for f in &s.floors {
		w.put(1, 16);
		w.put(f.parts.len() as u64, 5);
		for p in &f.parts {
			w.put(*p as u64, 4);
		}
		for c in &f.classes {
			w.put(c.dim as u64 - 1, 3);
			w.put(c.sub as u64, 2);
			if c.sub != 0 {
				w.put(c.master as u64, 8);
			}
			for b in &c.books {
				w.put(*b as u64, 8);
			}
		}
		w.put(f.mult as u64 - 1, 2);
		w.put(f.range_bits as u64, 4);
		for x in &f.xs {
			w.put(*x as u64, f.range_bits as u32);
		}
	}
	w.put(s.residues.len() as u64 - 1, 6);
	for r in &s.residues {
		w.put(r.ty as u64, 16);
		w.put(r.begin as u64, 24);
		w.put(r.end as u64, 24);
		w.put(r.psize as u64 - 1, 24);
		w.put(r.nclass as u64 - 1, 6);
		w.put(r.classbook as u64, 8);
		for c in &r.books {
			let mask: u64 = (0..8).map(|i| (c[i].is_some() as u64) << i).sum();
			w.put(mask & 7, 3);
			w.put((mask >> 3 != 0) as u64, 1);
			if mask >> 3 != 0 {
				w.put(mask >> 3, 5);
			}
		}
		for c in &r.books {
			for b in c.iter().flatten() {
				w.put(*b as u64, 8);
			}
		}
	}
	w.put(s.mappings.len() as u64 - 1, 6);
	for m in &s.mappings {
		w.put(0, 16);
		w.put((m.submaps.len() > 1) as u64, 1);
		if m.submaps.len() > 1 {
			w.put(m.submaps.len() as u64 - 1, 4);
		}
		w.put(!m.coupling.is_empty() as u64, 1);
		if !m.coupling.is_empty() {
			w.put(m.coupling.len() as u64 - 1, 8);
			let n = ilog(m.mux.len() as u64 - 1);
			for (a, b) in &m.coupling {
				w.put(*a as u64, n);
				w.put(*b as u64, n);
			}
		}
		w.put(m.reserved as u64, 2);
		if m.submaps.len() > 1 {
			for x in &m.mux {
				w.put(*x as u64, 4);
			}
		}
		for (t, f, r) in &m.submaps {
			w.put(*t as u64, 8);
			w.put(*f as u64, 8);
			w.put(*r as u64, 8);
		}
	}
	w.put(s.modes.len() as u64 - 1, 6);
	for m in &s.modes {
		w.put(m.big as u64, 1);
		w.put(m.window as u64, 16);
		w.put(m.transform as u64, 16);
		w.put(m.mapping as u64, 8);
	}
	w.put(s.framing as u64, 1);
	w.align();
	w.bytes.extend_from_slice(&s.trailing);
	w.bytes
}

/// Parses a setup header. With `strict`, everything that the specification demands is
/// enforced; without it, patterns that carry no information are not checked.
pub fn parse_setup(d: &[u8], channels: u8, strict: bool) -> Result<Setup, String> {
	if d.len() < 8 || d[0] != 5 || &d[1..7] != b"vorbis" {
		return Err("not a setup header".into());
	}
	let mut r = BitR::new(&d[7..]);
	macro_rules! get {
		($n:expr) => {
			r.get($n).ok_or("setup header ends early")?
		};
	}
	let nbooks = get!(8) + 1;
	let mut books = vec![];
	for i in 0..nbooks {
		let sync = get!(24);
		if strict && sync != SYNC {
			return Err(format!("book {i}: sync pattern"));
		}
		let dims = get!(16) as u16;
		let n = get!(24) as usize;
		let mut lens = vec![0u8; n];
		let enc = if get!(1) == 1 {
			let mut len = get!(5) + 1;
			let mut i = 0;
			while i < n {
				let run = get!(ilog((n - i) as u64)) as usize;
				if len > 32 || i + run > n {
					return Err("ordered lengths".into());
				}
				lens[i..i + run].fill(len as u8);
				i += run;
				len += 1;
			}
			Enc::Ordered
		} else if get!(1) == 1 {
			for l in &mut lens {
				if get!(1) == 1 {
					*l = get!(5) as u8 + 1;
				}
			}
			Enc::Sparse
		} else {
			for l in &mut lens {
				*l = get!(5) as u8 + 1;
			}
			Enc::Dense
		};
		let lookup = get!(4) as u8;
		let mut b = Book { dims, lens, enc, lookup, min: 0, delta: 0, vbits: 0, seqp: false, mult: vec![], sync };
		if lookup > 2 {
			return Err("lookup type".into());
		}
		if lookup != 0 {
			b.min = get!(32);
			b.delta = get!(32);
			b.vbits = get!(4) as u8 + 1;
			b.seqp = get!(1) == 1;
			let cnt = if lookup == 1 {
				lookup1_values(n as u32, dims).ok_or("zero dimensions")?
			} else {
				n as u64 * dims as u64
			};
			if cnt * b.vbits as u64 > r.bits_left() as u64 {
				return Err("setup header ends early".into());
			}
			for _ in 0..cnt {
				b.mult.push(get!(b.vbits as u32));
			}
		}
		books.push(b);
	}
	let ntimes = get!(6) + 1;
	let mut times = vec![];
	for _ in 0..ntimes {
		times.push(get!(16) as u16);
		if strict && times.last() != Some(&0) {
			return Err("time transform".into());
		}
	}
	let nfloors = get!(6) + 1;
	let mut floors = vec![];
	for _ in 0..nfloors {
		if get!(16) != 1 {
			return Err("floor type".into());
		}
		let np = get!(5);
		let mut parts = vec![];
		for _ in 0..np {
			parts.push(get!(4) as u8);
		}
		let ncls = parts.iter().max().map_or(0, |m| *m as usize + 1);
		let mut classes = vec![];
		for _ in 0..ncls {
			let dim = get!(3) as u8 + 1;
			let sub = get!(2) as u8;
			let master = if sub != 0 { get!(8) as u8 } else { 0 };
			if sub != 0 && master as u32 >= nbooks {
				return Err("floor master book".into());
			}
			let mut bk = vec![];
			for _ in 0..1 << sub {
				bk.push(get!(8) as u8);
				if *bk.last().unwrap() as u32 > nbooks {
					return Err("floor book".into());
				}
			}
			classes.push(FloorClass { dim, sub, master, books: bk });
		}
		let mult = get!(2) as u8 + 1;
		let range_bits = get!(4) as u8;
		let mut xs = vec![];
		for p in &parts {
			for _ in 0..classes[*p as usize].dim {
				let x = get!(range_bits as u32);
				if xs.contains(&x) {
					return Err("repeated floor point".into());
				}
				xs.push(x);
			}
		}
		if xs.len() > 65 || (strict && xs.len() > 63) {
			return Err("too many floor points".into());
		}
		floors.push(Floor { parts, classes, mult, range_bits, xs });
	}
	let nres = get!(6) + 1;
	let mut residues = vec![];
	for _ in 0..nres {
		let ty = get!(16) as u16;
		if ty > 2 {
			return Err("residue type".into());
		}
		let begin = get!(24);
		let end = get!(24);
		let psize = get!(24) + 1;
		let nclass = get!(6) as u8 + 1;
		let classbook = get!(8) as u8;
		if classbook as u32 >= nbooks {
			return Err("residue class book".into());
		}
		let cb = &books[classbook as usize];
		if (nclass as u64).saturating_pow(cb.dims as u32) > cb.lens.len() as u64 {
			return Err("residue class book is too small".into());
		}
		let mut masks = vec![];
		for _ in 0..nclass {
			let lo = get!(3);
			let hi = if get!(1) == 1 { get!(5) } else { 0 };
			masks.push(hi << 3 | lo);
		}
		let mut bks = vec![];
		for m in masks {
			let mut row = [None; 8];
			for (j, slot) in row.iter_mut().enumerate() {
				if m >> j & 1 == 1 {
					let b = get!(8) as u8;
					if b as u32 >= nbooks {
						return Err("residue book".into());
					}
					*slot = Some(b);
				}
			}
			bks.push(row);
		}
		residues.push(Residue { ty, begin, end, psize, nclass, classbook, books: bks });
	}
	let nmap = get!(6) + 1;
	let mut mappings = vec![];
	for _ in 0..nmap {
		if get!(16) != 0 {
			return Err("mapping type".into());
		}
		let nsub = if get!(1) == 1 { get!(4) + 1 } else { 1 };
		let mut coupling = vec![];
		if get!(1) == 1 {
			let n = get!(8) + 1;
			let w = ilog(channels as u64 - 1);
			for _ in 0..n {
				let (a, b) = (get!(w) as u8, get!(w) as u8);
				if a == b || a >= channels || b >= channels {
					return Err("coupling".into());
				}
				coupling.push((a, b));
			}
		}
		let reserved = get!(2) as u8;
		if strict && reserved != 0 {
			return Err("mapping reserved bits".into());
		}
		let mut mux = vec![0u8; channels as usize];
		if nsub > 1 {
			for m in &mut mux {
				*m = get!(4) as u8;
				if *m as u32 >= nsub {
					return Err("mux".into());
				}
			}
		}
		let mut submaps = vec![];
		for _ in 0..nsub {
			let t = (get!(8) as u8, get!(8) as u8, get!(8) as u8);
			if t.1 as u32 >= nfloors || t.2 as u32 >= nres {
				return Err("submap".into());
			}
			submaps.push(t);
		}
		mappings.push(Mapping { coupling, mux, submaps, reserved });
	}
	let nmodes = get!(6) + 1;
	let mut modes = vec![];
	for _ in 0..nmodes {
		let m = Mode { big: get!(1) == 1, window: get!(16) as u16, transform: get!(16) as u16, mapping: get!(8) as u8 };
		if m.mapping as u32 >= nmap || (strict && (m.window != 0 || m.transform != 0)) {
			return Err("mode".into());
		}
		modes.push(m);
	}
	let framing = r.bit() == Some(1);
	if strict && !framing {
		return Err("setup framing bit".into());
	}
	let used = 7 + r.pos.div_ceil(8);
	if strict && used != d.len() {
		return Err("trailing bytes after the setup header".into());
	}
	Ok(Setup { books, times, floors, residues, mappings, modes, framing, trailing: d.get(used..).unwrap_or(&[]).to_vec() })
}

/// Says where two setups differ in anything that matters to a decoder, ignoring how
/// entries are coded.
pub fn setup_diff(a: &Setup, b: &Setup) -> Option<String> {
	if a.books.len() != b.books.len() {
		return Some("number of codebooks".into());
	}
	for (i, (x, y)) in a.books.iter().zip(&b.books).enumerate() {
		if x.dims != y.dims || x.lens.len() != y.lens.len() || x.lookup != y.lookup {
			return Some(format!("shape of codebook {i}"));
		}
		if x.lookup != 0 {
			if x.min != y.min || x.delta != y.delta {
				return Some(format!(
					"lookup range of codebook {i}: minimum {:#010x} -> {:#010x}, delta {:#010x} -> {:#010x}",
					x.min, y.min, x.delta, y.delta
				));
			}
			if x.vbits != y.vbits || x.seqp != y.seqp || x.mult != y.mult {
				return Some(format!("lookup values of codebook {i}"));
			}
		}
	}
	if a.floors != b.floors {
		return Some("floors".into());
	}
	let norm = |r: &Residue| Residue { end: r.end.max(r.begin), ..r.clone() };
	if a.residues.iter().map(norm).ne(b.residues.iter().map(norm)) {
		return Some("residues".into());
	}
	let norm = |m: &Mapping| {
		(m.coupling.clone(), m.mux.clone(), m.submaps.iter().map(|s| (s.1, s.2)).collect::<Vec<_>>())
	};
	if a.mappings.iter().map(norm).ne(b.mappings.iter().map(norm)) {
		return Some("mappings".into());
	}
	let norm = |m: &Mode| (m.big, m.mapping);
	if a.modes.iter().map(norm).ne(b.modes.iter().map(norm)) {
		return Some("modes".into());
	}
	None
}

// ---------------------------------------------------------------- codewords

/// Codewords (most significant bit first) for the given lengths, assigned as libvorbis does.
pub fn make_words(lens: &[u8]) -> Result<Vec<u32>, String> {
	let mut marker = [0u64; 34];
	let mut words = vec![0u32; lens.len()];
	for (i, l) in lens.iter().enumerate() {
		let l = *l as usize;
		if l == 0 {
			continue;
		}
		let mut entry = marker[l];
		if entry >> l != 0 {
			return Err("overspecified code".into());
		}
		words[i] = entry as u32;
		for j in (1..=l).rev() {
			if marker[j] & 1 == 1 {
				if j == 1 {
					marker[1] += 1;
				} else {
					marker[j] = marker[j - 1] << 1;
				}
				break;
			}
			marker[j] += 1;
		}
		for j in l + 1..33 {
			if marker[j] >> 1 == entry {
				entry = marker[j];
				marker[j] = marker[j - 1] << 1;
			} else {
				break;
			}
		}
	}
	Ok(words)
}

/// Twice the Kraft sum scaled to 2^32, to tell complete, incomplete and overfull codes apart.
pub fn kraft(lens: &[u8]) -> u64 {
	lens.iter().filter(|l| **l != 0).map(|l| 1u64 << (32 - *l as u32)).sum()
}
pub const KRAFT_ONE: u64 = 1 << 32;

#[derive(Clone, Debug)]
pub struct Huff {
	nodes: Vec<[i32; 2]>,
	single: bool
}
impl Huff {
	pub fn new(lens: &[u8]) -> Result<Huff, String> {
		let words = make_words(lens)?;
		let mut nodes = vec![[0i32; 2]];
		for (i, l) in lens.iter().enumerate() {
			let mut n = 0usize;
			for k in (0..*l).rev() {
				let b = (words[i] >> k & 1) as usize;
				if k == 0 {
					nodes[n][b] = -(i as i32) - 1;
				} else {
					if nodes[n][b] == 0 {
						nodes.push([0; 2]);
						let m = nodes.len() as i32 - 1;
						nodes[n][b] = m;
					}
					n = nodes[n][b] as usize;
				}
			}
		}
		Ok(Huff { nodes, single: lens == [1] })
	}
	pub fn decode(&self, r: &mut BitR) -> Result<u32, Stop> {
		let mut n = 0usize;
		loop {
			let b = r.bit().ok_or(Stop::Eop)? as usize;
			if self.single {
				return Ok(0);
			}
			match self.nodes[n][b] {
				0 => return Err(Stop::Bad("unassigned codeword".into())),
				x if x < 0 => return Ok((-x - 1) as u32),
				x => n = x as usize
			}
		}
	}
}

// ---------------------------------------------------------------- audio packet walk

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
	Eop,
	Bad(String)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
	Type,
	Mode,
	Window,
	FloorFlag,
	FloorY
}

pub trait PacketIo {
	fn raw(&mut self, what: What, width: u32) -> Result<u32, Stop>;
	fn entry(&mut self, book: usize) -> Result<u32, Stop>;
}

/// How far the walk came before it stopped.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Progress {
	pub mode: Option<usize>,
	/// The mode and window flags are known, so that a decoder would not ignore the packet.
	pub header_done: bool
}

pub fn walk<I: PacketIo>(s: &Setup, channels: u8, bs: [u8; 2], io: &mut I, pr: &mut Progress) -> Result<(), Stop> {
	if io.raw(What::Type, 1)? != 0 {
		return Err(Stop::Bad("not an audio packet".into()));
	}
	let mode_n = io.raw(What::Mode, ilog(s.modes.len() as u64 - 1))? as usize;
	let mode = s.modes.get(mode_n).ok_or(Stop::Bad("mode number".into()))?;
	pr.mode = Some(mode_n);
	if mode.big {
		io.raw(What::Window, 1)?;
		io.raw(What::Window, 1)?;
	}
	pr.header_done = true;
	let n = 1u32 << bs[mode.big as usize] >> 1;
	let map = &s.mappings[mode.mapping as usize];
	let mut silent = vec![];
	for ch in 0..channels as usize {
		let floor = &s.floors[map.submaps[map.mux[ch] as usize].1 as usize];
		silent.push(!walk_floor(floor, io)?);
	}
	for (m, a) in &map.coupling {
		let (m, a) = (*m as usize, *a as usize);
		if !silent[m] || !silent[a] {
			silent[m] = false;
			silent[a] = false;
		}
	}
	for (i, sub) in map.submaps.iter().enumerate() {
		let skip: Vec<bool> = (0..channels as usize).filter(|c| map.mux[*c] as usize == i).map(|c| silent[c]).collect();
		if skip.iter().all(|s| *s) {
			continue;
		}
		let r = &s.residues[sub.2 as usize];
		if r.ty == 2 {
			walk_residue(s, r, n * skip.len() as u32, &[false], io)?;
		} else {
			walk_residue(s, r, n, &skip, io)?;
		}
	}
	Ok(())
}

fn walk_floor<I: PacketIo>(f: &Floor, io: &mut I) -> Result<bool, Stop> {
	if io.raw(What::FloorFlag, 1)? == 0 {
		return Ok(false);
	}
	let w = [8, 7, 7, 6][f.mult as usize - 1];
	io.raw(What::FloorY, w)?;
	io.raw(What::FloorY, w)?;
	for p in &f.parts {
		let c = &f.classes[*p as usize];
		let mut v = if c.sub > 0 { io.entry(c.master as usize)? } else { 0 };
		for _ in 0..c.dim {
			let b = c.books[(v & ((1 << c.sub) - 1)) as usize];
			v >>= c.sub;
			if b > 0 {
				io.entry(b as usize - 1)?;
			}
		}
	}
	Ok(true)
}

fn walk_residue<I: PacketIo>(s: &Setup, r: &Residue, size: u32, skip: &[bool], io: &mut I) -> Result<(), Stop> {
	let begin = r.begin.min(size);
	let end = r.end.min(size);
	if end <= begin {
		return Ok(());
	}
	let parts = ((end - begin) / r.psize) as usize;
	let per_word = s.books[r.classbook as usize].dims as usize;
	let mut class = vec![vec![0usize; parts]; skip.len()];
	if parts > 0 && per_word == 0 {
		return Err(Stop::Bad("class book without dimensions".into()));
	}
	for pass in 0..8 {
		let mut p = 0;
		while p < parts {
			if pass == 0 {
				for (j, sk) in skip.iter().enumerate() {
					if *sk {
						continue;
					}
					let mut t = io.entry(r.classbook as usize)? as usize;
					for k in (0..per_word).rev() {
						if p + k < parts {
							class[j][p + k] = t % r.nclass as usize;
						}
						t /= r.nclass as usize;
					}
				}
			}
			for _ in 0..per_word {
				if p >= parts {
					break;
				}
				for (j, sk) in skip.iter().enumerate() {
					if *sk {
						continue;
					}
					if let Some(b) = r.books[class[j][p]][pass] {
						let bk = &s.books[b as usize];
						if bk.lookup == 0 {
							return Err(Stop::Bad("scalar book in vector context".into()));
						}
						if bk.dims == 0 || r.psize % bk.dims as u32 != 0 {
							return Err(Stop::Bad("book dimensions".into()));
						}
						for _ in 0..r.psize / bk.dims as u32 {
							io.entry(b as usize)?;
						}
					}
				}
				p += 1;
			}
		}
	}
	Ok(())
}

/// One decoded item: raw bits or a codebook entry.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sym {
	Raw(u32, u8),
	Entry(u16, u32)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
	/// Everything decoded; the packet used this many bits.
	Complete(usize),
	/// The packet ended within the audio data, in the item that starts at this bit.
	Cut(usize),
	/// The packet ended before the decoder knew the block mode.
	Ignored,
	Bad(String)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Decoded {
	pub syms: Vec<Sym>,
	/// Bit position after each item.
	pub ends: Vec<usize>,
	pub end: End,
	pub mode: Option<usize>,
	pub blocksize: Option<u32>
}

pub struct Decoder {
	pub setup: Setup,
	pub channels: u8,
	pub bs: [u8; 2],
	huff: Vec<Huff>
}

struct DecIo<'a> {
	d: &'a Decoder,
	r: BitR<'a>,
	syms: Vec<Sym>,
	ends: Vec<usize>,
	item_start: usize
}
impl PacketIo for DecIo<'_> {
	fn raw(&mut self, what: What, width: u32) -> Result<u32, Stop> {
		self.item_start = self.r.pos;
		let v = self.r.get(width).ok_or(Stop::Eop)?;
		let _ = what;
		self.syms.push(Sym::Raw(v, width as u8));
		self.ends.push(self.r.pos);
		Ok(v)
	}
	fn entry(&mut self, book: usize) -> Result<u32, Stop> {
		self.item_start = self.r.pos;
		let e = self.d.huff[book].decode(&mut self.r)?;
		self.syms.push(Sym::Entry(book as u16, e));
		self.ends.push(self.r.pos);
		Ok(e)
	}
}

impl Decoder {
	pub fn new(setup: Setup, channels: u8, bs: [u8; 2]) -> Result<Decoder, String> {
		let huff = setup
			.books
			.iter()
			.enumerate()
			.map(|(i, b)| Huff::new(&b.lens).map_err(|e| format!("codebook {i}: {e}")))
			.collect::<Result<Vec<_>, _>>()?;
		Ok(Decoder { setup, channels, bs, huff })
	}
	pub fn decode(&self, packet: &[u8]) -> Decoded {
		let mut io = DecIo { d: self, r: BitR::new(packet), syms: vec![], ends: vec![], item_start: 0 };
		let mut pr = Progress::default();
		let res = walk(&self.setup, self.channels, self.bs, &mut io, &mut pr);
		let end = match res {
			Ok(()) => End::Complete(io.r.pos),
			Err(Stop::Eop) if !pr.header_done => End::Ignored,
			Err(Stop::Eop) => End::Cut(io.item_start),
			Err(Stop::Bad(e)) => End::Bad(e)
		};
		Decoded {
			syms: io.syms,
			ends: io.ends,
			blocksize: pr.mode.map(|m| 1u32 << self.bs[self.setup.modes[m].big as usize]),
			mode: pr.mode,
			end
		}
	}
}

/// The least total number of bits a prefix code can spend on these frequencies.
/// The bits that the best prefix code spends, and the length of its longest codeword (as short
/// as a best code can have it).
pub fn optimal_code(freqs: &[u64]) -> (u64, u32) {
	use std::{cmp::Reverse, collections::BinaryHeap};
	let mut h: BinaryHeap<Reverse<(u64, u32)>> = freqs.iter().filter(|f| **f > 0).map(|f| Reverse((*f, 0))).collect();
	if h.len() == 1 {
		return (h.pop().unwrap().0.0, 1);
	}
	let (mut total, mut depth) = (0, 0);
	while h.len() > 1 {
		let (a, b) = (h.pop().unwrap().0, h.pop().unwrap().0);
		total += a.0 + b.0;
		depth = a.1.max(b.1) + 1;
		h.push(Reverse((a.0 + b.0, depth)));
	}
	(total, depth)
}
pub fn optimal_bits(freqs: &[u64]) -> u64 {
	optimal_code(freqs).0
}

#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn spec_example() {
		let w = make_words(&[2, 4, 4, 4, 4, 2, 3, 3]).unwrap();
		assert_eq!(w, [0, 4, 5, 6, 7, 2, 6, 7]);
		assert_eq!(optimal_bits(&[20, 17, 6, 3, 2, 2, 2, 1, 1, 1]), 20 + 34 + 24 + 15 + 30 + 5 + 12);
		assert_eq!(optimal_code(&crate::input::skewed_weights(20)).1, 19);
		assert_eq!(lookup1_values(100, 5), Some(2));
		assert_eq!(lookup1_values(81, 4), Some(3));
		assert_eq!(lookup1_values(0, 3), Some(0));
		assert_eq!(lookup1_values(0xFFFFFF, 65535), Some(1));
	}
}
