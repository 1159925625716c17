//! An Ogg page writer, and a strict parser for what the code under test writes.

pub const CONT: u8 = 1;
pub const BOS: u8 = 2;
pub const EOS: u8 = 4;
pub const NO_GP: u64 = u64::MAX;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Page {
	pub flags: u8,
	pub gp: u64,
	pub serial: u32,
	pub seq: u32,
	pub segs: Vec<u8>,
	pub body: Vec<u8>,
	/// XORed into the correct checksum; zero for a correct page.
	pub crc_xor: u32
}

const fn crc_table() -> [u32; 256] {
	let mut t = [0u32; 256];
	let mut i = 0;
	while i < 256 {
		let mut r = (i as u32) << 24;
		let mut k = 0;
		while k < 8 {
			r = if r & 0x8000_0000 != 0 { (r << 1) ^ 0x04c1_1db7 } else { r << 1 };
			k += 1;
		}
		t[i] = r;
		i += 1;
	}
	t
}
static CRC: [u32; 256] = crc_table();

pub fn crc(data: &[u8]) -> u32 {
	data.iter().fold(0, |c, b| (c << 8) ^ CRC[((c >> 24) as u8 ^ b) as usize])
}

impl Page {
	pub fn len(&self) -> usize {
		27 + self.segs.len() + self.body.len()
	}
	pub fn is_empty(&self) -> bool {
		false
	}
	pub fn encode(&self) -> Vec<u8> {
		let mut v = Vec::with_capacity(self.len());
		v.extend_from_slice(b"OggS\0");
		v.push(self.flags);
		v.extend_from_slice(&self.gp.to_le_bytes());
		v.extend_from_slice(&self.serial.to_le_bytes());
		v.extend_from_slice(&self.seq.to_le_bytes());
		v.extend_from_slice(&[0; 4]);
		v.push(self.segs.len() as u8);
		v.extend_from_slice(&self.segs);
		v.extend_from_slice(&self.body);
		let c = crc(&v) ^ self.crc_xor;
		v[22..26].copy_from_slice(&c.to_le_bytes());
		v
	}
	/// Number of packets that end on this page.
	pub fn ends(&self) -> usize {
		self.segs.iter().filter(|s| **s < 255).count()
	}
}

/// One logical packet with what its pages say about it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pkt {
	pub serial: u32,
	pub data: Vec<u8>,
	/// Index (into the page list) of the page on which the packet ends.
	pub end_page: usize,
	pub start_page: usize,
	pub last_in_page: bool,
	pub first_in_stream: bool,
	/// Last packet to end on a page that carries the end mark.
	pub last_in_stream: bool,
	pub gp: u64
}

/// Parses one page at `pos`. `Err` has a reason, with `None` meaning that the data ends
/// within the page.
pub fn parse_page(data: &[u8], pos: usize, check_crc: bool) -> Result<Page, Option<String>> {
	let d = &data[pos..];
	if d.len() < 27 {
		return Err(None);
	}
	if &d[..4] != b"OggS" {
		return Err(Some(format!("no capture pattern at byte {pos}")));
	}
	if d[4] != 0 {
		return Err(Some(format!("page version {} at byte {pos}", d[4])));
	}
	let n = d[26] as usize;
	if d.len() < 27 + n {
		return Err(None);
	}
	let segs = d[27..27 + n].to_vec();
	let body_len: usize = segs.iter().map(|s| *s as usize).sum();
	if d.len() < 27 + n + body_len {
		return Err(None);
	}
	let mut raw = d[..27 + n + body_len].to_vec();
	let stored = u32::from_le_bytes(raw[22..26].try_into().unwrap());
	raw[22..26].fill(0);
	let crc_xor = stored ^ crc(&raw);
	if check_crc && crc_xor != 0 {
		return Err(Some(format!("wrong checksum of the page at byte {pos}")));
	}
	Ok(Page {
		flags: d[5],
		gp: u64::from_le_bytes(d[6..14].try_into().unwrap()),
		serial: u32::from_le_bytes(d[14..18].try_into().unwrap()),
		seq: u32::from_le_bytes(d[18..22].try_into().unwrap()),
		body: d[27 + n..27 + n + body_len].to_vec(),
		segs,
		crc_xor
	})
}

/// All pages of `data`, which must consist of pages only.
pub fn parse_pages(data: &[u8], check_crc: bool) -> Result<Vec<Page>, String> {
	let mut pages = vec![];
	let mut pos = 0;
	while pos < data.len() {
		match parse_page(data, pos, check_crc) {
			Ok(p) => {
				pos += p.len();
				pages.push(p);
			}
			Err(Some(e)) => return Err(e),
			Err(None) => return Err(format!("incomplete page at byte {pos}"))
		}
	}
	Ok(pages)
}

/// Splits pages into packets. Lenient about sequence numbers and end marks, strict about
/// continuation. `Err` if the pages are not a clean packet sequence.
pub fn packets(pages: &[Page]) -> Result<Vec<Pkt>, String> {
	use std::collections::HashMap;
	struct S {
		partial: Option<(Vec<u8>, usize)>,
		fresh: bool
	}
	let mut st: HashMap<u32, S> = HashMap::new();
	let mut out = vec![];
	for (i, p) in pages.iter().enumerate() {
		let bos = p.flags & BOS != 0;
		if bos && st.contains_key(&p.serial) {
			return Err(format!("page {i}: second begin mark for serial {:#x}", p.serial));
		}
		if !bos && !st.contains_key(&p.serial) {
			return Err(format!("page {i}: stream {:#x} has no begin mark", p.serial));
		}
		let s = st.entry(p.serial).or_insert(S { partial: None, fresh: true });
		if (p.flags & CONT != 0) != s.partial.is_some() {
			return Err(format!("page {i}: continuation mark is wrong"));
		}
		let ends = p.ends();
		let mut seen = 0;
		let mut off = 0;
		let mut cur: Option<(Vec<u8>, usize)> = s.partial.take();
		for seg in &p.segs {
			let c = cur.get_or_insert_with(|| (vec![], i));
			c.0.extend_from_slice(&p.body[off..off + *seg as usize]);
			off += *seg as usize;
			if *seg < 255 {
				seen += 1;
				let (data, start_page) = cur.take().unwrap();
				out.push(Pkt {
					serial: p.serial,
					data,
					end_page: i,
					start_page,
					last_in_page: seen == ends,
					first_in_stream: std::mem::replace(&mut s.fresh, false),
					last_in_stream: seen == ends && p.flags & EOS != 0,
					gp: p.gp
				});
			}
		}
		s.partial = cur;
	}
	Ok(out)
}

/// Lays packets out on pages. Every packet comes with its granule position and whether the
/// page must end after it; pages also end after `max_segs` segments.
pub struct Paginator {
	pub serial: u32,
	pub pages: Vec<Page>,
	segs: Vec<u8>,
	body: Vec<u8>,
	cont: bool,
	gp: u64,
	seq: u32,
	max_segs: usize,
	/// Pages of irregular sizes: the number of segments of each is drawn from this.
	vary: Option<crate::rng::Rng>
}
impl Paginator {
	pub fn vary(&mut self, r: crate::rng::Rng) {
		self.vary = Some(r);
		self.draw();
	}
	fn draw(&mut self) {
		if let Some(r) = &mut self.vary {
			self.max_segs = match r.below(4) {
				0 => 1 + r.below(4) as usize,
				1 => 1 + r.below(255) as usize,
				_ => 255
			};
		}
	}
	pub fn new(serial: u32, seq0: u32, max_segs: usize) -> Self {
		Self {
			serial,
			pages: vec![],
			segs: vec![],
			body: vec![],
			cont: false,
			gp: NO_GP,
			seq: seq0,
			max_segs: max_segs.clamp(1, 255),
			vary: None
		}
	}
	fn flush(&mut self, next_is_cont: bool) {
		let flags = if self.pages.is_empty() { BOS } else { 0 } | if self.cont { CONT } else { 0 };
		self.pages.push(Page {
			flags,
			gp: self.gp,
			serial: self.serial,
			seq: self.seq,
			segs: std::mem::take(&mut self.segs),
			body: std::mem::take(&mut self.body),
			crc_xor: 0
		});
		self.seq = self.seq.wrapping_add(1);
		self.gp = NO_GP;
		self.cont = next_is_cont;
		self.draw();
	}
	pub fn packet(&mut self, data: &[u8], gp: u64, end_page: bool) {
		let mut rest = data;
		let mut started = false;
		loop {
			if self.segs.len() >= self.max_segs {
				self.flush(started);
			}
			started = true;
			let n = rest.len().min(255);
			self.segs.push(n as u8);
			self.body.extend_from_slice(&rest[..n]);
			rest = &rest[n..];
			if n < 255 {
				break;
			}
		}
		self.gp = gp;
		if end_page {
			self.flush(false);
		}
	}
	pub fn finish(mut self, eos: bool) -> Vec<Page> {
		if !self.segs.is_empty() || self.pages.is_empty() {
			self.flush(false);
		}
		if eos {
			self.pages.last_mut().unwrap().flags |= EOS;
		}
		self.pages
	}
}

/// Checks everything the format demands of a complete physical stream of chained Vorbis
/// streams. Returns the packets grouped by stream, in order of appearance.
pub fn strict_streams(data: &[u8]) -> Result<(Vec<Page>, Vec<Vec<Pkt>>), String> {
	let pages = parse_pages(data, true)?;
	let pkts = packets(&pages)?;
	let mut order: Vec<u32> = vec![];
	let mut last: Option<u32> = None;
	for (i, p) in pages.iter().enumerate() {
		if p.flags & !7 != 0 {
			return Err(format!("page {i}: reserved flag bits set"));
		}
		let bos = p.flags & BOS != 0;
		if bos != (last != Some(p.serial)) {
			return Err(format!("page {i}: streams are interleaved or a begin mark is misplaced"));
		}
		if bos {
			if order.contains(&p.serial) {
				return Err(format!("page {i}: serial {:#x} used by two streams", p.serial));
			}
			order.push(p.serial);
			if i > 0 && pages[i - 1].flags & EOS == 0 {
				return Err(format!("page {}: last page of a stream without end mark", i - 1));
			}
		} else if pages[i - 1].flags & EOS != 0 {
			return Err(format!("page {i}: page of a stream after its end mark"));
		}
		let want_seq = if bos { 0 } else { pages[i - 1].seq.wrapping_add(1) };
		if p.seq != want_seq {
			return Err(format!("page {i}: sequence number {} instead of {want_seq}", p.seq));
		}
		if (p.ends() == 0) != (p.gp == NO_GP) {
			// A real position of -1 on a page where a packet ends is legitimate.
			if p.ends() == 0 {
				return Err(format!("page {i}: position {:#x} but no packet ends here", p.gp));
			}
		}
		if p.segs.is_empty() {
			return Err(format!("page {i}: page without segments"));
		}
		last = Some(p.serial);
	}
	if let Some(p) = pages.last() {
		if p.flags & EOS == 0 {
			return Err("the last page has no end mark".into());
		}
		if p.segs.last() == Some(&255) {
			return Err("the last packet is incomplete".into());
		}
	}
	let mut streams: Vec<Vec<Pkt>> = order.iter().map(|_| vec![]).collect();
	for p in pkts {
		let i = order.iter().position(|s| *s == p.serial).unwrap();
		streams[i].push(p);
	}
	// A packet that ends a stream's page run must not be left open
	for w in pages.windows(2) {
		if w[1].flags & BOS != 0 && w[0].segs.last() == Some(&255) {
			return Err("a stream ends within a packet".into());
		}
	}
	Ok((pages, streams))
}
