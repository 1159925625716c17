//! The reference model: what a remux of given bytes under given settings has to produce,
//! computed with the independent codec of this crate, and the judge that compares it with
//! what the code under test wrote.

use crate::{
	json::J,
	obj,
	ogg::{self, EOS, BOS, NO_GP, Page, Pkt},
	rng::Hash64,
	vorbis::*
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Conf {
	pub randomize: bool,
	pub offset: u32,
	pub ignore_start: bool,
	pub error_on_none: bool,
	pub verify: bool,
	/// 0 copy, 1 replace, 2 append tag, 3 append short tag, 4 empty.
	pub vendor: u8,
	/// 0 copy, 1 delete.
	pub comments: u8
}
impl Default for Conf {
	fn default() -> Self {
		Self { randomize: true, offset: 0, ignore_start: false, error_on_none: true, verify: true, vendor: 2, comments: 0 }
	}
}
impl Conf {
	pub fn from(j: &J) -> Conf {
		let d = Conf::default();
		Conf {
			randomize: j.flag("randomize", d.randomize),
			offset: j.num("offset", 0, 0, u32::MAX as i64) as u32,
			ignore_start: j.flag("ignore_start", d.ignore_start),
			error_on_none: j.flag("error_on_none", d.error_on_none),
			verify: j.flag("verify", d.verify),
			vendor: j.num("vendor", 2, 0, 4) as u8,
			comments: j.num("comments", 0, 0, 1) as u8
		}
	}
	pub fn to_json(&self) -> J {
		obj! {"randomize" => self.randomize, "offset" => self.offset, "ignore_start" => self.ignore_start,
		"error_on_none" => self.error_on_none, "verify" => self.verify, "vendor" => self.vendor, "comments" => self.comments}
	}
}

#[derive(Clone, Debug)]
pub struct XPacket {
	pub dec: Decoded,
	pub bs: u32,
	/// Position stated by the page on which the packet ends.
	pub page_gp: i64,
	pub last_in_page: bool,
	/// Number of the packet in its logical stream, from zero.
	pub index: usize
}

#[derive(Clone, Debug)]
pub struct XStream {
	pub serial: u32,
	pub id: Id,
	pub comments: Option<Comments>,
	pub setup: Option<Setup>,
	pub setup_bytes: Vec<u8>,
	/// Packets a decoder would not ignore.
	pub kept: Vec<XPacket>,
	pub dropped: usize,
	/// Number of the kept packet that fixes the start offset.
	pub anchor: Option<usize>,
	pub headers: usize
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
	MustOk,
	/// Either an error, or exactly the modelled streams.
	MayErr,
	MustErr(Why),
	/// Outside of what the model predicts.
	Unknown
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
	Multiplex,
	NoVorbis,
	Crc,
	Stream
}

#[derive(Clone, Debug)]
pub struct Model {
	pub verdict: Verdict,
	pub why: String,
	pub streams: Vec<XStream>,
	pub others: usize,
	/// A Vorbis stream follows one whose end mark is on a page without packets.
	pub nil_end: bool
}

impl XStream {
	/// Samples a decoder has returned after each kept packet.
	pub fn cumulative(&self) -> Vec<i64> {
		let mut v = Vec::with_capacity(self.kept.len());
		let mut pos = 0i64;
		for (i, p) in self.kept.iter().enumerate() {
			if i > 0 {
				pos += ((self.kept[i - 1].bs + p.bs) / 4) as i64;
			}
			v.push(pos);
		}
		v
	}
	/// Start offset that the first audio page of the input establishes. A page that is the
	/// first and the last one tells the end, not the start.
	pub fn start_offset(&self, cum: &[i64]) -> i64 {
		match self.anchor {
			Some(a) if a + 1 < self.kept.len() || a == 0 => self.kept[a].page_gp.saturating_sub(cum[a]),
			_ => 0
		}
	}
	/// Granule position of every kept packet as it has to be stated when a page ends there.
	pub fn positions(&self, ignore_start: bool) -> Vec<i64> {
		let cum = self.cumulative();
		let off = self.start_offset(&cum);
		let shift = if ignore_start { 0 } else { off };
		let mut v: Vec<i64> = cum.iter().map(|c| c.wrapping_add(shift)).collect();
		let n = v.len();
		if n > 1 {
			let orig = self.kept[n - 1].page_gp;
			let (lo, hi) = (cum[n - 2].wrapping_add(off).wrapping_add(1), cum[n - 1].wrapping_add(off));
			if lo <= orig && orig <= hi {
				v[n - 1] = orig.wrapping_sub(off).wrapping_add(shift);
			}
		}
		v
	}
	/// The stream's positions come near the ends of the number range.
	pub fn extreme(&self) -> bool {
		let cum = self.cumulative();
		let off = self.start_offset(&cum);
		let top = cum.last().copied().unwrap_or(0);
		off.checked_add(top).and_then(|x| x.checked_add(1)).is_none()
			|| self.kept.last().is_some_and(|k| k.page_gp.checked_sub(off).is_none())
			|| self.anchor.is_some_and(|a| self.kept[a].page_gp.checked_sub(cum[a]).is_none())
	}
	pub fn has_cut(&self) -> bool {
		self.kept.iter().any(|k| matches!(k.dec.end, End::Cut(_)))
	}
	pub fn shape_hash(&self, h: &mut Hash64) {
		h.u64(self.id.channels as u64 | (self.id.bs[0] as u64) << 8 | (self.id.bs[1] as u64) << 16);
		h.bytes(&self.setup_bytes);
		h.u64(self.kept.len() as u64 | (self.dropped as u64) << 32);
		for k in &self.kept {
			h.u64(k.dec.syms.len() as u64 | (k.last_in_page as u64) << 40 | (k.bs as u64) << 44);
		}
	}
}

/// Computes what has to happen for the given input bytes, which start at the position the
/// source was in when the remux was called.
pub fn predict(data: &[u8], conf: &Conf) -> Model {
	let mut m = Model { verdict: Verdict::MustOk, why: String::new(), streams: vec![], others: 0, nil_end: false };
	let unknown = |mut m: Model, why: &str| {
		m.verdict = Verdict::Unknown;
		m.why = why.into();
		m
	};
	let mut pages: Vec<Page> = vec![];
	let mut pos = 0;
	let mut tail = false;
	while pos < data.len() {
		match ogg::parse_page(data, pos, false) {
			Ok(p) => {
				if p.crc_xor != 0 && conf.verify {
					m.verdict = Verdict::MustErr(Why::Crc);
					m.why = format!("checksum of page {}", pages.len());
					return m;
				}
				pos += p.len();
				pages.push(p);
			}
			Err(Some(e)) => return unknown(m, &e),
			Err(None) => {
				tail = true;
				break;
			}
		}
	}
	if pages.is_empty() {
		return unknown(m, "no complete page");
	}
	for (i, p) in pages.iter().enumerate() {
		if p.flags & !7 != 0 {
			return unknown(m, "reserved page flags");
		}
		if p.flags & BOS != 0 && p.ends() == 0 {
			return unknown(m, "begin page without packet");
		}
		if p.flags & BOS != 0 && p.segs.iter().take_while(|s| **s == 255).count() + 1 != p.segs.len() {
			return unknown(m, "begin page with more than one packet");
		}
		if pages[..i].iter().any(|q| q.serial == p.serial && q.flags & EOS != 0) {
			return unknown(m, "page after an end mark");
		}
	}
	let pkts = match ogg::packets(&pages) {
		Ok(p) => p,
		Err(e) => return unknown(m, &e)
	};
	let ended_before = |serial: u32, page: usize| pages[..page].iter().any(|q| q.serial == serial && q.flags & EOS != 0);
	struct Live {
		x: XStream,
		dec: Option<Decoder>,
		count: usize
	}
	let mut live: Vec<Live> = vec![];
	let must_err = |mut m: Model, w: Why, why: String| {
		m.verdict = Verdict::MustErr(w);
		m.why = why;
		m
	};
	for k in &pkts {
		let Pkt { serial, data, .. } = k;
		if k.first_in_stream {
			match parse_id(data) {
				IdParse::NotVorbis => m.others += 1,
				IdParse::Bad(e) => return must_err(m, Why::Stream, e),
				IdParse::Ok(id) => {
					if let Some(l) = live.last() {
						m.nil_end |= pages[..k.end_page].iter().any(|q| q.serial == l.x.serial && q.flags & EOS != 0 && q.ends() == 0);
						if !ended_before(l.x.serial, k.end_page) {
							return must_err(m, Why::Multiplex, "stream starts before the previous one ended".into());
						}
					}
					live.push(Live {
						x: XStream {
							serial: *serial,
							id,
							comments: None,
							setup: None,
							setup_bytes: vec![],
							kept: vec![],
							dropped: 0,
							anchor: None,
							headers: 1
						},
						dec: None,
						count: 1
					});
				}
			}
			continue;
		}
		let Some(l) = live.iter_mut().find(|l| l.x.serial == *serial) else { continue };
		let index = l.count;
		l.count += 1;
		match index {
			1 => match read_comments(data) {
				Ok(c) => {
					l.x.comments = Some(c);
					l.x.headers = 2;
				}
				Err(e) => return must_err(m, Why::Stream, e)
			},
			2 => {
				let setup = match parse_setup(data, l.x.id.channels, false) {
					Ok(s) => s,
					Err(e) => return must_err(m, Why::Stream, e)
				};
				let mut too_big = 0usize;
				for b in &setup.books {
					too_big += b.lens.len();
				}
				if too_big > 4_000_000 {
					return unknown(m, "huge codebooks");
				}
				match Decoder::new(setup.clone(), l.x.id.channels, l.x.id.bs) {
					Ok(d) => l.dec = Some(d),
					Err(e) => return must_err(m, Why::Stream, e)
				}
				l.x.setup = Some(setup);
				l.x.setup_bytes = data.clone();
				l.x.headers = 3;
			}
			_ => {
				let d = l.dec.as_ref().unwrap().decode(data);
				match &d.end {
					End::Bad(e) if e.contains("without dimensions") => return unknown(m, "class book without dimensions"),
					End::Bad(e) => {
						let e = format!("audio packet {}: {e}", index - 3);
						return must_err(m, Why::Stream, e);
					}
					End::Ignored => l.x.dropped += 1,
					_ => {
						if k.last_in_page && l.x.anchor.is_none() {
							l.x.anchor = Some(l.x.kept.len());
						}
						let bs = d.blocksize.unwrap();
						l.x.kept.push(XPacket { dec: d, bs, page_gp: k.gp as i64, last_in_page: k.last_in_page, index });
					}
				}
			}
		}
	}
	m.streams = live.into_iter().map(|l| l.x).collect();
	if m.streams.is_empty() {
		if conf.error_on_none {
			return must_err(m, if tail { Why::Stream } else { Why::NoVorbis }, "no Vorbis stream".into());
		}
		if tail {
			m.verdict = Verdict::MayErr;
		}
		return m;
	}
	if tail {
		m.verdict = Verdict::MayErr;
		m.why = "input ends within a page".into();
	} else if m.streams.iter().any(|s| s.headers < 3) {
		m.verdict = Verdict::MayErr;
		m.why = "headers are incomplete".into();
	}
	m
}

/// A violation: property, class (stable across shrinking) and message.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Viol {
	pub prop: &'static str,
	pub class: String,
	pub msg: String
}
pub fn viol(prop: &'static str, class: impl Into<String>, msg: impl Into<String>) -> Viol {
	Viol { prop, class: class.into(), msg: msg.into() }
}

/// The vendor strings that satisfy the configured action.
pub fn vendor_options(c: &Comments, action: u8, tags: (&str, &str)) -> Vec<Vec<u8>> {
	let act = |v: &[u8]| -> Vec<u8> {
		let tagged = [tags.0, tags.1].iter().any(|t| v.ends_with(format!("; {t}").as_bytes()));
		match action {
			0 => v.to_vec(),
			1 => tags.0.as_bytes().to_vec(),
			2 if !tagged => [v, b"; ", tags.0.as_bytes()].concat(),
			3 if !tagged => [v, b"; ", tags.1.as_bytes()].concat(),
			4 => vec![],
			_ => v.to_vec()
		}
	};
	match &c.vendor {
		Some(v) => vec![act(v)],
		// Nothing of the vendor string is left: an empty string, or one made from nothing
		None => vec![vec![], act(b"")]
	}
}

/// What the judge found out besides violations.
#[derive(Clone, Debug, Default)]
pub struct Report {
	pub serials: Vec<u32>,
	pub pages: usize,
	pub packets: usize,
	pub symbols: usize,
	/// Cut packets whose zero padding decodes as further values.
	pub pad_extra: usize,
	pub cut_packets: usize,
	pub books_checked: usize,
	pub single_books: usize,
	pub unused_books: usize,
	pub limited_books: usize
}

/// Which aspects of the output to compare; a caller that changes some on purpose (a mangler,
/// say) leaves them out.
#[derive(Clone, Copy, Debug)]
pub struct Aspects {
	pub serials: bool,
	pub granules: bool,
	pub rates: bool
}
pub const ALL: Aspects = Aspects { serials: true, granules: true, rates: true };

/// Compares the bytes of a successful remux with the model's streams.
pub fn judge(m: &Model, conf: &Conf, out: &[u8], tags: (&str, &str), asp: Aspects) -> (Vec<Viol>, Report) {
	let mut v: Vec<Viol> = vec![];
	let mut rep = Report::default();
	if out.is_empty() && m.streams.is_empty() {
		return (v, rep);
	}
	let (pages, streams) = match ogg::strict_streams(out) {
		Ok(s) => s,
		Err(e) => {
			v.push(viol("C03", "ogg", e));
			return (v, rep);
		}
	};
	rep.pages = pages.len();
	rep.serials = streams.iter().map(|s| s[0].serial).collect();
	if streams.len() != m.streams.len() {
		let class = if streams.len() < m.streams.len() { "stream-lost" } else { "stream-extra" };
		v.push(viol("C01", class, format!("{} streams in the output instead of {}", streams.len(), m.streams.len())));
		return (v, rep);
	}
	if asp.serials && !conf.randomize {
		for (i, s) in rep.serials.iter().enumerate() {
			let want = conf.offset.wrapping_add(i as u32);
			if *s != want {
				v.push(viol("C12", "fixed-serial", format!("stream {i} has serial {s:#x} instead of {want:#x}")));
			}
		}
	}
	for (i, (x, s)) in m.streams.iter().zip(&streams).enumerate() {
		judge_stream(i, x, s, &pages, conf, tags, asp, &mut v, &mut rep);
	}
	(v, rep)
}

#[allow(clippy::too_many_arguments)]
fn judge_stream(
	si: usize, x: &XStream, s: &[Pkt], pages: &[Page], conf: &Conf, tags: (&str, &str), asp: Aspects, v: &mut Vec<Viol>,
	rep: &mut Report
) {
	// Page structure
	let own: Vec<&Page> = pages.iter().filter(|p| p.serial == s[0].serial).collect();
	if x.headers >= 3 && s.len() < 3 {
		v.push(viol("C03", "headers-missing", format!("stream {si} has only {} packets", s.len())));
		return;
	}
	if own[0].ends() != 1 || own[0].segs.last() == Some(&255) {
		v.push(viol("C03", "first-page", format!("stream {si}: the first page does not hold the identification header alone")));
	}
	if s.len() > 2 && !s[2].last_in_page {
		v.push(viol("C03", "audio-page", format!("stream {si}: audio shares a page with the setup header")));
	} else if s.len() > 2 && own.iter().any(|p| std::ptr::eq(*p, &pages[s[2].end_page]) && p.segs.last() == Some(&255)) {
		v.push(viol("C03", "audio-page", format!("stream {si}: audio starts on the page of the setup header")));
	}
	// Identification header
	match parse_id(&s[0].data) {
		IdParse::Ok(id) => {
			if s[0].data.len() != 30 || id.framing & 1 != 1 {
				v.push(viol("C03", "id-layout", format!("stream {si}: identification header of {} bytes, framing {}", s[0].data.len(), id.framing)));
			}
			let same = id.channels == x.id.channels
				&& id.bs == x.id.bs
				&& (!asp.rates || (id.rate == x.id.rate && id.bitrates == x.id.bitrates));
			if !same {
				v.push(viol("C01", "id", format!("stream {si}: identification {:?} became {:?}", x.id, id)));
				return;
			}
		}
		e => {
			v.push(viol("C03", "id-parse", format!("stream {si}: {e:?}")));
			return;
		}
	}
	if s.len() < 3 {
		if s.len() != x.headers {
			v.push(viol("C07", "headers", format!("stream {si}: {} header packets instead of {}", s.len(), x.headers)));
		}
		return;
	}
	if x.headers < 3 {
		v.push(viol("C07", "headers", format!("stream {si}: {} packets out of {} headers", s.len(), x.headers)));
		return;
	}
	// Comment header
	match strict_comments(&s[1].data) {
		Err(e) => {
			v.push(viol("C03", "comments", format!("stream {si}: {e}")));
			v.push(viol("C15", "comments", format!("stream {si}: {e}")));
		}
		Ok(c) => {
			let xc = x.comments.as_ref().unwrap();
			let want = if conf.comments == 1 { vec![] } else { xc.comments.clone() };
			if c.comments != want {
				v.push(viol("C15", "comments", format!("stream {si}: {} comments instead of {}", c.comments.len(), want.len())));
			}
			let got = c.vendor.unwrap();
			let ok = vendor_options(xc, conf.vendor, tags);
			if !ok.contains(&got) {
				v.push(viol(
					"C15",
					"vendor",
					format!("stream {si}: vendor {:?} instead of {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&ok[0]))
				));
			}
		}
	}
	// Setup header
	let xs = x.setup.as_ref().unwrap();
	let ys = match parse_setup(&s[2].data, x.id.channels, true) {
		Ok(s) => s,
		Err(e) => {
			// A header that parses leniently is malformed; one that does not loses data as well
			v.push(viol("C03", "setup", format!("stream {si}: {e}")));
			v.push(viol("C01", "setup-parse", format!("stream {si}: {e}")));
			return;
		}
	};
	if let Some(d) = setup_diff(xs, &ys) {
		if d.starts_with("lookup") {
			v.push(viol("C19", "lookup", format!("stream {si}: {d}")));
		}
		v.push(viol("C01", "setup", format!("stream {si}: {d}")));
		return;
	}
	let dec = match Decoder::new(ys.clone(), x.id.channels, x.id.bs) {
		Ok(d) => d,
		Err(e) => {
			v.push(viol("C03", "setup-code", format!("stream {si}: {e}")));
			v.push(viol("C01", "setup-code", format!("stream {si}: {e}")));
			return;
		}
	};
	// Audio packets
	let audio = &s[3..];
	rep.packets += audio.len();
	if audio.len() != x.kept.len() {
		v.push(viol("C01", "packet-count", format!("stream {si}: {} audio packets instead of {}", audio.len(), x.kept.len())));
		return;
	}
	let mut freq: Vec<Vec<u64>> = xs.books.iter().map(|b| vec![0u64; b.lens.len()]).collect();
	for (pi, (k, p)) in x.kept.iter().zip(audio).enumerate() {
		let d = dec.decode(&p.data);
		rep.symbols += k.dec.syms.len();
		for s in &k.dec.syms {
			if let Sym::Entry(b, e) = s {
				freq[*b as usize][*e as usize] += 1;
			}
		}
		let n = k.dec.syms.len();
		let at = || format!("stream {si}, audio packet {pi}");
		if d.syms.len() < n || d.syms[..n] != k.dec.syms[..] {
			let i = d.syms.iter().zip(&k.dec.syms).position(|(a, b)| a != b).unwrap_or(d.syms.len().min(n));
			v.push(viol(
				"C01",
				"values",
				format!("{}: value {i} of {n} is {:?} instead of {:?} ({:?})", at(), d.syms.get(i), k.dec.syms.get(i), d.end)
			));
			return;
		}
		let used = d.ends.get(n.wrapping_sub(1)).copied().unwrap_or(0);
		match (&k.dec.end, &d.end) {
			(End::Complete(_), End::Complete(bits)) => {
				if d.syms.len() != n || p.data.len() != bits.div_ceil(8) {
					v.push(viol("C01", "padding", format!("{}: {} bytes for {bits} bits", at(), p.data.len())));
					return;
				}
			}
			(End::Cut(_), end) => {
				rep.cut_packets += 1;
				if p.data.len() * 8 >= used + 8 {
					v.push(viol("C01", "cut-tail", format!("{}: {} bytes follow the values of a cut packet", at(), p.data.len() - used.div_ceil(8))));
					return;
				}
				if d.syms.len() > n || !matches!(end, End::Cut(_)) {
					// A known finding: only possible within the zero padding of the last byte
					rep.pad_extra += 1;
					if !v.iter().any(|v| v.class == "cut-pad") {
						v.push(viol(
							"C01",
							"cut-pad",
							format!("{}: the padding of a packet that was cut off after {n} values decodes to {} more", at(), d.syms.len() - n)
						));
					}
				}
			}
			(a, b) => {
				v.push(viol("C01", "packet-end", format!("{}: {a:?} became {b:?}", at())));
				return;
			}
		}
		let mut tail = crate::bits::BitR { data: &p.data, pos: used };
		while let Some(b) = tail.bit() {
			if b != 0 {
				v.push(viol("C03", "padding-bits", format!("{}: padding is not zero", at())));
				break;
			}
		}
	}
	// Codes
	for (bi, (f, b)) in freq.iter().zip(&ys.books).enumerate() {
		rep.books_checked += 1;
		let used = f.iter().filter(|f| **f > 0).count();
		rep.single_books += (used == 1) as usize;
		rep.unused_books += (used == 0) as usize;
		for (e, (f, l)) in f.iter().zip(&b.lens).enumerate() {
			if (*f > 0) != (*l > 0) {
				v.push(viol("C19", "used", format!("stream {si}, codebook {bi}: entry {e} is used {f} times but has a codeword of {l} bits")));
				return;
			}
		}
		let spent: u64 = f.iter().zip(&b.lens).map(|(f, l)| f * *l as u64).sum();
		let (best, longest) = optimal_code(f);
		// Where the best code would need codewords of more than 32 bits, one that is about as good
		// as it has to do
		let limited = longest > 32;
		if limited {
			rep.limited_books += 1;
		}
		if spent != best && (!limited || spent < best || spent - best > best / 1000) {
			v.push(viol("C19", "optimal", format!("stream {si}, codebook {bi}: {spent} bits are spent, {best} would do")));
			return;
		}
	}
	// Granule positions
	if !asp.granules {
		return;
	}
	let want = x.positions(conf.ignore_start);
	for p in &s[..3] {
		if pages[p.end_page].gp != 0 {
			v.push(viol("C02", "header-position", format!("stream {si}: a header page states position {}", pages[p.end_page].gp as i64)));
			return;
		}
	}
	for p in own {
		if p.ends() == 0 && p.gp != NO_GP {
			v.push(viol("C02", "no-position", format!("stream {si}: a page without packet end states position {}", p.gp as i64)));
			return;
		}
	}
	for (pi, (p, w)) in audio.iter().zip(&want).enumerate() {
		if !p.last_in_page {
			continue;
		}
		let got = pages[p.end_page].gp as i64;
		if got != *w {
			let last = pi + 1 == audio.len();
			// Near the ends of the 64-bit range there is no right answer for corrupt positions
			if x.extreme() {
				continue;
			}
			let class = if last {
				"final-position"
			} else if x.anchor.is_some_and(|a| pi < a) && got == x.cumulative()[pi] {
				// The start offset is not applied yet, which is a known finding; anything else is not
				"position-before-anchor"
			} else {
				"position"
			};
			let early = class == "position-before-anchor";
			if !early || !v.iter().any(|v| v.class == class) {
				v.push(viol("C02", class, format!("stream {si}, audio packet {pi}: position {got} instead of {w}")));
			}
			if !early {
				return;
			}
		}
	}
}
