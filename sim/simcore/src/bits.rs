//! Bit vectors in the Vorbis I packing order, written for clarity: one bit at a time.

#[derive(Clone, Default, Debug)]
pub struct BitW {
	pub bytes: Vec<u8>,
	pub nbits: usize
}
impl BitW {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn put(&mut self, value: u64, width: u32) {
		for i in 0..width {
			let bit = if i < 64 { (value >> i) & 1 } else { 0 };
			if self.nbits % 8 == 0 {
				self.bytes.push(0);
			}
			*self.bytes.last_mut().unwrap() |= (bit as u8) << (self.nbits % 8);
			self.nbits += 1;
		}
	}
	/// Appends a codeword whose first-read bit is its most significant one.
	pub fn put_msb(&mut self, code: u32, len: u8) {
		for i in (0..len).rev() {
			self.put(((code >> i) & 1) as u64, 1);
		}
	}
	pub fn align(&mut self) {
		self.nbits = self.bytes.len() * 8;
	}
}

#[derive(Clone, Debug)]
pub struct BitR<'a> {
	pub data: &'a [u8],
	pub pos: usize
}
impl<'a> BitR<'a> {
	pub fn new(data: &'a [u8]) -> Self {
		Self { data, pos: 0 }
	}
	pub fn bits_left(&self) -> usize {
		self.data.len() * 8 - self.pos
	}
	pub fn bit(&mut self) -> Option<u32> {
		if self.pos >= self.data.len() * 8 {
			return None;
		}
		let b = (self.data[self.pos / 8] >> (self.pos % 8)) & 1;
		self.pos += 1;
		Some(b as u32)
	}
	/// Reads `width` bits or, like a real decoder at end of packet, nothing at all.
	pub fn get(&mut self, width: u32) -> Option<u32> {
		if self.bits_left() < width as usize {
			return None;
		}
		let mut v = 0u64;
		for i in 0..width {
			v |= (self.bit().unwrap() as u64) << i;
		}
		Some(v as u32)
	}
}

pub fn ilog(n: u64) -> u32 {
	64 - n.leading_zeros()
}
