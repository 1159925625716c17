//! The only source of choices in the simulator.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

/// FNV-1a with a final mix, used for digests and state hashes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hash64(pub u64);
impl Default for Hash64 {
	fn default() -> Self {
		Self(0xcbf2_9ce4_8422_2325)
	}
}
impl Hash64 {
	pub fn u64(&mut self, v: u64) {
		self.0 = mix(self.0 ^ v.wrapping_mul(0x100_0000_01b3));
	}
	pub fn bytes(&mut self, b: &[u8]) {
		for c in b.chunks(8) {
			let mut w = [0u8; 8];
			w[..c.len()].copy_from_slice(c);
			self.u64(u64::from_le_bytes(w));
		}
		self.u64(b.len() as u64);
	}
}
pub fn hash_bytes(b: &[u8]) -> u64 {
	let mut h = Hash64::default();
	h.bytes(b);
	h.0
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		Self(mix(seed ^ 0x5851_F42D_4C95_7F2D))
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	pub fn u32(&mut self) -> u32 {
		(self.next() >> 32) as u32
	}
	/// Uniform in [0, n); 0 when n is 0.
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
	}
	/// Uniform in [a, b].
	pub fn range(&mut self, a: i64, b: i64) -> i64 {
		if b <= a { a } else { a + self.below((b - a) as u64 + 1) as i64 }
	}
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len() as u64) as usize]
	}
	/// Small numbers far more often than big ones, up to `max`.
	pub fn skewed(&mut self, max: u64) -> u64 {
		if max == 0 {
			return 0;
		}
		let bits = 64 - max.leading_zeros() as u64;
		let b = self.below(bits + 1);
		let cap = if b >= 63 { u64::MAX } else { (1 << b) - 1 };
		self.below(cap.min(max) + 1)
	}
	pub fn fork(&mut self) -> Rng {
		Rng::new(self.next())
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			v.swap(i, self.below(i as u64 + 1) as usize);
		}
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.next() as u8).collect()
	}
}
