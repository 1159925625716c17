//! A small JSON value type: scenarios, replay files and evidence.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
	Null,
	Bool(bool),
	Int(i128),
	Float(f64),
	Str(String),
	Arr(Vec<J>),
	Obj(Vec<(String, J)>)
}

impl From<bool> for J {
	fn from(b: bool) -> J {
		J::Bool(b)
	}
}
macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for J { fn from(v: $t) -> J { J::Int(v as i128) } })* } }
from_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, i128);
impl From<f64> for J {
	fn from(v: f64) -> J {
		J::Float(v)
	}
}
impl From<&str> for J {
	fn from(v: &str) -> J {
		J::Str(v.into())
	}
}
impl From<String> for J {
	fn from(v: String) -> J {
		J::Str(v)
	}
}
impl<T: Into<J>> From<Vec<T>> for J {
	fn from(v: Vec<T>) -> J {
		J::Arr(v.into_iter().map(Into::into).collect())
	}
}

#[macro_export]
macro_rules! obj {
	($($k:expr => $v:expr),* $(,)?) => {
		$crate::json::J::Obj(vec![$(($k.to_string(), $crate::json::J::from($v))),*])
	};
}

static NULL: J = J::Null;

impl J {
	pub fn get(&self, key: &str) -> &J {
		match self {
			J::Obj(o) => o.iter().find(|(k, _)| k == key).map_or(&NULL, |(_, v)| v),
			_ => &NULL
		}
	}
	pub fn set(&mut self, key: &str, v: impl Into<J>) {
		if let J::Obj(o) = self {
			if let Some((_, x)) = o.iter_mut().find(|(k, _)| k == key) {
				*x = v.into();
			} else {
				o.push((key.to_string(), v.into()));
			}
		}
	}
	pub fn get_mut(&mut self, key: &str) -> Option<&mut J> {
		match self {
			J::Obj(o) => o.iter_mut().find(|(k, _)| k == key).map(|(_, v)| v),
			_ => None
		}
	}
	pub fn arr(&self) -> &[J] {
		match self {
			J::Arr(a) => a,
			_ => &[]
		}
	}
	pub fn arr_mut(&mut self) -> Option<&mut Vec<J>> {
		match self {
			J::Arr(a) => Some(a),
			_ => None
		}
	}
	pub fn int(&self) -> i128 {
		match self {
			J::Int(i) => *i,
			J::Bool(b) => *b as i128,
			J::Float(f) => *f as i128,
			_ => 0
		}
	}
	pub fn u64(&self) -> u64 {
		self.int() as u64
	}
	pub fn usize(&self) -> usize {
		self.int().clamp(0, usize::MAX as i128) as usize
	}
	pub fn bool(&self) -> bool {
		match self {
			J::Bool(b) => *b,
			J::Int(i) => *i != 0,
			_ => false
		}
	}
	pub fn str(&self) -> &str {
		match self {
			J::Str(s) => s,
			_ => ""
		}
	}
	pub fn is_null(&self) -> bool {
		matches!(self, J::Null)
	}
	pub fn has(&self, key: &str) -> bool {
		!self.get(key).is_null()
	}
	/// Integer field with default and clamping, so that shrunk scenarios stay meaningful.
	pub fn num(&self, key: &str, default: i64, min: i64, max: i64) -> i64 {
		match self.get(key) {
			J::Int(i) => (*i).clamp(min as i128, max as i128) as i64,
			J::Bool(b) => (*b as i64).clamp(min, max),
			_ => default
		}
	}
	pub fn flag(&self, key: &str, default: bool) -> bool {
		let v = self.get(key);
		if v.is_null() { default } else { v.bool() }
	}

	pub fn dump(&self) -> String {
		let mut s = String::new();
		self.write(&mut s, None, 0);
		s
	}
	pub fn pretty(&self) -> String {
		let mut s = String::new();
		self.write(&mut s, Some(1), 0);
		s.push('\n');
		s
	}
	fn write(&self, s: &mut String, indent: Option<usize>, depth: usize) {
		let nl = |s: &mut String, d: usize| {
			if indent.is_some() {
				s.push('\n');
				for _ in 0..d {
					s.push(' ');
				}
			}
		};
		match self {
			J::Null => s.push_str("null"),
			J::Bool(b) => write!(s, "{b}").unwrap(),
			J::Int(i) => write!(s, "{i}").unwrap(),
			J::Float(f) => {
				if f.is_finite() {
					write!(s, "{f:.6}").unwrap()
				} else {
					s.push_str("null")
				}
			}
			J::Str(t) => {
				s.push('"');
				for c in t.chars() {
					match c {
						'"' => s.push_str("\\\""),
						'\\' => s.push_str("\\\\"),
						'\n' => s.push_str("\\n"),
						'\t' => s.push_str("\\t"),
						c if (c as u32) < 0x20 => write!(s, "\\u{:04x}", c as u32).unwrap(),
						c => s.push(c)
					}
				}
				s.push('"');
			}
			J::Arr(a) => {
				s.push('[');
				let flat = a.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
				for (i, v) in a.iter().enumerate() {
					if i > 0 {
						s.push(',');
					}
					if !flat {
						nl(s, depth + 1);
					}
					v.write(s, indent, depth + 1);
				}
				if !flat && !a.is_empty() {
					nl(s, depth);
				}
				s.push(']');
			}
			J::Obj(o) => {
				s.push('{');
				for (i, (k, v)) in o.iter().enumerate() {
					if i > 0 {
						s.push(',');
					}
					nl(s, depth + 1);
					J::Str(k.clone()).write(s, None, 0);
					s.push(':');
					v.write(s, indent, depth + 1);
				}
				if !o.is_empty() {
					nl(s, depth);
				}
				s.push('}');
			}
		}
	}

	pub fn parse(text: &str) -> Result<J, String> {
		let b = text.as_bytes();
		let mut p = 0;
		let v = parse_value(b, &mut p)?;
		skip_ws(b, &mut p);
		if p != b.len() {
			return Err(format!("trailing characters at {p}"));
		}
		Ok(v)
	}
}

fn skip_ws(b: &[u8], p: &mut usize) {
	while *p < b.len() && b[*p].is_ascii_whitespace() {
		*p += 1;
	}
}

fn parse_value(b: &[u8], p: &mut usize) -> Result<J, String> {
	skip_ws(b, p);
	let err = |p: usize| Err(format!("bad JSON at {p}"));
	match b.get(*p) {
		None => err(*p),
		Some(b'{') => {
			*p += 1;
			let mut o = vec![];
			loop {
				skip_ws(b, p);
				if b.get(*p) == Some(&b'}') {
					*p += 1;
					return Ok(J::Obj(o));
				}
				let J::Str(k) = parse_value(b, p)? else { return err(*p) };
				skip_ws(b, p);
				if b.get(*p) != Some(&b':') {
					return err(*p);
				}
				*p += 1;
				o.push((k, parse_value(b, p)?));
				skip_ws(b, p);
				match b.get(*p) {
					Some(b',') => *p += 1,
					Some(b'}') => (),
					_ => return err(*p)
				}
			}
		}
		Some(b'[') => {
			*p += 1;
			let mut a = vec![];
			loop {
				skip_ws(b, p);
				if b.get(*p) == Some(&b']') {
					*p += 1;
					return Ok(J::Arr(a));
				}
				a.push(parse_value(b, p)?);
				skip_ws(b, p);
				match b.get(*p) {
					Some(b',') => *p += 1,
					Some(b']') => (),
					_ => return err(*p)
				}
			}
		}
		Some(b'"') => {
			*p += 1;
			let mut s = Vec::new();
			loop {
				match b.get(*p) {
					None => return err(*p),
					Some(b'"') => {
						*p += 1;
						return Ok(J::Str(String::from_utf8_lossy(&s).into_owned()));
					}
					Some(b'\\') => {
						*p += 1;
						match b.get(*p) {
							Some(b'n') => s.push(b'\n'),
							Some(b't') => s.push(b'\t'),
							Some(b'r') => s.push(b'\r'),
							Some(b'u') => {
								let h = text_at(b, *p + 1, 4).ok_or("bad escape")?;
								let c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
								let c = char::from_u32(c).unwrap_or('\u{fffd}');
								s.extend_from_slice(c.to_string().as_bytes());
								*p += 4;
							}
							Some(c) => s.push(*c),
							None => return err(*p)
						}
						*p += 1;
					}
					Some(c) => {
						s.push(*c);
						*p += 1;
					}
				}
			}
		}
		Some(b't') if text_at(b, *p, 4) == Some("true") => {
			*p += 4;
			Ok(J::Bool(true))
		}
		Some(b'f') if text_at(b, *p, 5) == Some("false") => {
			*p += 5;
			Ok(J::Bool(false))
		}
		Some(b'n') if text_at(b, *p, 4) == Some("null") => {
			*p += 4;
			Ok(J::Null)
		}
		Some(_) => {
			let s = *p;
			while *p < b.len() && (b[*p].is_ascii_digit() || b"+-.eE".contains(&b[*p])) {
				*p += 1;
			}
			let t = std::str::from_utf8(&b[s..*p]).unwrap();
			if let Ok(i) = t.parse::<i128>() {
				Ok(J::Int(i))
			} else {
				t.parse::<f64>().map(J::Float).map_err(|_| format!("bad number at {s}"))
			}
		}
	}
}

fn text_at(b: &[u8], p: usize, n: usize) -> Option<&str> {
	b.get(p..p + n).and_then(|s| std::str::from_utf8(s).ok())
}
