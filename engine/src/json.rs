//! Just enough JSON for replay files and the known-findings file.
#[derive(Debug, Clone)]
pub enum J {
	Null,
	Bool(bool),
	Num(String),
	Str(String),
	Arr(Vec<J>),
	Obj(Vec<(String, J)>),
}
impl J {
	pub fn get(&self, k: &str) -> Option<&J> {
		match self {
			J::Obj(v) => v.iter().find(|(a, _)| a == k).map(|(_, b)| b),
			_ => None,
		}
	}
	pub fn as_str(&self) -> Option<&str> {
		match self {
			J::Str(s) => Some(s),
			_ => None,
		}
	}
	pub fn as_u64(&self) -> Option<u64> {
		match self {
			J::Num(s) => s.parse().ok(),
			_ => None,
		}
	}
}
pub fn quote(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
struct P<'a>(&'a [u8], usize);
pub fn parse(s: &str) -> Option<J> {
	let mut p = P(s.as_bytes(), 0);
	let v = p.val()?;
	Some(v)
}
impl P<'_> {
	fn ws(&mut self) {
		while self.1 < self.0.len() && (self.0[self.1] as char).is_whitespace() {
			self.1 += 1;
		}
	}
	fn val(&mut self) -> Option<J> {
		self.ws();
		match *self.0.get(self.1)? {
			b'{' => {
				self.1 += 1;
				let mut o = vec![];
				loop {
					self.ws();
					if *self.0.get(self.1)? == b'}' {
						self.1 += 1;
						return Some(J::Obj(o));
					}
					let k = match self.val()? {
						J::Str(s) => s,
						_ => return None,
					};
					self.ws();
					if *self.0.get(self.1)? != b':' {
						return None;
					}
					self.1 += 1;
					o.push((k, self.val()?));
					self.ws();
					if *self.0.get(self.1)? == b',' {
						self.1 += 1;
					}
				}
			},
			b'[' => {
				self.1 += 1;
				let mut o = vec![];
				loop {
					self.ws();
					if *self.0.get(self.1)? == b']' {
						self.1 += 1;
						return Some(J::Arr(o));
					}
					o.push(self.val()?);
					self.ws();
					if *self.0.get(self.1)? == b',' {
						self.1 += 1;
					}
				}
			},
			b'"' => {
				self.1 += 1;
				let mut o: Vec<u8> = vec![];
				loop {
					let b = *self.0.get(self.1)?;
					self.1 += 1;
					match b {
						b'"' => return String::from_utf8(o).ok().map(J::Str),
						b'\\' => {
							let e = *self.0.get(self.1)?;
							self.1 += 1;
							match e {
								b'n' => o.push(b'\n'),
								b't' => o.push(b'\t'),
								b'r' => o.push(b'\r'),
								b'u' => {
									let h = std::str::from_utf8(self.0.get(self.1..self.1 + 4)?).ok()?;
									self.1 += 4;
									let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
									o.extend(c.to_string().bytes());
								},
								x => o.push(x),
							}
						},
						b => o.push(b),
					}
				}
			},
			b't' => {
				self.1 += 4;
				Some(J::Bool(true))
			},
			b'f' => {
				self.1 += 5;
				Some(J::Bool(false))
			},
			b'n' => {
				self.1 += 4;
				Some(J::Null)
			},
			_ => {
				let s = self.1;
				while self.1 < self.0.len() && b"+-.eE0123456789".contains(&self.0[self.1]) {
					self.1 += 1;
				}
				if s == self.1 {
					return None;
				}
				Some(J::Num(String::from_utf8_lossy(&self.0[s..self.1]).into_owned()))
			},
		}
	}
}
