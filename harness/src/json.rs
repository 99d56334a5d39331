//! Just enough JSON.

#[derive(Clone, Debug, PartialEq)]
pub enum V {
	Null,
	Bool(bool),
	Int(i64),
	Str(String),
	Arr(Vec<V>),
	Obj(Vec<(String, V)>),
}

static NULL: V = V::Null;

impl V {
	pub fn get(&self, key: &str) -> &V {
		match self {
			V::Obj(x) => x.iter().find(|(k, _)| k == key).map(|(_, v)| v).unwrap_or(&NULL),
			_ => &NULL,
		}
	}
	pub fn has(&self, key: &str) -> bool {
		*self.get(key) != V::Null
	}
	pub fn int(&self) -> i64 {
		match self {
			V::Int(x) => *x,
			V::Bool(x) => *x as i64,
			_ => panic!("harness: expected a number, got {self:?}"),
		}
	}
	pub fn int_or(&self, default: i64) -> i64 {
		if *self == V::Null { default } else { self.int() }
	}
	pub fn str(&self) -> &str {
		match self {
			V::Str(x) => x,
			_ => "",
		}
	}
	pub fn arr(&self) -> &[V] {
		match self {
			V::Arr(x) => x,
			_ => &[],
		}
	}
	pub fn bytes(&self) -> Vec<u8> {
		self.arr().iter().map(|x| x.int() as u8).collect()
	}
	pub fn u8(&self, key: &str) -> u8 {
		self.get(key).int() as u8
	}
	pub fn u16(&self, key: &str) -> u16 {
		self.get(key).int() as u16
	}
	pub fn render(&self, out: &mut String) {
		match self {
			V::Null => out.push_str("null"),
			V::Bool(x) => out.push_str(if *x { "true" } else { "false" }),
			V::Int(x) => out.push_str(&x.to_string()),
			V::Str(x) => quote(x, out),
			V::Arr(x) => {
				out.push('[');
				for (i, v) in x.iter().enumerate() {
					if i > 0 {
						out.push(',');
					}
					v.render(out);
				}
				out.push(']');
			},
			V::Obj(x) => {
				out.push('{');
				for (i, (k, v)) in x.iter().enumerate() {
					if i > 0 {
						out.push(',');
					}
					quote(k, out);
					out.push(':');
					v.render(out);
				}
				out.push('}');
			},
		}
	}
}

fn quote(s: &str, out: &mut String) {
	out.push('"');
	for c in s.chars() {
		match c {
			'"' | '\\' => {
				out.push('\\');
				out.push(c);
			},
			c if (c as u32) < 32 => out.push(' '),
			c => out.push(c),
		}
	}
	out.push('"');
}

pub fn parse(s: &str) -> V {
	let mut p = P { s: s.as_bytes(), i: 0 };
	let v = p.value();
	p.ws();
	assert!(p.i == p.s.len(), "harness: trailing data in JSON");
	v
}

struct P<'a> {
	s: &'a [u8],
	i: usize,
}

impl P<'_> {
	fn ws(&mut self) {
		while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
			self.i += 1;
		}
	}
	fn peek(&mut self) -> u8 {
		self.ws();
		self.s[self.i]
	}
	fn eat(&mut self, c: u8) {
		assert!(self.peek() == c, "harness: bad JSON at {}: expected {}", self.i, c as char);
		self.i += 1;
	}
	fn word(&mut self, w: &str, v: V) -> V {
		assert!(self.s[self.i..].starts_with(w.as_bytes()));
		self.i += w.len();
		v
	}
	fn string(&mut self) -> String {
		self.eat(b'"');
		let mut out = Vec::new();
		loop {
			let c = self.s[self.i];
			self.i += 1;
			match c {
				b'"' => break,
				b'\\' => {
					out.push(self.s[self.i]);
					self.i += 1;
				},
				c => out.push(c),
			}
		}
		String::from_utf8(out).unwrap()
	}
	fn value(&mut self) -> V {
		match self.peek() {
			b'{' => {
				self.i += 1;
				let mut out = Vec::new();
				if self.peek() == b'}' {
					self.i += 1;
					return V::Obj(out);
				}
				loop {
					self.ws();
					let k = self.string();
					self.eat(b':');
					let v = self.value();
					out.push((k, v));
					if self.peek() == b',' {
						self.i += 1;
					} else {
						self.eat(b'}');
						return V::Obj(out);
					}
				}
			},
			b'[' => {
				self.i += 1;
				let mut out = Vec::new();
				if self.peek() == b']' {
					self.i += 1;
					return V::Arr(out);
				}
				loop {
					out.push(self.value());
					if self.peek() == b',' {
						self.i += 1;
					} else {
						self.eat(b']');
						return V::Arr(out);
					}
				}
			},
			b'"' => V::Str(self.string()),
			b't' => self.word("true", V::Bool(true)),
			b'f' => self.word("false", V::Bool(false)),
			b'n' => self.word("null", V::Null),
			_ => {
				let start = self.i;
				while self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i].is_ascii_digit()) {
					self.i += 1;
				}
				V::Int(std::str::from_utf8(&self.s[start..self.i]).unwrap().parse().expect("harness: bad number"))
			},
		}
	}
}
