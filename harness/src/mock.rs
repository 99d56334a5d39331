//! A scripted serial port in virtual time, which records every access.

use crate::json::V;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::io::Write as _;
use std::rc::Rc;
use std::time::Duration;

/// Error of the mock port. Code 0 is a timeout.
#[derive(Debug)]
pub struct PErr(pub i64);

impl std::fmt::Display for PErr {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "port error {}", self.0)
	}
}

/// Nanoseconds of virtual time.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct At(pub u128);

pub fn time(t: u128) -> String {
	format!("[{},{}]", t / 1_000_000_000, t % 1_000_000_000)
}

pub fn baud(b: u32) -> String {
	format!("[{},{}]", b / 1_000_000, b % 1_000_000)
}

pub fn nums(b: &[u8]) -> String {
	let mut out = String::with_capacity(2 + 4 * b.len());
	out.push('[');
	for (i, x) in b.iter().enumerate() {
		if i > 0 {
			out.push(',');
		}
		out.push_str(&x.to_string());
	}
	out.push(']');
	out
}

thread_local! {
	/// What was logged since the last event.
	pub static RECORDS: RefCell<Vec<(String, String)>> = const { RefCell::new(Vec::new()) };
}

/// The bytes that a text lists, as hexadecimal numbers of two digits each or decimal numbers:
/// a message (anywhere in the text) or else what is in brackets.
fn listed(text: &str) -> Vec<u8> {
	let mut best = Vec::new();
	for hex in [true, false] {
		let mut run = Vec::new();
		for word in words(text).chain(["."]) {
			match bytes_of(word, hex) {
				Some(x) => run.extend(x),
				None => {
					if run.len() > best.len() && run.windows(3).any(|x| x == [0xFF, 0xFF, 0xFD]) {
						best = std::mem::take(&mut run);
					}
					run.clear();
				},
			}
		}
	}
	if let (true, Some((_, inner))) = (best.is_empty(), text.rsplit_once(']').and_then(|(x, _)| x.split_once('['))) {
		for hex in [false, true] {
			if let Some(x) = words(inner).map(|x| bytes_of(x, hex)).collect::<Option<Vec<_>>>() {
				best = x.concat();
			}
		}
	}
	best
}

fn words(text: &str) -> impl Iterator<Item = &str> {
	text.split(|c: char| !c.is_ascii_alphanumeric()).filter(|x| !x.is_empty())
}

fn bytes_of(word: &str, hex: bool) -> Option<Vec<u8>> {
	let digits = word.strip_prefix("0x").unwrap_or(word);
	match hex {
		true if digits.len() % 2 == 0 => (0..digits.len() / 2).map(|i| u8::from_str_radix(&digits[2 * i..2 * i + 2], 16).ok()).collect(),
		true => None,
		false => word.parse().ok().map(|x| vec![x]),
	}
}

/// Panic payload: the library did not come to an end.
pub struct Hang;

#[derive(Default)]
pub struct World {
	pub now: u128,
	pub events: Vec<String>,
	/// Bytes on their way to the port: time of arrival and data.
	pub input: VecDeque<(u128, VecDeque<u8>)>,
	/// What arrives some time after the end of each complete write.
	pub replies: VecDeque<Vec<(u128, Vec<u8>)>>,
	/// Maximum number of bytes per read, by turns; 0: no limit.
	pub chunks: Vec<usize>,
	pub faults: HashMap<(&'static str, usize), i64>,
	pub counts: HashMap<&'static str, usize>,
	/// All reads fail from this one on.
	pub dead: Option<(usize, i64)>,
	pub port_baud: u32,
	pub cost_disc: u128,
	pub cost_byte: u128,
	pub cost_read: u128,
	/// Number of reads left in this operation before it counts as endless, not counting those that yield bytes.
	pub patience: usize,
	pub stream: Option<std::fs::File>,
	/// Also record what is logged.
	pub records: bool,
	/// On a shared bus: which participant this is, and the bus.
	pub who: usize,
	pub hub: Option<Rc<dyn Hub>>,
}

/// What a port needs of a bus with other participants.
pub trait Hub {
	/// The events of all participants go here.
	fn log(&self, who: usize, event: &str);
	/// Let the others do something, so that there is something to read.
	fn want(&self, who: usize);
	fn discard(&self, who: usize);
	fn sent(&self, who: usize, bytes: &[u8]);
}

impl World {
	pub fn new(cfg: &V) -> Self {
		let mut faults = HashMap::new();
		for (name, kind) in [("f_disc", "disc"), ("f_tx", "tx"), ("f_rd", "rd"), ("f_setb", "setb"), ("f_getb", "getb")] {
			for x in cfg.get(name).arr() {
				faults.insert((kind, x.arr()[0].int() as usize), x.arr()[1].int());
			}
		}
		let mut replies = VecDeque::new();
		for x in cfg.get("replies").arr() {
			replies.push_back(x.arr().iter().map(|r| (r.arr()[0].int() as u128, r.arr()[1].bytes())).collect());
		}
		World {
			now: 1_000_000_000 * cfg.get("t0").int_or(1000) as u128,
			replies,
			chunks: cfg.get("chunks").arr().iter().map(|x| x.int() as usize).collect(),
			faults,
			dead: match cfg.get("dead") {
				V::Null => None,
				x => Some((x.arr()[0].int() as usize, x.arr()[1].int())),
			},
			port_baud: cfg.get("baud").int_or(57600) as u32,
			cost_disc: cfg.get("cost_disc").int_or(0) as u128,
			cost_byte: cfg.get("cost_byte").int_or(0) as u128,
			cost_read: cfg.get("cost_read").int_or(0) as u128,
			patience: 5000,
			..Default::default()
		}
	}

	pub fn log(&mut self, event: String) {
		for (level, text) in RECORDS.with(|x| std::mem::take(&mut *x.borrow_mut())) {
			if self.records {
				let t = time(self.now);
				let b = listed(&text);
				self.put(format!(r#"{{"e":"log","t":{t},"lv":"{level}","b":{b:?}}}"#));
			}
		}
		self.put(event);
	}

	fn put(&mut self, event: String) {
		if let Some(file) = &mut self.stream {
			writeln!(file, "{event}").unwrap();
		}
		if let Some(hub) = &self.hub {
			return hub.log(self.who, &event);
		}
		self.events.push(event);
	}

	pub fn push(&mut self, at: u128, bytes: &[u8]) {
		if bytes.is_empty() {
			return;
		}
		let mut i = self.input.len();
		while i > 0 && self.input[i - 1].0 > at {
			i -= 1;
		}
		self.input.insert(i, (at, bytes.iter().copied().collect()));
	}

	/// Count an access to the port, and get the error it must report, if any.
	fn fault(&mut self, kind: &'static str) -> Option<i64> {
		let n = self.counts.entry(kind).or_insert(0);
		let index = *n;
		*n += 1;
		if kind == "rd" {
			if let Some((from, code)) = self.dead {
				if index >= from {
					return Some(code);
				}
			}
		}
		self.faults.get(&(kind, index)).copied()
	}
}

#[derive(Clone)]
pub struct Port(pub Rc<RefCell<World>>);

impl Port {
	fn hub(&self) -> (usize, Option<Rc<dyn Hub>>) {
		let w = self.0.borrow();
		(w.who, w.hub.clone())
	}
}

impl std::fmt::Debug for Port {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str("Port")
	}
}

impl dynamixel2::SerialPort for Port {
	type Error = PErr;
	type Instant = At;

	fn baud_rate(&self) -> Result<u32, PErr> {
		let mut w = self.0.borrow_mut();
		let t = time(w.now);
		match w.fault("getb") {
			Some(code) => {
				w.log(format!(r#"{{"e":"getb","t":{t},"ok":false,"baud":[0,1],"code":{code}}}"#));
				Err(PErr(code))
			},
			None => {
				let b = w.port_baud;
				w.log(format!(r#"{{"e":"getb","t":{t},"ok":true,"baud":{},"code":0}}"#, baud(b)));
				Ok(b)
			},
		}
	}

	fn set_baud_rate(&mut self, rate: u32) -> Result<(), PErr> {
		let mut w = self.0.borrow_mut();
		let t = time(w.now);
		match w.fault("setb") {
			Some(code) => {
				w.log(format!(r#"{{"e":"setb","t":{t},"ok":false,"baud":{},"code":{code}}}"#, baud(rate)));
				Err(PErr(code))
			},
			None => {
				w.port_baud = rate;
				w.log(format!(r#"{{"e":"setb","t":{t},"ok":true,"baud":{},"code":0}}"#, baud(rate)));
				Ok(())
			},
		}
	}

	fn discard_input_buffer(&mut self) -> Result<(), PErr> {
		if let (who, Some(hub)) = self.hub() {
			hub.discard(who);
		}
		let mut w = self.0.borrow_mut();
		w.now += w.cost_disc;
		let t = time(w.now);
		match w.fault("disc") {
			Some(code) => {
				w.log(format!(r#"{{"e":"disc","t":{t},"ok":false,"code":{code}}}"#));
				Err(PErr(code))
			},
			None => {
				let now = w.now;
				w.input.retain(|x| x.0 > now);
				w.log(format!(r#"{{"e":"disc","t":{t},"ok":true,"code":0}}"#));
				Ok(())
			},
		}
	}

	fn read(&mut self, buffer: &mut [u8], deadline: &At) -> Result<usize, PErr> {
		if let (who, Some(hub)) = self.hub() {
			hub.want(who);
		}
		let mut w = self.0.borrow_mut();
		if w.patience == 0 {
			drop(w);
			std::panic::panic_any(Hang);
		}
		w.patience -= 1;
		let cap = buffer.len();
		let index = w.counts.get("rd").copied().unwrap_or(0);
		let dl = time(deadline.0);
		if let Some(code) = w.fault("rd") {
			w.now += w.cost_read;
			if code == 0 {
				w.now = w.now.max(deadline.0);
			}
			let t = time(w.now);
			w.log(format!(r#"{{"e":"rd","t":{t},"cap":{cap},"dl":{dl},"got":false,"b":[],"code":{code}}}"#));
			return Err(PErr(code));
		}
		match w.input.front() {
			Some((at, _)) if *at <= w.now || *at <= deadline.0 => {
				let limit = if w.chunks.is_empty() { 0 } else { w.chunks[index % w.chunks.len()] };
				let limit = if limit == 0 { cap } else { cap.min(limit) };
				w.now = w.now.max(w.input[0].0);
				let mut n = 0;
				while n < limit {
					let now = w.now;
					match w.input.front_mut() {
						Some((at, data)) if *at <= now => {
							while n < limit {
								match data.pop_front() {
									Some(x) => {
										buffer[n] = x;
										n += 1;
									},
									None => break,
								}
							}
							if data.is_empty() {
								w.input.pop_front();
							}
						},
						_ => break,
					}
				}
				w.now += w.cost_read;
				// Reading what there is comes to an end, however little it is at a time.
				w.patience += n;
				let t = time(w.now);
				w.log(format!(
					r#"{{"e":"rd","t":{t},"cap":{cap},"dl":{dl},"got":true,"b":{},"code":0}}"#,
					nums(&buffer[..n])
				));
				Ok(n)
			},
			_ => {
				w.now = w.now.max(deadline.0);
				let t = time(w.now);
				w.log(format!(r#"{{"e":"rd","t":{t},"cap":{cap},"dl":{dl},"got":false,"b":[],"code":0}}"#));
				Err(PErr(0))
			},
		}
	}

	fn write_all(&mut self, buffer: &[u8]) -> Result<(), PErr> {
		let mut w = self.0.borrow_mut();
		w.now += w.cost_byte * buffer.len() as u128;
		let t = time(w.now);
		match w.fault("tx") {
			Some(code) => {
				w.log(format!(
					r#"{{"e":"tx","t":{t},"b":{},"ok":false,"code":{code}}}"#,
					nums(buffer)
				));
				Err(PErr(code))
			},
			None => {
				w.log(format!(r#"{{"e":"tx","t":{t},"b":{},"ok":true,"code":0}}"#, nums(buffer)));
				let now = w.now;
				if let Some(replies) = w.replies.pop_front() {
					for (dt, data) in replies {
						w.push(now + dt, &data);
					}
				}
				drop(w);
				if let (who, Some(hub)) = self.hub() {
					hub.sent(who, buffer);
				}
				Ok(())
			},
		}
	}

	fn make_deadline(&self, timeout: Duration) -> At {
		At(self.0.borrow().now + timeout.as_nanos())
	}

	fn is_timeout_error(error: &PErr) -> bool {
		error.0 == 0
	}
}
