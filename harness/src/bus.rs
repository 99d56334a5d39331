//! A client and devices on one bus. The bus carries what one sends to all
//! others, in pieces, and with the faults the scenario asks for.

use crate::client;
use crate::device;
use crate::json::{self, V};
use crate::mock::{self, nums, Hub, PErr, Port, World};
use crate::{result, Rec};
use dynamixel2::{Client, Device};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io::Write as _;
use std::rc::Rc;

struct Node {
	id: u8,
	rec: Rec,
	device: Device<Port, Vec<u8>>,
	/// Nothing is left that it has not looked at.
	idle: bool,
}

struct Bus {
	worlds: RefCell<Vec<Rc<RefCell<World>>>>,
	nodes: RefCell<Vec<Option<Node>>>,
	/// What is on its way to each participant.
	wires: RefCell<Vec<VecDeque<u8>>>,
	/// Answers to be given: place in the order, participant, operation.
	due: RefCell<Vec<(usize, usize, V)>>,
	faults: Vec<V>,
	sent: Cell<usize>,
	rng: Cell<u64>,
	rude: u64,
	events: RefCell<Vec<String>>,
	stream: RefCell<Option<std::fs::File>>,
	busy: Cell<bool>,
}

fn int(n: usize) -> V {
	V::Int(n as i64)
}

fn object(fields: &[(&str, V)]) -> V {
	V::Obj(fields.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

impl Bus {
	fn random(&self, n: usize) -> usize {
		let mut x = self.rng.get();
		x ^= x << 13;
		x ^= x >> 7;
		x ^= x << 17;
		self.rng.set(x);
		((x >> 11) % n as u64) as usize
	}

	fn values(&self, n: usize) -> V {
		let kind = self.random(3);
		V::Arr((0..n).map(|_| int(if kind == 0 { self.random(256) } else { [255, 255, 253, 253, 0, 254, 85, 1][self.random(8)] })).collect())
	}

	/// Let some or all bytes on the wire arrive.
	fn arrive(&self, who: usize, all: bool) {
		let wire = &mut self.wires.borrow_mut()[who];
		if wire.is_empty() {
			return;
		}
		let n = match self.random(4) {
			_ if all => wire.len(),
			0 => wire.len(),
			1 => 1 + self.random(3).min(wire.len() - 1),
			_ => 1 + self.random(wire.len()),
		};
		let bytes: Vec<u8> = wire.drain(..n).collect();
		let worlds = self.worlds.borrow();
		let mut w = worlds[who].borrow_mut();
		let now = w.now;
		w.push(now, &bytes);
	}

	fn has_input(&self, who: usize) -> bool {
		!self.wires.borrow()[who].is_empty() || !self.worlds.borrow()[who].borrow().input.is_empty()
	}

	/// What the application of a device does about an instruction.
	fn react(&self, who: usize, id: u8, r: &V) {
		if r.get("k").str() != "instr" && r.get("k").str() != "raw" {
			return;
		}
		let to = r.u8("id");
		let raw = r.get("k").str() == "raw";
		let data = r.get("data").bytes();
		let word = |i: usize| data.get(i).copied().unwrap_or(0) as usize + 256 * data.get(i + 1).copied().unwrap_or(0) as usize;
		let name = if raw {
			match r.u8("ins") {
				1 => "Ping",
				2 => "Read",
				0x82 => "SyncRead",
				0x92 => "BulkRead",
				_ => "",
			}
		} else {
			r.get("op").str()
		};
		let mut place = 0;
		let count = match name {
			"Ping" => {
				place = id as usize;
				3
			},
			"Read" => if raw { word(2) } else { r.get("b").int() as usize },
			"SyncRead" => {
				let (ids, n) = if raw { (data.get(4..).unwrap_or(&[]), word(2)) } else { (&data[..], r.get("b").int() as usize) };
				match ids.iter().position(|x| *x == id) {
					None => return,
					Some(i) => place = i,
				}
				n
			},
			"BulkRead" => match data.chunks(5).position(|x| x[0] == id && x.len() == 5) {
				None => return,
				Some(i) => {
					place = i;
					word(5 * i + 3)
				},
			},
			"Unknown" => self.random(9),
			_ => 0,
		};
		let multi = matches!(name, "Ping" | "SyncRead" | "BulkRead") && to == 254;
		if (to != id && !multi) || count > 300 {
			return;
		}
		let mut from = id as usize;
		let mut error = if self.random(5) == 0 { 128 } else { 0 };
		let mut n = count;
		if (self.random(1000) as u64) < self.rude {
			match self.random(5) {
				0 => return,
				1 => error = 1 + self.random(255),
				2 => n += 1,
				3 => n = n.saturating_sub(1),
				_ => from = self.random(254),
			}
		}
		let via = match n {
			0 if error == 0 && self.random(2) == 0 => "ok",
			0 if self.random(2) == 0 => "error",
			_ => "status",
		};
		let op = object(&[
			("op", V::Str("dev_status".into())),
			("id", int(from)),
			("err", int(error)),
			("data", self.values(n)),
			("via", V::Str(via.into())),
		]);
		self.due.borrow_mut().push((place, who, op));
	}

	fn with_node(&self, who: usize, f: impl FnOnce(&mut Node)) {
		let now = self.worlds.borrow()[0].borrow().now;
		self.worlds.borrow()[who].borrow_mut().now = now;
		let Some(mut node) = self.nodes.borrow_mut()[who].take() else { return };
		f(&mut node);
		self.nodes.borrow_mut()[who] = Some(node);
	}

	/// Let one device do something. False if there is nothing to do.
	fn turn(&self) -> bool {
		let n = self.worlds.borrow().len();
		let ready: Vec<usize> = (1..n).filter(|i| self.has_input(*i) || self.nodes.borrow()[*i].as_ref().is_some_and(|x| !x.idle)).collect();
		if !ready.is_empty() {
			let who = ready[self.random(ready.len())];
			self.arrive(who, false);
			self.with_node(who, |node| {
				let via = ["raw", "borrowed", "owned", "both"][self.random(4)];
				let op = object(&[
					("op", V::Str("dev_read".into())),
					("via", V::Str(via.into())),
					("timeout", V::Arr(vec![V::Int(0), V::Int(0)])),
				]);
				node.idle = true;
				if let Some(r) = device::operate(&node.rec, &mut node.device, &op) {
					node.idle = r.contains(r#""e":"Io""#);
					self.react(who, node.id, &json::parse(&r));
				}
			});
			return true;
		}
		let next = {
			let due = self.due.borrow();
			(0..due.len()).min_by_key(|i| (due[*i].0, due[*i].1))
		};
		let Some(next) = next else { return false };
		let (_, who, op) = self.due.borrow_mut().remove(next);
		self.with_node(who, |node| {
			device::operate(&node.rec, &mut node.device, &op);
		});
		true
	}

	fn settle(&self) {
		while self.turn() {}
		self.arrive(0, true);
	}
}

impl Hub for Bus {
	fn log(&self, who: usize, event: &str) {
		let line = format!(r#"{{"p":{who},{}"#, &event[1..]);
		if let Some(file) = &mut *self.stream.borrow_mut() {
			writeln!(file, "{line}").unwrap();
		}
		self.events.borrow_mut().push(line);
	}

	fn want(&self, who: usize) {
		if who != 0 || self.busy.get() {
			return;
		}
		self.busy.set(true);
		let here = |this: &Self| !this.worlds.borrow()[0].borrow().input.is_empty();
		while !here(self) || self.random(3) == 0 {
			if !self.wires.borrow()[0].is_empty() && self.random(2) == 0 {
				self.arrive(0, false);
			} else if !self.turn() {
				self.arrive(0, true);
				break;
			}
		}
		self.busy.set(false);
	}

	fn discard(&self, who: usize) {
		self.arrive(who, true);
	}

	fn sent(&self, who: usize, bytes: &[u8]) {
		let n = self.worlds.borrow().len();
		let at = self.sent.get();
		self.sent.set(at + 1);
		let mut delivered = vec![];
		for to in 0..n {
			let mut b = if to == who { vec![] } else { bytes.to_vec() };
			for f in &self.faults {
				let all = f.get("to").int() < 0;
				if f.get("at").int() as usize != at || to == who || (!all && f.get("to").int() as usize != to) || b.is_empty() {
					continue;
				}
				let x = f.get("x").int() as usize;
				let more = f.get("b").bytes();
				let len = b.len();
				match f.get("kind").str() {
					"lose" => b.clear(),
					"flip" => b[x / 8 % len] ^= 1 << (x % 8),
					"cut" => b.truncate(x % len),
					"head" => drop(b.drain(..1 + x % len)),
					"pre" => b = [more, b].concat(),
					"post" => b.extend(more),
					x => panic!("harness: unknown fault {x}"),
				}
			}
			delivered.push(nums(&b));
			self.wires.borrow_mut()[to].extend(b);
		}
		let t = mock::time(self.worlds.borrow()[who].borrow().now);
		self.log(who, &format!(r#"{{"e":"air","t":{t},"del":[{}]}}"#, delivered.join(",")));
	}
}

/// Does the client leave the bus alone until the request is done with?
fn waits(op: &V) -> bool {
	*op.get("lazy") != V::Bool(true)
}

pub fn run(scenario: &V, stream: Option<std::fs::File>) -> Vec<String> {
	let cfg = scenario.get("cfg");
	let bus = Rc::new(Bus {
		worlds: Default::default(),
		nodes: Default::default(),
		wires: Default::default(),
		due: Default::default(),
		faults: cfg.get("faults").arr().to_vec(),
		sent: Cell::new(0),
		rng: Cell::new(0x9E37_79B9_7F4A_7C15 ^ (cfg.get("seed").int() as u64).wrapping_mul(0x2545_F491_4F6C_DD1D)),
		rude: cfg.get("rude").int_or(0) as u64,
		events: Default::default(),
		stream: RefCell::new(stream),
		busy: Cell::new(false),
	});
	let ids = cfg.get("devices").arr();
	for who in 0..=ids.len() {
		let mut world = World::new(cfg);
		world.who = who;
		world.hub = Some(bus.clone());
		bus.worlds.borrow_mut().push(Rc::new(RefCell::new(world)));
		bus.wires.borrow_mut().push(VecDeque::new());
		bus.nodes.borrow_mut().push(None);
	}
	let size = |x: &str| cfg.get(x).int_or(128) as usize;
	let made = |rec: &Rec, port: Port| {
		rec.call(&client::obj("new"), || match Device::with_buffers(port, vec![0; size("rcap")], vec![0; size("wcap")]) {
			Ok(d) => (result::unit(), Some(d)),
			Err(e) => (result::port(e), None),
		})
		.flatten()
	};
	for (i, id) in ids.iter().enumerate() {
		let world = bus.worlds.borrow()[i + 1].clone();
		let rec = Rec { world: world.clone() };
		let Some(device) = made(&rec, Port(world)) else { continue };
		bus.nodes.borrow_mut()[i + 1] = Some(Node { id: id.int() as u8, rec, device, idle: true });
	}
	let world = bus.worlds.borrow()[0].clone();
	let rec = Rec { world: world.clone() };
	let client: Option<Client<Port, Vec<u8>>> = rec
		.call(&client::obj("new"), || match Client::with_buffers(Port(world), vec![0; size("rcap")], vec![0; size("wcap")]) {
			Ok(c) => (result::unit(), Some(c)),
			Err::<_, PErr>(e) => (result::port(e), None),
		})
		.flatten();
	if let Some(mut client) = client {
		for op in scenario.get("ops").arr() {
			client::operate(&rec, &mut client, op);
			if waits(op) {
				bus.settle();
			}
		}
	}
	bus.settle();
	bus.log(0, r#"{"e":"end","t":[0,0]}"#);
	let events = std::mem::take(&mut *bus.events.borrow_mut());
	// The ports hold on to the bus.
	bus.nodes.borrow_mut().clear();
	for w in bus.worlds.borrow().iter() {
		w.borrow_mut().hub = None;
	}
	events
}
