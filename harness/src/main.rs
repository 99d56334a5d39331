//! Drives the library through its public API as told by scenarios, on a
//! scripted serial port, and records calls, port accesses and results.
//!
//! usage: harness SCENARIOS OUTPUT [ONLY STREAM]

mod bus;
mod client;
mod codec;
mod device;
mod errors;
mod json;
mod mock;
mod result;
mod types;

use dynamixel2::{Client, Device};
use json::V;
use mock::{Hang, Port, World};
use std::cell::RefCell;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Rec {
	pub world: Rc<RefCell<World>>,
}

impl Rec {
	/// Record a call with its result. Returns the value of the call.
	pub fn call<T>(&self, op: &V, run: impl FnOnce() -> (String, T)) -> Option<T> {
		let mut c = String::new();
		op.render(&mut c);
		{
			let mut w = self.world.borrow_mut();
			let t = mock::time(w.now);
			w.log(format!(r#"{{"e":"call","t":{t},"c":{c}}}"#));
			w.patience = 5000;
		}
		let out = catch_unwind(AssertUnwindSafe(run));
		let mut w = self.world.borrow_mut();
		let t = mock::time(w.now);
		let (r, value) = match out {
			Ok((r, value)) => (r, Some(value)),
			Err(e) => {
				let kind = if e.is::<Hang>() { "hang" } else { "panic" };
				(format!(r#"{{"k":"{kind}"}}"#), None)
			},
		};
		w.log(format!(r#"{{"e":"ret","t":{t},"r":{r}}}"#));
		value
	}

	/// Perform an environment operation, if it is one.
	pub fn environment(&self, op: &V) -> bool {
		let mut w = self.world.borrow_mut();
		match op.get("op").str() {
			"$wait" => w.now += op.get("dt").int() as u128,
			"$push" => {
				let at = w.now + op.get("dt").int_or(0) as u128;
				let b = op.get("b").bytes();
				w.push(at, &b);
			},
			_ => return false,
		}
		true
	}
}

fn leak(n: usize, fill: u8) -> &'static mut [u8] {
	Box::leak(vec![fill; n].into_boxed_slice())
}

fn run(scenario: &V, stream: Option<std::fs::File>) -> Vec<String> {
	let cfg = scenario.get("cfg");
	if cfg.get("role").str() == "bus" {
		return bus::run(scenario, stream);
	}
	let mut world = World::new(cfg);
	world.stream = stream;
	world.records = cfg.get("records").int_or(0) != 0;
	let world = Rc::new(RefCell::new(world));
	let rec = Rec { world: world.clone() };
	let port = Port(world.clone());
	let rcap = cfg.get("rcap").int_or(128) as usize;
	let wcap = cfg.get("wcap").int_or(128) as usize;
	let fill = cfg.get("fill").int_or(0) as u8;
	let ops = scenario.get("ops").arr();
	let buf = cfg.get("buf").str();
	#[cfg(feature = "log")]
	log::set_max_level(match cfg.get("level").str() {
		"off" => log::LevelFilter::Off,
		"info" => log::LevelFilter::Info,
		"debug" => log::LevelFilter::Debug,
		_ => log::LevelFilter::Trace,
	});
	let device = cfg.get("role").str() == "device";
	macro_rules! with {
		($a:expr, $b:expr) => {
			if device {
				device::run(&rec, || Device::with_buffers(port, $a, $b), ops)
			} else {
				client::run(&rec, || Client::with_buffers(port, $a, $b), ops)
			}
		};
	}
	match buf {
		_ if cfg.get("role").str() == "codec" => codec::run(&rec, ops),
		_ if cfg.get("role").str() == "errors" => errors::run(&rec, ops),
		"static" => with!(leak(rcap, fill), leak(wcap, fill)),
		"box" => with!(vec![fill; rcap].into_boxed_slice(), vec![fill; wcap].into_boxed_slice()),
		"array" if rcap == 128 && wcap == 128 => with!([fill; 128], [fill; 128]),
		#[cfg(feature = "alloc")]
		"new" if rcap == 128 && wcap == 128 => {
			if device {
				device::run(&rec, || Device::new(port), ops)
			} else {
				client::run(&rec, || Client::new(port), ops)
			}
		},
		_ => with!(vec![fill; rcap], vec![fill; wcap]),
	}
	let events = std::mem::take(&mut world.borrow_mut().events);
	events
}

#[cfg(feature = "log")]
struct Sink;
#[cfg(feature = "log")]
impl log::Log for Sink {
	fn enabled(&self, _: &log::Metadata) -> bool {
		true
	}
	fn log(&self, record: &log::Record) {
		// Format everything, like a real logger.
		let text = std::hint::black_box(format!("{}", record.args()));
		let level = record.level().as_str().to_lowercase();
		mock::RECORDS.with(|x| x.borrow_mut().push((level, text)));
	}
	fn flush(&self) {}
}

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static STARTED: AtomicU64 = AtomicU64::new(0);

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let scenarios = std::fs::read_to_string(&args[1]).unwrap();
	let only: Option<usize> = args.get(3).map(|x| x.parse().unwrap());
	std::panic::set_hook(Box::new(|info| *LAST_PANIC.lock().unwrap() = info.to_string()));
	#[cfg(feature = "log")]
	log::set_logger(&Sink).unwrap();
	let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
	let limit: u64 = 20;
	let origin = std::time::Instant::now();
	std::thread::spawn(move || loop {
		std::thread::sleep(std::time::Duration::from_millis(200));
		let started = STARTED.load(Ordering::SeqCst);
		if started != 0 && origin.elapsed().as_secs() >= started + limit {
			std::process::exit(97);
		}
	});
	// The main thread has a small stack on some systems, so be explicit.
	let worker = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
		for (i, line) in scenarios.lines().enumerate() {
			if line.is_empty() || only.is_some_and(|x| x != i) {
				continue;
			}
			let scenario = json::parse(line);
			STARTED.store(origin.elapsed().as_secs() + 1, Ordering::SeqCst);
			let stream = args.get(4).map(|x| std::fs::File::create(x).unwrap());
			let events = run(&scenario, stream);
			let cfg = scenario.get("cfg");
			writeln!(
				out,
				r#"{{"id":{},"rcap":{},"wcap":{},"devices":{},"ev":[{}]}}"#,
				{
					let mut s = String::new();
					scenario.get("id").render(&mut s);
					s
				},
				cfg.get("rcap").int_or(128),
				cfg.get("wcap").int_or(128),
				cfg.get("devices").arr().len(),
				events.join(",")
			)
			.unwrap();
			out.flush().unwrap();
		}
		STARTED.store(0, Ordering::SeqCst);
	});
	if worker.unwrap().join().is_err() {
		eprintln!("{}", LAST_PANIC.lock().unwrap());
		std::process::exit(3);
	}
}
