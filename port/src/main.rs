//! Runs scenarios on the SerialPort implementation for serial2, with a pseudo
//! terminal as the line, in real time, and records what happened.
//!
//! usage: port SCENARIOS OUTPUT THREADS

#[path = "../../harness/src/json.rs"]
#[allow(dead_code)]
mod json;

use dynamixel2::SerialPort as Port;
use json::V;
use serial2::SerialPort as Serial;
use std::io::{ErrorKind, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Instant2 = <Serial as Port>::Instant;
type Error2 = <Serial as Port>::Error;

fn list(b: &[u8]) -> String {
	let x: Vec<String> = b.iter().map(|x| x.to_string()).collect();
	format!("[{}]", x.join(","))
}
fn pair(x: u64, unit: u64) -> String {
	format!("[{},{}]", x / unit, x % unit)
}

/// The far end of the line.
struct Line {
	master: std::fs::File,
	path: String,
}

impl Line {
	fn new() -> Self {
		unsafe {
			let fd = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
			assert!(fd >= 0, "harness: posix_openpt");
			assert!(libc::grantpt(fd) == 0 && libc::unlockpt(fd) == 0, "harness: pty");
			let mut name = [0u8; 128];
			assert!(libc::ptsname_r(fd, name.as_mut_ptr().cast(), name.len()) == 0, "harness: ptsname");
			let n = name.iter().position(|x| *x == 0).unwrap();
			Line { master: std::fs::File::from_raw_fd(fd), path: String::from_utf8(name[..n].to_vec()).unwrap() }
		}
	}
	/// The settings of the line.
	fn speed(&self) -> (u32, u32) {
		unsafe {
			let mut t: libc::termios2 = std::mem::zeroed();
			assert!(libc::ioctl(self.master.as_raw_fd(), libc::TCGETS2 as _, &mut t) == 0, "harness: TCGETS2");
			(t.c_ispeed, t.c_ospeed)
		}
	}
	fn send(&self, b: &[u8]) {
		(&self.master).write_all(b).expect("harness: send");
	}
	/// Up to n bytes that were written to the port.
	fn receive(&self, n: usize) -> Vec<u8> {
		let mut out = Vec::new();
		let end = Instant::now() + Duration::from_secs(2);
		while out.len() < n && Instant::now() < end {
			let mut p = libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 };
			if unsafe { libc::poll(&mut p, 1, 20) } > 0 {
				let mut b = [0; 4096];
				match (&self.master).read(&mut b) {
					Ok(k) if k > 0 => out.extend(&b[..k]),
					_ => break,
				}
			}
		}
		// Anything else?
		let mut p = libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 };
		if unsafe { libc::poll(&mut p, 1, 2) } > 0 {
			let mut b = [0; 4096];
			if let Ok(k) = (&self.master).read(&mut b) {
				out.extend(&b[..k]);
			}
		}
		out
	}
}

fn waiting(port: &Serial) -> usize {
	let mut n: libc::c_int = 0;
	unsafe { libc::ioctl(port.as_raw_fd(), libc::FIONREAD, &mut n) };
	n as usize
}

/// What has been opened.
enum Opened {
	Client(dynamixel2::Client),
	Device(dynamixel2::Device),
}
use Opened::{Client, Device};

fn open(how: &str, path: &str, baud: u32) -> Result<Opened, Error2> {
	let buffer = || vec![0; 64];
	Ok(match how {
		"client" => Client(dynamixel2::Client::open(path, baud)?),
		"client_buf" => Client(dynamixel2::Client::open_with_buffers(path, baud, buffer(), buffer())?),
		"client_given" => Client(dynamixel2::Client::with_buffers(Serial::open(path, baud)?, buffer(), buffer())?),
		"client_new" => Client(dynamixel2::Client::new(Serial::open(path, baud)?)?),
		"device" => Device(dynamixel2::Device::open(path, baud)?),
		"device_buf" => Device(dynamixel2::Device::open_with_buffers(path, baud, buffer(), buffer())?),
		"device_given" => Device(dynamixel2::Device::with_buffers(Serial::open(path, baud)?, buffer(), buffer())?),
		"device_new" => Device(dynamixel2::Device::new(Serial::open(path, baud)?)?),
		// Changed through the client or device.
		"changed" => {
			let mut x = dynamixel2::Client::open(path, 9600)?;
			x.set_baud_rate(baud)?;
			Client(x)
		},
		_ => {
			let mut x = dynamixel2::Device::open(path, 9600)?;
			x.set_baud_rate(baud)?;
			Device(x)
		},
	})
}

impl Opened {
	fn baud_rate(&self) -> u32 {
		match self {
			Client(x) => x.baud_rate(),
			Device(x) => x.baud_rate(),
		}
	}
	fn port(&self) -> &Serial {
		match self {
			Client(x) => x.serial_port(),
			Device(x) => x.serial_port(),
		}
	}
	fn into_serial_port(self) -> Serial {
		match self {
			Client(x) => x.into_serial_port(),
			Device(x) => x.into_serial_port(),
		}
	}
	/// Send a message of n bytes, zeros mostly.
	fn send(&mut self, n: usize) -> &'static str {
		let fill = |b: &mut [u8]| Ok(b.fill(0));
		let result = match self {
			Client(x) => x.write_instruction(1, 3, n - 10, fill),
			Device(x) => x.write_status(1, 0, n - 11, fill),
		};
		match result {
			Ok(()) => "ok",
			Err(dynamixel2::WriteError::BufferTooSmall(_)) => "full",
			Err(_) => "error",
		}
	}
	/// Receive a message: its parameters.
	fn receive(&mut self, t: Duration) -> (&'static str, Vec<u8>) {
		let result = match self {
			Client(x) => x.read_status_response_timeout(t).map(|x| x.parameters().to_vec()),
			Device(x) => x.read_raw_instruction_timeout(t).map(|x| x.parameters().to_vec()),
		};
		match result {
			Ok(x) => ("ok", x),
			Err(dynamixel2::ReadError::BufferFull(_)) => ("full", Vec::new()),
			Err(_) => ("error", Vec::new()),
		}
	}
}

fn run(s: &V) -> String {
	let epoch = Instant::now();
	let us = |t: Instant| t.saturating_duration_since(epoch).as_micros() as i64;
	let mut ev: Vec<String> = Vec::new();
	let mut line = Line::new();
	let baud = s.get("baud").arr();
	let baud = (baud[0].int() * 1_000_000 + baud[1].int()) as u32;
	let how = s.get("how").str();
	let mut opened = match open(how, &line.path, baud) {
		Ok(x) => x,
		Err(_) => {
			return format!(r#"{{"id":{},"ev":[{{"e":"open","ok":false}}]}}"#, s.get("id").int());
		},
	};
	let known = opened.baud_rate();
	let (i, o) = line.speed();
	ev.push(format!(
		r#"{{"e":"open","ok":true,"baud":{},"known":{},"in":{},"out":{}}}"#,
		pair(baud as u64, 1_000_000), pair(known as u64, 1_000_000), pair(i as u64, 1_000_000), pair(o as u64, 1_000_000)
	));
	// Messages, as long as it is a client or device.
	for op in s.get("messages").arr() {
		match op.get("op").str() {
			"send" => {
				let n = op.get("n").int() as usize;
				let k = opened.send(n);
				let got = line.receive(if k == "ok" { n } else { 0 });
				ev.push(format!(r#"{{"e":"send","n":{n},"k":"{k}","got":{}}}"#, got.len()));
			},
			// The far end goes away: what is written now can not get anywhere.
			"hang_up" => {
				line.master = std::fs::File::open("/dev/null").expect("harness: null");
			},
			"lost" => {
				let n = op.get("n").int() as usize;
				ev.push(format!(r#"{{"e":"lost","k":"{}"}}"#, opened.send(n)));
			},
			"wait" => {
				let t = op.get("t").int();
				let r0 = us(Instant::now());
				let (k, _) = opened.receive(Duration::from_micros(t as u64));
				ev.push(format!(r#"{{"e":"wait","k":"{k}","t":{t},"took":{}}}"#, us(Instant::now()) - r0));
			},
			_ => {
				let b = op.get("b").bytes();
				line.send(&b);
				let end = Instant::now() + Duration::from_millis(400);
				while waiting(opened.port()) < b.len() && Instant::now() < end {
					std::thread::sleep(Duration::from_micros(100));
				}
				let (k, got) = opened.receive(Duration::from_millis(400));
				ev.push(format!(r#"{{"e":"receive","n":{},"k":"{k}","sent":{},"got":{}}}"#, b.len(), list(op.get("params").bytes().as_slice()), list(&got)));
			},
		}
	}
	if !s.get("messages").arr().is_empty() {
		return format!(r#"{{"id":{},"how":"{how}","ev":[{}]}}"#, s.get("id").int(), ev.join(","));
	}
	let mut port = opened.into_serial_port();
	let mut expected = 0usize; // bytes that should be waiting at the port
	let sync = |port: &Serial, expected: usize| {
		let end = Instant::now() + Duration::from_millis(400);
		while waiting(port) < expected && Instant::now() < end {
			std::thread::sleep(Duration::from_micros(100));
		}
	};
	for op in s.get("steps").arr() {
		match op.get("op").str() {
			"arrive" => {
				let b = op.get("b").bytes();
				line.send(&b);
				expected += b.len();
				sync(&port, expected);
				ev.push(format!(r#"{{"e":"arrive","b":{}}}"#, list(&b)));
			},
			"read" => {
				let n = op.get("n").int() as usize;
				let dl = op.get("dl").int();
				let now = Instant::now();
				let deadline: Instant2 = if dl >= 0 { now + Duration::from_micros(dl as u64) } else { now - Duration::from_micros(-dl as u64) };
				let mut buffer = vec![0xA5; n + 8];
				let later = op.get("later").arr();
				let sent = Mutex::new(Vec::new());
				let (r0, r1, result) = std::thread::scope(|scope| {
					let r0 = Instant::now();
					if !later.is_empty() {
						let (line, sent) = (&line, &sent);
						scope.spawn(move || {
							for x in later {
								let at = r0 + Duration::from_micros(x.get("us").int() as u64);
								std::thread::sleep(at.saturating_duration_since(Instant::now()));
								let b = x.get("b").bytes();
								let w0 = Instant::now();
								line.send(&b);
								sent.lock().unwrap().push((w0, Instant::now(), b));
							}
						});
					}
					let result = Port::read(&mut port, &mut buffer[..n], &deadline);
					(r0, Instant::now(), result)
				});
				let sent = sent.into_inner().unwrap();
				let (mut got, mut kind, mut timeout) = (Vec::new(), "got", false);
				match result {
					Ok(k) if k <= n => got = buffer[..k].to_vec(),
					Ok(_) => kind = "toomuch",
					Err(e) => {
						timeout = <Serial as Port>::is_timeout_error(&e);
						kind = if e.kind() == ErrorKind::TimedOut { "timeout" } else { "error" };
					},
				}
				if buffer[n..] != [0xA5; 8] {
					kind = "overrun";
				}
				expected += sent.iter().map(|x| x.2.len()).sum::<usize>();
				expected = expected.saturating_sub(got.len());
				sync(&port, expected);
				let sent: Vec<String> = sent.iter().map(|(a, z, b)| format!(r#"{{"w0":{},"w1":{},"b":{}}}"#, us(*a), us(*z), list(b))).collect();
				let d = if deadline >= epoch { us(deadline) } else { -(epoch.duration_since(deadline).as_micros() as i64) };
				ev.push(format!(
					r#"{{"e":"read","n":{n},"r0":{},"r1":{},"d":{d},"k":"{kind}","b":{},"istimeout":{timeout},"sent":[{}]}}"#,
					us(r0), us(r1), list(&got), sent.join(",")
				));
			},
			"discard" => {
				let ok = port_ok(Port::discard_input_buffer(&mut port));
				expected = 0;
				ev.push(format!(r#"{{"e":"discard","ok":{ok}}}"#));
			},
			"write" => {
				let b = op.get("b").bytes();
				// Written, then (perhaps) input discarded, before the other end looks.
				let drop_input = op.get("discard").int_or(0) != 0;
				let n = b.len();
				let (ok, got) = if n < 2000 {
					let ok = port_ok(Port::write_all(&mut port, &b));
					if drop_input {
						let ok = port_ok(Port::discard_input_buffer(&mut port));
						expected = 0;
						ev.push(format!(r#"{{"e":"discard","ok":{ok}}}"#));
					}
					(ok, line.receive(n))
				} else {
					std::thread::scope(|scope| {
						let line = &line;
						let t = scope.spawn(move || {
							std::thread::sleep(Duration::from_millis(60));
							line.receive(n)
						});
						let ok = port_ok(Port::write_all(&mut port, &b));
						(ok, t.join().unwrap())
					})
				};
				ev.push(format!(r#"{{"e":"write","ok":{ok},"b":{},"got":{}}}"#, list(&b), list(&got)));
			},
			"set_baud" => {
				let b = op.get("baud").arr();
				let b = (b[0].int() * 1_000_000 + b[1].int()) as u32;
				let ok = port_ok(Port::set_baud_rate(&mut port, b));
				let (i, o) = line.speed();
				ev.push(format!(
					r#"{{"e":"set_baud","baud":{},"ok":{ok},"in":{},"out":{}}}"#,
					pair(b as u64, 1_000_000), pair(i as u64, 1_000_000), pair(o as u64, 1_000_000)
				));
			},
			"baud" => {
				let (ok, b) = match Port::baud_rate(&port) {
					Ok(x) => (true, x),
					Err(_) => (false, 0),
				};
				ev.push(format!(r#"{{"e":"baud","ok":{ok},"baud":{}}}"#, pair(b as u64, 1_000_000)));
			},
			"deadline" => {
				let x = op.get("t").arr();
				let t = Duration::new(x[0].int() as u64, x[1].int() as u32);
				let a = Instant::now();
				let d: Instant2 = Port::make_deadline(&port, t);
				let z = Instant::now();
				// It must lie between a + t and z + t.
				let early = (a + t).saturating_duration_since(d);
				let late = d.saturating_duration_since(z + t);
				let clip = |x: Duration| x.as_nanos().min(1_000_000_000) as u64;
				ev.push(format!(r#"{{"e":"deadline","early":{},"late":{}}}"#, clip(early), clip(late)));
			},
			"classify" => {
				for (kind, name) in KINDS {
					let e: Error2 = match op.get("how").str() {
						"kind" => (*kind).into(),
						_ => std::io::Error::new(*kind, "timed out"),
					};
					ev.push(format!(r#"{{"e":"classify","kind":"{name}","istimeout":{}}}"#, <Serial as Port>::is_timeout_error(&e)));
				}
				for (code, name) in [(libc::ETIMEDOUT, "TimedOut"), (libc::EAGAIN, "WouldBlock"), (libc::EINTR, "Interrupted"), (libc::EIO, "Other"), (libc::ETIME, "Other"), (libc::ENODEV, "Other")] {
					let e = std::io::Error::from_raw_os_error(code);
					ev.push(format!(r#"{{"e":"classify","kind":"{name}","istimeout":{}}}"#, <Serial as Port>::is_timeout_error(&e)));
				}
			},
			x => panic!("harness: step {x}"),
		}
	}
	format!(r#"{{"id":{},"how":"{how}","ev":[{}]}}"#, s.get("id").int(), ev.join(","))
}

fn port_ok(r: Result<(), Error2>) -> bool {
	r.is_ok()
}

const KINDS: &[(ErrorKind, &str)] = &[
	(ErrorKind::TimedOut, "TimedOut"),
	(ErrorKind::WouldBlock, "WouldBlock"),
	(ErrorKind::Interrupted, "Interrupted"),
	(ErrorKind::NotFound, "NotFound"),
	(ErrorKind::PermissionDenied, "PermissionDenied"),
	(ErrorKind::ConnectionRefused, "ConnectionRefused"),
	(ErrorKind::ConnectionReset, "ConnectionReset"),
	(ErrorKind::ConnectionAborted, "ConnectionAborted"),
	(ErrorKind::NotConnected, "NotConnected"),
	(ErrorKind::AddrInUse, "AddrInUse"),
	(ErrorKind::AddrNotAvailable, "AddrNotAvailable"),
	(ErrorKind::BrokenPipe, "BrokenPipe"),
	(ErrorKind::AlreadyExists, "AlreadyExists"),
	(ErrorKind::InvalidInput, "InvalidInput"),
	(ErrorKind::InvalidData, "InvalidData"),
	(ErrorKind::WriteZero, "WriteZero"),
	(ErrorKind::UnexpectedEof, "UnexpectedEof"),
	(ErrorKind::Unsupported, "Unsupported"),
	(ErrorKind::OutOfMemory, "OutOfMemory"),
	(ErrorKind::Other, "Other"),
];

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let text = std::fs::read_to_string(&args[1]).unwrap();
	let scenarios: Vec<V> = text.lines().map(json::parse).collect();
	let out: Vec<Mutex<String>> = scenarios.iter().map(|_| Mutex::new(String::new())).collect();
	let next = AtomicUsize::new(0);
	std::panic::set_hook(Box::new(|_| ()));
	std::thread::scope(|scope| {
		for _ in 0..args[3].parse().unwrap() {
			scope.spawn(|| loop {
				let i = next.fetch_add(1, Ordering::Relaxed);
				if i >= scenarios.len() {
					break;
				}
				let r = std::panic::catch_unwind(|| run(&scenarios[i])).unwrap_or_else(|e| {
					let text = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
					if text.starts_with("harness:") {
						eprintln!("{text}");
						std::process::exit(3);
					}
					format!(r#"{{"id":{},"ev":[{{"e":"panic"}}]}}"#, scenarios[i].get("id").int())
				});
				*out[i].lock().unwrap() = r;
			});
		}
	});
	let mut f = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
	for x in out {
		writeln!(f, "{}", x.into_inner().unwrap()).unwrap();
	}
	f.flush().unwrap();
}
