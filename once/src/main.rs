//! Evaluates occurrences of static_buffer!() from several threads, under every
//! schedule of their operations on atomics (for a few threads) and freely, and
//! records who got what.
//!
//! usage: once OUTPUT SEED DEEP

use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Condvar, Mutex};

type Eval = fn() -> &'static mut [u8];

/// Every instance of this macro has occurrences of its own.
macro_rules! sites {
	($n:literal: $($name:ident)*) => {
		vec![$({ fn $name() -> &'static mut [u8] { dynamixel2::static_buffer!($n) } ($n as usize, $name as Eval) }),*]
	};
}
/// Makes x * 4 occurrences of each identifier given.
macro_rules! many {
	($n:literal) => { sites!($n: a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 b0 b1 b2 b3 b4 b5 b6 b7 b8 b9 c0 c1 c2 c3 c4 c5 c6 c7 c8 c9 d0 d1 d2 d3 d4 d5 d6 d7 d8 d9) };
}

fn in_closure() -> &'static mut [u8] {
	let f = || dynamixel2::static_buffer!(33);
	f()
}
fn in_loop() -> &'static mut [u8] {
	let mut last = None;
	for _ in 0..1 {
		last = Some(dynamixel2::static_buffer!(34));
	}
	last.unwrap()
}
fn generic<T>() -> &'static mut [u8] {
	dynamixel2::static_buffer!(35)
}

fn again() -> &'static mut [u8] {
	dynamixel2::static_buffer!(36)
}
fn stepped() -> &'static mut [u8] {
	dynamixel2::static_buffer!(38)
}
fn often() -> &'static mut [u8] {
	dynamixel2::static_buffer!(37)
}

static BASE: u8 = 0;
/// Which process: memory of different processes is never the same memory.
static PROCESS: AtomicUsize = AtomicUsize::new(0);
static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn log(event: String) {
	LOG.lock().unwrap_or_else(|e| e.into_inner()).push(event);
}

fn evaluate(thread: usize, site: usize, size: usize, f: impl FnOnce() -> &'static mut [u8]) {
	log(format!(r#"{{"e":"call","th":{thread},"site":{site},"n":{size}}}"#));
	let (kind, lo, len, zero) = match catch_unwind(AssertUnwindSafe(f)) {
		Ok(buffer) => {
			let lo = buffer.as_ptr() as i64 - &raw const BASE as i64;
			let zero = buffer.iter().all(|x| *x == 0);
			// Leave a mark that shows up in other buffers, if they share memory.
			buffer.fill(thread as u8 + 1);
			("got", lo, buffer.len(), zero)
		},
		Err(_) => ("panic", 0, 0, true),
	};
	let process = PROCESS.load(Ordering::Relaxed);
	log(format!(r#"{{"e":"{kind}","th":{thread},"site":{site},"proc":{process},"lo":{lo},"len":{len},"zero":{zero}}}"#));
}

// ---- scheduler

#[derive(Clone, Copy, PartialEq)]
enum State {
	Running,
	Waiting,
	Done,
}
struct Turns {
	state: Vec<State>,
	turn: Option<usize>,
}
static TURNS: (Mutex<Option<Turns>>, Condvar) = (Mutex::new(None), Condvar::new());
thread_local! {
	static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

fn point() {
	let me = ME.with(|x| x.get());
	let (lock, cond) = &TURNS;
	let mut turns = lock.lock().unwrap();
	turns.as_mut().unwrap().state[me] = State::Waiting;
	cond.notify_all();
	turns = cond.wait_while(turns, |x| x.as_ref().unwrap().turn != Some(me)).unwrap();
	let x = turns.as_mut().unwrap();
	x.turn = None;
	x.state[me] = State::Running;
}

/// Have some threads evaluate an occurrence, as scheduled by `choose`.
/// Gives up on threads that make too many steps.
fn scheduled(threads: usize, site: usize, size: usize, f: Eval, choose: &mut dyn FnMut(usize) -> usize) -> bool {
	*TURNS.0.lock().unwrap() = Some(Turns { state: vec![State::Running; threads], turn: None });
	let handles: Vec<_> = (0..threads)
		.map(|i| {
			std::thread::spawn(move || {
				ME.with(|x| x.set(i));
				#[cfg(feature = "shim")]
				core::instrument(point);
				point();
				evaluate(i, site, size, f);
				let (lock, cond) = &TURNS;
				lock.lock().unwrap().as_mut().unwrap().state[i] = State::Done;
				cond.notify_all();
			})
		})
		.collect();
	let (lock, cond) = &TURNS;
	// Who ran last, and how many times without a break.
	let mut last = (usize::MAX, 0);
	for step in 0.. {
		let mut turns = lock.lock().unwrap();
		turns = cond.wait_while(turns, |x| {
			let x = x.as_ref().unwrap();
			x.turn.is_some() || x.state.contains(&State::Running)
		})
		.unwrap();
		let x = turns.as_mut().unwrap();
		let ready: Vec<usize> = (0..threads).filter(|i| x.state[*i] == State::Waiting).collect();
		if ready.is_empty() {
			break;
		}
		if step > 2000 {
			log(format!(r#"{{"e":"stuck","th":{},"site":{site}}}"#, ready[0]));
			return false;
		}
		let mut k = if ready.len() == 1 { 0 } else { choose(ready.len()) };
		// Fairly: whoever waits for another thread does not have to wait forever.
		if ready[k] == last.0 && last.1 >= 30 {
			k = (k + 1) % ready.len();
		}
		last = (ready[k], if ready[k] == last.0 { last.1 + 1 } else { 1 });
		x.turn = Some(ready[k]);
		cond.notify_all();
	}
	for h in handles {
		h.join().unwrap();
	}
	true
}

// ---- scheduler of single instructions

/// Two threads in a process of their own evaluate the same occurrence. The
/// first is interrupted after some instructions, then (perhaps) the second,
/// then both go on. Whoever is waited for but waits itself is overtaken.
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod steps {
	use super::{evaluate, stepped, LOG};
	use std::cell::Cell;
	use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};
	use std::time::{Duration, Instant};

	thread_local! {
		static ME: Cell<usize> = const { Cell::new(0) };
	}
	static TURN: AtomicUsize = AtomicUsize::new(0);
	static DONE: [AtomicBool; 2] = [const { AtomicBool::new(false) }; 2];
	static LEFT: [AtomicI64; 2] = [const { AtomicI64::new(0) }; 2];
	static COUNT: AtomicUsize = AtomicUsize::new(0);
	const TRAP: i64 = 0x100;

	fn wait(me: usize) {
		let begin = Instant::now();
		while TURN.load(SeqCst) != me && !DONE[1 - me].load(SeqCst) && begin.elapsed() < Duration::from_millis(100) {
			unsafe { libc::sched_yield() };
		}
	}

	extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
		let me = ME.with(|x| x.get());
		COUNT.fetch_add(1, SeqCst);
		if LEFT[me].fetch_sub(1, SeqCst) <= 1 {
			let context = unsafe { &mut *context.cast::<libc::ucontext_t>() };
			context.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TRAP;
			TURN.store(1 - me, SeqCst);
			wait(me);
		}
	}

	fn body(me: usize, site: usize) {
		ME.with(|x| x.set(me));
		wait(me);
		let step = LEFT[me].load(SeqCst) > 0;
		evaluate(me, site, 38, || unsafe {
			if step {
				std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
			}
			let result = stepped();
			std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
			result
		});
		DONE[me].store(true, SeqCst);
		TURN.store(1 - me, SeqCst);
	}

	/// The events, and the number of instructions that were stepped through.
	pub fn run(path: &str, site: usize, left: [i64; 2], alone: bool) -> (Vec<String>, usize) {
		let pid = unsafe { libc::fork() };
		if pid == 0 {
			unsafe {
				libc::alarm(10);
				super::PROCESS.store(site, SeqCst);
				let mut action: libc::sigaction = std::mem::zeroed();
				action.sa_sigaction = on_trap as extern "C" fn(_, _, _) as usize;
				action.sa_flags = libc::SA_SIGINFO;
				libc::sigaction(libc::SIGTRAP, &action, std::ptr::null_mut());
			}
			LEFT[0].store(left[0], SeqCst);
			LEFT[1].store(left[1], SeqCst);
			let threads: Vec<_> = (0..if alone { 1 } else { 2 }).map(|me| std::thread::spawn(move || body(me, site))).collect();
			for t in threads {
				let _ = t.join();
			}
			let text = format!("{}\n{}", COUNT.load(SeqCst), LOG.lock().unwrap_or_else(|e| e.into_inner()).join("\n"));
			let ok = std::fs::write(path, text).is_ok();
			unsafe { libc::_exit(if ok { 0 } else { 1 }) };
		}
		let mut status = 0;
		unsafe { libc::waitpid(pid, &mut status, 0) };
		if pid < 0 || status != 0 {
			// Killed: by the alarm (it hangs), or because the code under test crashes.
			if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) != libc::SIGTRAP {
				return (vec![format!(r#"{{"e":"stuck","th":0,"site":{site}}}"#)], 0);
			}
			return (Vec::new(), 0);
		}
		let text = std::fs::read_to_string(path).unwrap();
		let _ = std::fs::remove_file(path);
		let mut lines = text.lines().map(|x| x.to_string());
		let n = lines.next().unwrap().parse().unwrap();
		(lines.collect(), n)
	}
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod steps {
	pub fn run(_: &str, _: usize, _: [i64; 2], _: bool) -> (Vec<String>, usize) {
		(Vec::new(), 0)
	}
}

/// Interrupt an evaluation after every instruction, and some twice.
fn step(path: &str, first: usize, deep: bool, random: &mut dyn FnMut(usize) -> usize) -> (usize, Vec<String>) {
	const NEVER: i64 = 1 << 40;
	let path = format!("{path}.child");
	let (mut events, n) = steps::run(&path, first, [NEVER, 0], true);
	let mut plans: Vec<[i64; 2]> = Vec::new();
	if n > 0 {
		let most = if deep { 3000 } else { 400 };
		for k in 0..n.min(most) {
			plans.push([1 + (k * n / n.min(most)) as i64, 0]);
		}
		for _ in 0..if deep { 2000 } else { 200 } {
			plans.push([1 + random(n) as i64, 1 + random(n) as i64]);
		}
	}
	for (i, left) in plans.into_iter().enumerate() {
		events.extend(steps::run(&path, first + 1 + i, left, false).0);
		if events.last().is_some_and(|x| x.contains("stuck")) {
			break;
		}
	}
	(n, events)
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let mut seed: u64 = args[2].parse().unwrap();
	let deep = args[3] == "1";
	std::panic::set_hook(Box::new(|_| ()));
	let mut random = move |n: usize| {
		seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
		(seed >> 33) as usize % n
	};
	let mut sites: Vec<(usize, Eval)> = vec![(33, in_closure as Eval), (34, in_loop), (35, generic::<u8>)];
	sites.extend(many!(64));
	sites.extend(many!(64));
	sites.extend(many!(64));
	sites.extend(many!(128));
	sites.extend(many!(10));
	sites.extend(many!(1));
	sites.extend(many!(1000));
	sites.extend(many!(7));
	sites.extend(many!(64));
	sites.extend(many!(0));
	sites.extend(many!(4096));
	sites.extend(many!(255));
	sites.extend(many!(70000));
	// Use them in some other order.
	for i in (1..sites.len()).rev() {
		sites.swap(i, random(i + 1));
	}
	// In processes of their own, as long as this one has no other threads.
	let (steps, stepped) = step(&args[1], sites.len() + 2, deep, &mut random);
	let mut fresh = sites.iter().copied().enumerate();
	let (mut dfs, mut complete) = (0, 0);
	let mut good = true;
	// Every schedule of two and three threads, as far as the occurrences go.
	for (threads, most) in [(2, 100), (3, 200)] {
		let mut stack: Vec<(usize, usize)> = Vec::new();
		for _ in 0..most {
			let Some((i, (size, f))) = fresh.next() else { break };
			let mut depth = 0;
			good = good && scheduled(threads, i, size, f, &mut |n| {
				if depth == stack.len() {
					stack.push((0, n));
				}
				depth += 1;
				stack[depth - 1].0.min(n - 1)
			});
			dfs += 1;
			stack.truncate(depth);
			while let Some((k, n)) = stack.pop() {
				if k + 1 < n {
					stack.push((k + 1, n));
					break;
				}
			}
			if stack.is_empty() {
				complete += 1;
				break;
			}
			if !good {
				break;
			}
		}
	}
	// Some schedules of more threads.
	for _ in 0..60 {
		let Some((i, (size, f))) = fresh.next() else { break };
		let threads = 4 + random(4);
		good = good && scheduled(threads, i, size, f, &mut |n| random(n));
	}
	// Threads that run freely, then again from the same thread.
	for (i, (size, f)) in fresh {
		if !good {
			break;
		}
		let threads = 1 + random(if deep { 16 } else { 8 });
		let barrier = Arc::new(Barrier::new(threads));
		let handles: Vec<_> = (0..threads)
			.map(|t| {
				let barrier = barrier.clone();
				std::thread::spawn(move || {
					barrier.wait();
					evaluate(t, i, size, f);
				})
			})
			.collect();
		for h in handles {
			h.join().unwrap();
		}
		evaluate(0, i, size, f);
		evaluate(0, i, size, f);
	}
	// Many times, in case somebody counts.
	for (i, (size, f), times) in [(sites.len(), (36, again as Eval), 300), (sites.len() + 1, (37, often as Eval), 1 << 17)] {
		if !good {
			break;
		}
		for k in 0..times {
			if k < 600 {
				evaluate(0, i, size, f);
			} else if catch_unwind(AssertUnwindSafe(f)).is_ok() {
				log(format!(r#"{{"e":"call","th":0,"site":{i},"n":{size}}}"#));
				log(format!(r#"{{"e":"got","th":0,"site":{i},"proc":0,"lo":0,"len":{size},"zero":true}}"#));
				break;
			}
		}
	}
	stepped.into_iter().for_each(log);
	let mut out = std::io::BufWriter::new(std::fs::File::create(&args[1]).unwrap());
	writeln!(out, r#"{{"schedules":{dfs},"complete":{complete},"steps":{steps}}}"#).unwrap();
	for e in LOG.lock().unwrap().iter() {
		writeln!(out, "{e}").unwrap();
	}
	out.flush().unwrap();
	std::process::exit(0);
}
