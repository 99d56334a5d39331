//! Everything in core, but operations on atomics are scheduling points.

pub use ::core::*;

use std::cell::Cell;

thread_local! {
	static POINT: Cell<Option<fn()>> = const { Cell::new(None) };
}

/// From now on, call this in the current thread before every operation on an atomic.
pub fn instrument(f: fn()) {
	POINT.with(|x| x.set(Some(f)));
}

fn point() {
	if let Some(f) = POINT.with(|x| x.get()) {
		f();
	}
}

pub mod hint {
	pub use ::core::hint::*;
	pub fn spin_loop() {
		crate::point();
	}
}

pub mod sync {
	pub use ::core::sync::*;
	pub mod atomic {
		pub use ::core::sync::atomic::*;
		use crate::point;
		use ::core::sync::atomic as real;

		/// Whether the next weak compare-exchange fails for no reason.
		static FLAKY: real::AtomicUsize = real::AtomicUsize::new(0);
		fn flaky() -> bool {
			FLAKY.fetch_add(1, Ordering::SeqCst) % 3 == 0
		}

		macro_rules! atomic {
			($($name:ident $ty:ty, { $($extra:ident($($arg:ident: $argty:ty),*) -> $ret:ty;)* })*) => {$(
				#[derive(Debug, Default)]
				#[repr(transparent)]
				pub struct $name(real::$name);
				impl $name {
					pub const fn new(x: $ty) -> Self { Self(real::$name::new(x)) }
					pub fn load(&self, o: Ordering) -> $ty { point(); self.0.load(o) }
					pub fn store(&self, x: $ty, o: Ordering) { point(); self.0.store(x, o) }
					pub fn swap(&self, x: $ty, o: Ordering) -> $ty { point(); self.0.swap(x, o) }
					pub fn compare_exchange(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
						point();
						self.0.compare_exchange(a, b, s, f)
					}
					pub fn compare_exchange_weak(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
						point();
						if flaky() { return Err(self.0.load(Ordering::SeqCst)) }
						self.0.compare_exchange(a, b, s, f)
					}
					pub fn fetch_update<F: FnMut($ty) -> Option<$ty>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$ty, $ty> {
						point();
						self.0.fetch_update(s, f, g)
					}
					pub fn get_mut(&mut self) -> &mut $ty { self.0.get_mut() }
					pub fn into_inner(self) -> $ty { self.0.into_inner() }
					pub fn as_ptr(&self) -> *mut $ty { self.0.as_ptr() }
					$(pub fn $extra(&self, $($arg: $argty,)* o: Ordering) -> $ret { point(); self.0.$extra($($arg,)* o) })*
				}
			)*};
		}
		atomic! {
			AtomicBool bool, { fetch_and(x: bool) -> bool; fetch_or(x: bool) -> bool; fetch_xor(x: bool) -> bool; fetch_nand(x: bool) -> bool; }
			AtomicU8 u8, { fetch_add(x: u8) -> u8; fetch_sub(x: u8) -> u8; fetch_or(x: u8) -> u8; fetch_and(x: u8) -> u8; fetch_xor(x: u8) -> u8; fetch_max(x: u8) -> u8; fetch_min(x: u8) -> u8; }
			AtomicU16 u16, { fetch_add(x: u16) -> u16; fetch_sub(x: u16) -> u16; fetch_or(x: u16) -> u16; fetch_and(x: u16) -> u16; fetch_xor(x: u16) -> u16; fetch_max(x: u16) -> u16; fetch_min(x: u16) -> u16; }
			AtomicU32 u32, { fetch_add(x: u32) -> u32; fetch_sub(x: u32) -> u32; fetch_or(x: u32) -> u32; fetch_and(x: u32) -> u32; fetch_xor(x: u32) -> u32; fetch_max(x: u32) -> u32; fetch_min(x: u32) -> u32; }
			AtomicUsize usize, { fetch_add(x: usize) -> usize; fetch_sub(x: usize) -> usize; fetch_or(x: usize) -> usize; fetch_and(x: usize) -> usize; fetch_xor(x: usize) -> usize; fetch_max(x: usize) -> usize; fetch_min(x: usize) -> usize; }
			AtomicI32 i32, { fetch_add(x: i32) -> i32; fetch_sub(x: i32) -> i32; fetch_or(x: i32) -> i32; fetch_and(x: i32) -> i32; fetch_xor(x: i32) -> i32; }
			AtomicIsize isize, { fetch_add(x: isize) -> isize; fetch_sub(x: isize) -> isize; fetch_or(x: isize) -> isize; fetch_and(x: isize) -> isize; fetch_xor(x: isize) -> isize; }
		}
		pub fn fence(o: Ordering) {
			point();
			real::fence(o)
		}
	}
}
