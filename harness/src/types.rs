//! Values that go over the bus, as little-endian bytes.

use dynamixel2::bus::Data;

pub trait Val: Data + 'static {
	fn from_wire(b: &[u8]) -> Self;
	fn to_wire(&self) -> Vec<u8>;
	const BYTES: usize;
}

macro_rules! int {
	($($t:ty)*) => {$(
		impl Val for $t {
			fn from_wire(b: &[u8]) -> Self {
				let mut x: $t = 0;
				for i in (0..b.len()).rev() {
					x = (((x as u128) << 8) | b[i] as u128) as $t;
				}
				x
			}
			fn to_wire(&self) -> Vec<u8> {
				let mut x = *self as u128;
				(0..Self::BYTES).map(|_| { let b = (x & 255) as u8; x >>= 8; b }).collect()
			}
			const BYTES: usize = <$t>::BITS as usize / 8;
		}
	)*};
}
int!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);

impl<T: Val, const N: usize> Val for [T; N] {
	fn from_wire(b: &[u8]) -> Self {
		assert!(b.len() == Self::BYTES, "harness: bad value");
		std::array::from_fn(|i| T::from_wire(&b[i * T::BYTES..][..T::BYTES]))
	}
	fn to_wire(&self) -> Vec<u8> {
		self.iter().flat_map(|x| x.to_wire()).collect()
	}
	const BYTES: usize = T::BYTES * N;
}

/// A type of the user's own, some values of which can be neither encoded nor decoded.
pub struct Fussy([u8; 4]);

impl Data for Fussy {
	const ENCODED_SIZE: u16 = 4;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> {
		if self.0[0] == 0xEE {
			return Err(dynamixel2::BufferTooSmallError { required_size: 77, total_size: 7 });
		}
		buffer[..4].copy_from_slice(&self.0);
		Ok(())
	}
	fn decode(buffer: &[u8]) -> Result<Self, dynamixel2::InvalidMessage> {
		if buffer[0] == 0xEE {
			let expected = dynamixel2::ExpectedCount::Exact(6);
			return Err(dynamixel2::InvalidParameterCount { actual: 66, expected }.into());
		}
		Ok(Self(buffer[..4].try_into().unwrap()))
	}
}

impl Val for Fussy {
	fn from_wire(b: &[u8]) -> Self {
		Self(b.try_into().unwrap())
	}
	fn to_wire(&self) -> Vec<u8> {
		self.0.to_vec()
	}
	const BYTES: usize = 4;
}

#[macro_export]
macro_rules! with_type {
	($name:expr, $T:ident, $body:expr) => {
		match $name {
			"u8" => { type $T = u8; $body },
			"u16" => { type $T = u16; $body },
			"u32" => { type $T = u32; $body },
			"u64" => { type $T = u64; $body },
			"u128" => { type $T = u128; $body },
			"i8" => { type $T = i8; $body },
			"i16" => { type $T = i16; $body },
			"i32" => { type $T = i32; $body },
			"i64" => { type $T = i64; $body },
			"i128" => { type $T = i128; $body },
			"u8x0" => { type $T = [u8; 0]; $body },
			"u8x1" => { type $T = [u8; 1]; $body },
			"u8x3" => { type $T = [u8; 3]; $body },
			"u8x7" => { type $T = [u8; 7]; $body },
			"u16x2" => { type $T = [u16; 2]; $body },
			"i16x3" => { type $T = [i16; 3]; $body },
			"u32x2" => { type $T = [u32; 2]; $body },
			"i32x4" => { type $T = [i32; 4]; $body },
			"u64x2" => { type $T = [u64; 2]; $body },
			"u16x2x3" => { type $T = [[u16; 2]; 3]; $body },
			"u8x2x2x2" => { type $T = [[[u8; 2]; 2]; 2]; $body },
			"i8x5" => { type $T = [i8; 5]; $body },
			"fussy" => { type $T = $crate::types::Fussy; $body },
			"fussyx2" => { type $T = [$crate::types::Fussy; 2]; $body },
			"u8x100" => { type $T = [u8; 100]; $body },
			x => panic!("harness: unknown type {x}"),
		}
	};
}

/// A borrowed view of a fixed number of bytes.
#[repr(transparent)]
#[derive(Debug)]
pub struct View<const N: usize>(pub [u8; N]);

impl<const N: usize> std::borrow::Borrow<View<N>> for [u8] {
	fn borrow(&self) -> &View<N> {
		let array: &[u8; N] = self.try_into().expect("wrong number of bytes");
		// SAFETY: View is a transparent wrapper.
		unsafe { &*(array as *const [u8; N] as *const View<N>) }
	}
}

#[macro_export]
macro_rules! with_view {
	($n:expr, $T:ident, $body:expr) => {
		match $n {
			0 => { type $T = View<0>; $body },
			1 => { type $T = View<1>; $body },
			2 => { type $T = View<2>; $body },
			3 => { type $T = View<3>; $body },
			4 => { type $T = View<4>; $body },
			6 => { type $T = View<6>; $body },
			8 => { type $T = View<8>; $body },
			1025 => { type $T = View<1025>; $body },
			x => panic!("harness: no view of {x} bytes"),
		}
	};
}
