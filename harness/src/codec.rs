//! Encoding and decoding of values, and the public checksum function.

use crate::json::V;
use crate::mock::nums;
use crate::types::Val;
use crate::{result, with_type, Rec};
use dynamixel2::bus::Data;
use dynamixel2::InvalidMessage;
use std::cell::RefCell;

thread_local! {
	static MADE: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
	static DROPPED: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

/// A value that is one byte on the bus and tells when it is dropped.
/// Decoding the byte 255 fails, and 254 panics.
struct Tracked(u8);

impl Data for Tracked {
	const ENCODED_SIZE: u16 = 1;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> {
		self.0.encode(buffer)
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		dynamixel2::InvalidParameterCount::check(buffer.len(), 1)?;
		if buffer[0] == 255 {
			return Err(dynamixel2::InvalidParameterCount::check_max(1, 0).unwrap_err().into());
		}
		if buffer[0] == 254 {
			panic!("decode");
		}
		MADE.with(|x| x.borrow_mut().push(buffer[0]));
		Ok(Tracked(buffer[0]))
	}
}

impl Drop for Tracked {
	fn drop(&mut self) {
		DROPPED.with(|x| x.borrow_mut().push(self.0));
	}
}

trait Elements {
	fn values(&self) -> Vec<u8>;
}
impl<const N: usize> Elements for [Tracked; N] {
	fn values(&self) -> Vec<u8> {
		self.iter().map(|x| x.0).collect()
	}
}
impl<const N: usize, const M: usize> Elements for [[Tracked; N]; M] {
	fn values(&self) -> Vec<u8> {
		self.iter().flatten().map(|x| x.0).collect()
	}
}

fn track<T: Data + Elements>(data: &[u8]) -> String {
	MADE.with(|x| x.borrow_mut().clear());
	DROPPED.with(|x| x.borrow_mut().clear());
	let decoded = std::panic::catch_unwind(|| T::decode(data));
	let early = DROPPED.with(|x| x.borrow().clone());
	let (how, values) = match &decoded {
		Ok(Ok(x)) => ("ok", x.values()),
		Ok(Err(_)) => ("err", vec![]),
		Err(_) => ("panic", vec![]),
	};
	drop(decoded);
	let mut made = MADE.with(|x| x.borrow().clone());
	let mut dropped = DROPPED.with(|x| x.borrow().clone());
	made.sort();
	dropped.sort();
	let mut early = early;
	early.sort();
	format!(
		r#"{{"k":"track","how":"{how}","vals":{},"made":{},"early":{},"dropped":{}}}"#,
		nums(&values),
		nums(&made),
		nums(&early),
		nums(&dropped)
	)
}

pub fn run(rec: &Rec, ops: &[V]) {
	for op in ops {
		rec.call(op, || (operate(op), ()));
	}
}

fn operate(op: &V) -> String {
	let data = op.get("data").bytes();
	let ty = op.get("ty").str();
	match op.get("op").str() {
		"size" => with_type!(ty, T, result::num(T::ENCODED_SIZE as usize)),
		"enc" => with_type!(ty, T, {
			let mut buffer = vec![op.u8("fill"); op.get("room").int() as usize];
			match T::from_wire(&data).encode(&mut buffer) {
				Ok(()) => format!(r#"{{"k":"enc","buf":{}}}"#, nums(&buffer)),
				Err(e) => format!(
					r#"{{"k":"encerr","a":{},"b":{},"kept":{}}}"#,
					e.required_size,
					e.total_size,
					buffer.iter().all(|x| *x == op.u8("fill"))
				),
			}
		}),
		"dec" => with_type!(ty, T, match T::decode(&data) {
			Ok(x) => format!(r#"{{"k":"val","data":{}}}"#, nums(&x.to_wire())),
			Err(e) => result::invalid(e),
		}),
		"track" => match ty {
			"0" => track::<[Tracked; 0]>(&data),
			"1" => track::<[Tracked; 1]>(&data),
			"2" => track::<[Tracked; 2]>(&data),
			"3" => track::<[Tracked; 3]>(&data),
			"5" => track::<[Tracked; 5]>(&data),
			"2x2" => track::<[[Tracked; 2]; 2]>(&data),
			"3x2" => track::<[[Tracked; 3]; 2]>(&data),
			x => panic!("harness: unknown type {x}"),
		},
		"crc" => result::num(dynamixel2::checksum::calculate_checksum(op.u16("init"), &data) as usize),
		x => panic!("harness: unknown codec operation {x}"),
	}
}
