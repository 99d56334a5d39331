//! Results in the uniform notation of the specification.

use crate::mock::{nums, PErr};
use dynamixel2::{BufferTooSmallError, ExpectedCount, InvalidMessage, ReadError, TransferError, WriteError};

fn clamp(x: usize) -> usize {
	x.min(i32::MAX as usize)
}

fn err(e: &str, a: i64, b: i64, x: &str) -> String {
	format!(r#"{{"k":"err","e":"{e}","a":{a},"b":{b},"x":"{x}"}}"#)
}

pub fn unit() -> String {
	r#"{"k":"unit"}"#.into()
}
pub fn none() -> String {
	r#"{"k":"none"}"#.into()
}
pub fn handle() -> String {
	r#"{"k":"handle"}"#.into()
}
pub fn num(n: usize) -> String {
	format!(r#"{{"k":"num","n":{}}}"#, clamp(n))
}
pub fn hint(lo: usize, hi: Option<usize>) -> String {
	let hi = hi.map_or(-1, |x| clamp(x) as i64);
	format!(r#"{{"k":"hint","lo":{},"hi":{hi}}}"#, clamp(lo))
}
pub fn baud(b: u32) -> String {
	format!(r#"{{"k":"baud","b":{}}}"#, crate::mock::baud(b))
}
pub fn ok(id: u8, alert: bool, data: &[u8]) -> String {
	format!(r#"{{"k":"ok","id":{id},"alert":{alert},"data":{}}}"#, nums(data))
}
pub fn too_small(e: &BufferTooSmallError) -> String {
	err("BufferTooSmall", clamp(e.required_size) as i64, clamp(e.total_size) as i64, "")
}
pub fn port(e: PErr) -> String {
	err("Port", e.0, 0, "")
}
pub fn write(e: WriteError<PErr>) -> String {
	match e {
		WriteError::BufferTooSmall(e) => too_small(&e),
		WriteError::DiscardBuffer(e) => err("DiscardBuffer", e.0, 0, ""),
		WriteError::Write(e) => err("Write", e.0, 0, ""),
	}
}
pub fn invalid(e: InvalidMessage) -> String {
	match e {
		InvalidMessage::InvalidHeaderPrefix(_) => err("InvalidHeaderPrefix", 0, 0, ""),
		InvalidMessage::InvalidChecksum(e) => err("InvalidChecksum", e.message.into(), e.computed.into(), ""),
		InvalidMessage::InvalidPacketId(e) => err("InvalidPacketId", e.actual.into(), e.expected.map_or(-1, |x| x.into()), ""),
		InvalidMessage::InvalidInstruction(e) => err("InvalidInstruction", e.actual.into(), e.expected.into(), ""),
		InvalidMessage::InvalidParameterCount(e) => count(e),
	}
}
pub fn count(e: dynamixel2::InvalidParameterCount) -> String {
	let (n, how) = match e.expected {
		ExpectedCount::Exact(n) => (n, "exact"),
		ExpectedCount::Max(n) => (n, "max"),
		ExpectedCount::Min(n) => (n, "min"),
	};
	err("InvalidParameterCount", clamp(e.actual) as i64, clamp(n) as i64, how)
}
pub fn read(e: ReadError<PErr>) -> String {
	match e {
		ReadError::BufferFull(e) => err("BufferFull", clamp(e.required_size) as i64, clamp(e.total_size) as i64, ""),
		ReadError::Io(e) => err("Io", e.0, 0, ""),
		ReadError::InvalidMessage(e) => invalid(e),
		ReadError::MotorError(e) => {
			// The derived values must agree with the raw one.
			let good = e.error_number() == e.raw % 128 && e.alert() == (e.raw >= 128);
			err("MotorError", e.raw.into(), 0, if good { "" } else { "inconsistent" })
		},
	}
}
pub fn transfer(e: TransferError<PErr>) -> String {
	match e {
		TransferError::WriteError(e) => write(e),
		TransferError::ReadError(e) => read(e),
	}
}
