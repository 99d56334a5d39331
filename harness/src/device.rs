//! Operations of the device.

use crate::client::{baud, duration, encoder, obj};
use crate::json::V;
use crate::mock::{nums, PErr, Port};
use crate::{result, Rec};
use dynamixel2::bus::InstructionPacket;
use dynamixel2::{Clear, Device, FactoryReset, Instruction, Instructions, ReadError};

pub fn instruction<T: AsRef<[u8]>>(i: &Instruction<T>) -> String {
	let none: &[u8] = &[];
	let (op, a, b, x, d) = match &i.instruction {
		Instructions::Ping => ("Ping", 0, 0, "", none),
		Instructions::Read { address, length } => ("Read", *address, *length, "", none),
		Instructions::Write { address, parameters } => ("Write", *address, 0, "", parameters.as_ref()),
		Instructions::RegWrite { address, parameters } => ("RegWrite", *address, 0, "", parameters.as_ref()),
		Instructions::Action => ("Action", 0, 0, "", none),
		Instructions::FactoryReset(k) => match k {
			FactoryReset::All => ("FactoryReset", 0, 0, "All", none),
			FactoryReset::ExceptId => ("FactoryReset", 0, 0, "ExceptId", none),
			FactoryReset::ExceptIdBaudRate => ("FactoryReset", 0, 0, "ExceptIdBaudRate", none),
			FactoryReset::Unknown(n) => ("FactoryReset", *n as u16, 0, "Unknown", none),
		},
		Instructions::Reboot => ("Reboot", 0, 0, "", none),
		Instructions::Clear(k) => match k {
			Clear::MultiTurns => ("Clear", 0, 0, "MultiTurns", none),
			Clear::Errors => ("Clear", 0, 0, "Errors", none),
			Clear::Reserved(n) => ("Clear", *n as u16, 0, "Reserved", none),
		},
		Instructions::SyncRead { address, length, ids } => ("SyncRead", *address, *length, "", ids.as_ref()),
		Instructions::SyncWrite { address, length, parameters } => ("SyncWrite", *address, *length, "", parameters.as_ref()),
		Instructions::BulkRead { parameters } => ("BulkRead", 0, 0, "", parameters.as_ref()),
		Instructions::BulkWrite { parameters } => ("BulkWrite", 0, 0, "", parameters.as_ref()),
		Instructions::Unknown { instruction, parameters } => ("Unknown", *instruction as u16, 0, "", parameters.as_ref()),
	};
	format!(
		r#"{{"k":"instr","id":{},"op":"{op}","a":{a},"b":{b},"x":"{x}","data":{}}}"#,
		i.id,
		nums(d)
	)
}

pub fn raw(p: InstructionPacket) -> String {
	format!(
		r#"{{"k":"raw","id":{},"ins":{},"data":{}}}"#,
		p.packet_id(),
		p.instruction_id(),
		nums(p.parameters())
	)
}

pub fn run<B>(rec: &Rec, make: impl FnOnce() -> Result<Device<Port, B>, PErr>, ops: &[V])
where
	B: AsRef<[u8]> + AsMut<[u8]>,
{
	let new = rec.call(&obj("new"), || match make() {
		Ok(device) => (result::unit(), Some(device)),
		Err(e) => (result::port(e), None),
	});
	let Some(Some(mut device)) = new else { return };
	for op in ops {
		if !rec.environment(op) {
			operate(rec, &mut device, op);
		}
	}
	drop(device.into_serial_port());
}

/// Perform an operation. Returns its result, unless it panicked.
pub fn operate<B>(rec: &Rec, device: &mut Device<Port, B>, op: &V) -> Option<String>
where
	B: AsRef<[u8]> + AsMut<[u8]>,
{
	macro_rules! call {
		($body:expr) => {{
			rec.call(op, || {
				let r: String = $body;
				(r.clone(), r)
			})
		}};
	}
	let via = op.get("via").str();
	match op.get("op").str() {
		"baud" => call!(result::baud(device.baud_rate())),
		"set_baud" => call!(match device.set_baud_rate(baud(op.get("baud"))) {
			Ok(()) => result::unit(),
			Err(e) => result::port(e),
		}),
		"dev_read" => call!({
			let timeout = duration(op.get("timeout"));
			let read = |e: ReadError<PErr>| result::read(e);
			match via {
				"raw" => device.read_raw_instruction_timeout(timeout).map_or_else(read, raw),
				#[cfg(feature = "alloc")]
				"owned" => device.read_owned(timeout).map_or_else(read, |x| instruction(&x)),
				// The same packet, converted both ways.
				#[cfg(feature = "alloc")]
				"both" => match device.read_raw_instruction_timeout(timeout) {
					Err(e) => read(e),
					Ok(p) => {
						let a = Instruction::<&[u8]>::try_from(p).map_or_else(result::count, |x| instruction(&x));
						let b = Instruction::<Vec<u8>>::try_from(p).map_or_else(result::count, |x| instruction(&x));
						if a == b { a } else { format!(r#"{{"k":"differ","a":{a},"b":{b}}}"#) }
					},
				},
				_ => device.read(timeout).map_or_else(read, |x| instruction(&x)),
			}
		}),
		"dev_status" => call!({
			let id = op.u8("id");
			let err = op.u8("err");
			let r = match via {
				"ok" => device.write_status_ok(id),
				"error" => device.write_status_error(id, err),
				_ => device.write_status(id, err, op.get("data").arr().len(), encoder(op)),
			};
			match r {
				Ok(()) => result::unit(),
				Err(e) => result::write(e),
			}
		}),
		x => panic!("harness: unknown device operation {x}"),
	}
}
