//! Operations of the client.

use crate::json::V;
use crate::mock::{PErr, Port};
use crate::types::{Val, View};
use crate::{result, with_type, with_view, Rec};
use dynamixel2::bus::StatusPacket;
use dynamixel2::instructions::{BulkReadData, BulkWriteData, FactoryResetKind, SyncWriteData};
use dynamixel2::{BufferTooSmallError, Client, ReadError, Response, TransferError};
use std::time::Duration;

type Item = Option<Result<(u8, bool, Vec<u8>), ReadError<PErr>>>;

pub fn duration(v: &V) -> Duration {
	Duration::new(v.arr()[0].int() as u64, v.arr()[1].int() as u32)
}

pub fn baud(v: &V) -> u32 {
	v.arr()[0].int() as u32 * 1_000_000 + v.arr()[1].int() as u32
}

pub fn obj(op: &str) -> V {
	V::Obj(vec![("op".into(), V::Str(op.into()))])
}

/// Encode raw parameters, or fail as told.
pub fn encoder(op: &V) -> impl FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError> {
	let data = op.get("data").bytes();
	let fail = op.get("encfail").clone();
	move |buffer: &mut [u8]| {
		if fail != V::Null {
			return Err(BufferTooSmallError {
				required_size: fail.arr()[0].int() as usize,
				total_size: fail.arr()[1].int() as usize,
			});
		}
		buffer.copy_from_slice(&data);
		Ok(())
	}
}

fn unit_response(r: Result<Response<()>, TransferError<PErr>>) -> String {
	match r {
		Ok(r) => result::ok(r.motor_id, r.alert, &[]),
		Err(e) => result::transfer(e),
	}
}

fn status(s: StatusPacket) -> String {
	// The conversions to responses must say the same.
	let all = Response::<&[u8]>::from(s);
	let same = (all.motor_id, all.alert, all.data) == (s.packet_id(), s.alert(), s.parameters());
	let n = s.parameters().len();
	let empty = match Response::<()>::try_from(s) {
		Ok(r) => n == 0 && (r.motor_id, r.alert) == (s.packet_id(), s.alert()),
		Err(e) => n != 0 && e.actual == n && e.expected == dynamixel2::ExpectedCount::Exact(0),
	};
	if !same || !empty {
		return r#"{"k":"differ"}"#.into();
	}
	format!(
		r#"{{"k":"status","id":{},"ins":{},"err":{},"errno":{},"alert":{},"data":{}}}"#,
		s.packet_id(),
		s.instruction_id(),
		s.error(),
		s.error_number(),
		s.alert(),
		crate::mock::nums(s.parameters())
	)
}

fn item(x: Item) -> String {
	match x {
		None => result::none(),
		Some(Ok((id, alert, data))) => result::ok(id, alert, &data),
		Some(Err(e)) => result::read(e),
	}
}

/// How many items does a step like "nth:2" skip? A step "last:2" does the same, if there are three left.
fn skips(how: &str) -> usize {
	how.strip_prefix("nth:").or(how.strip_prefix("last:")).map_or(0, |n| n.parse().unwrap())
}

/// The next item, or one after it.
fn advance<It: Iterator>(it: &mut It, how: &str) -> Option<It::Item> {
	match skips(how) {
		_ if how.starts_with("last") => it.by_ref().last(),
		0 => it.next(),
		n => it.nth(n),
	}
}

/// Carry out the plan of an iterator.
fn iterate<It>(
	rec: &Rec,
	op: &V,
	mut it: It,
	next: impl Fn(&mut It, &str) -> Item,
	remaining: impl Fn(&It) -> usize,
	hint: impl Fn(&It) -> (usize, Option<usize>),
) {
	for step in op.get("plan").arr() {
		if rec.environment(step) {
			continue;
		}
		match step.str() {
			"rem" => {
				rec.call(&obj("rem"), || (result::num(remaining(&it)), ()));
			},
			"hint" => {
				rec.call(&obj("hint"), || {
					let (lo, hi) = hint(&it);
					(result::hint(lo, hi), ())
				});
			},
			"forget" => {
				rec.call(&obj("forget"), || (result::unit(), std::mem::forget(it)));
				return;
			},
			how => {
				let mut call = vec![("op".to_string(), V::Str("next".into()))];
				if skips(how) > 0 {
					call.push(("skip".into(), V::Int(skips(how) as i64)));
				}
				rec.call(&V::Obj(call), || (item(next(&mut it, how)), ()));
			},
		}
	}
	rec.call(&obj("drop"), || {
		drop(it);
		(result::unit(), ())
	});
}

fn owned<T>(x: Option<Result<Response<T>, ReadError<PErr>>>, f: impl Fn(T) -> Vec<u8>) -> Item {
	x.map(|r| r.map(|r| (r.motor_id, r.alert, f(r.data))))
}

pub fn run<B>(rec: &Rec, make: impl FnOnce() -> Result<Client<Port, B>, PErr>, ops: &[V])
where
	B: AsRef<[u8]> + AsMut<[u8]>,
{
	let new = rec.call(&obj("new"), || match make() {
		Ok(client) => (result::unit(), Some(client)),
		Err(e) => (result::port(e), None),
	});
	let Some(Some(mut client)) = new else { return };
	for op in ops {
		if !rec.environment(op) {
			operate(rec, &mut client, op);
		}
	}
	drop(client.into_serial_port());
}

pub fn operate<B>(rec: &Rec, client: &mut Client<Port, B>, op: &V)
where
	B: AsRef<[u8]> + AsMut<[u8]>,
{
	let ty = op.get("ty").str();
	let id = || op.u8("id");
	let addr = || op.u16("addr");
	let count = || op.u16("count");
	let bcast = *op.get("bcast") == V::Bool(true);
	let unit = |r: Result<(), dynamixel2::WriteError<PErr>>| match r {
		Ok(()) => result::unit(),
		Err(e) => result::write(e),
	};
	// Iterators are taken out of the recorded call, so they can be used in later ones.
	macro_rules! start {
		($call:expr, |$it:ident| $more:expr) => {{
			let started = rec.call(&op_without_plan(op), || match $call {
				Ok(it) => (result::handle(), Some(it)),
				Err(e) => (result::write(e), None),
			});
			if let Some(Some($it)) = started {
				$more
			}
		}};
	}
	macro_rules! call {
		($body:expr) => {{
			rec.call(op, || ($body, ()));
		}};
	}
	match op.get("op").str() {
		"baud" => call!(result::baud(client.baud_rate())),
		"set_baud" => call!(match client.set_baud_rate(baud(op.get("baud"))) {
			Ok(()) => result::unit(),
			Err(e) => result::port(e),
		}),
		"ping" => call!(match client.ping(id()) {
			Ok(r) => result::ok(r.motor_id, r.alert, &[
				(r.data.model % 256) as u8,
				(r.data.model / 256) as u8,
				r.data.firmware
			]),
			Err(e) => result::transfer(e),
		}),
		"read" => match ty {
			"bytes" => call!(match client.read_bytes::<Vec<u8>>(id(), addr(), count()) {
				Ok(r) => result::ok(r.motor_id, r.alert, &r.data),
				Err(e) => result::transfer(e),
			}),
			"slice" => call!(match client.read_bytes::<&[u8]>(id(), addr(), count()) {
				Ok(r) => result::ok(r.motor_id, r.alert, r.data),
				Err(e) => result::transfer(e),
			}),
			_ => with_type!(ty, T, call!(match client.read::<T>(id(), addr()) {
				Ok(r) => result::ok(r.motor_id, r.alert, &r.data.to_wire()),
				Err(e) => result::transfer(e),
			})),
		},
		"write" => match ty {
			"bytes" => call!(unit_response(client.write_bytes(id(), addr(), &op.get("data").bytes()))),
			_ => with_type!(ty, T, call!(unit_response(client.write(id(), addr(), &T::from_wire(&op.get("data").bytes()))))),
		},
		"reg_write" => match ty {
			"bytes" => call!(unit_response(client.reg_write_bytes(id(), addr(), &op.get("data").bytes()))),
			_ => with_type!(ty, T, call!(unit_response(client.reg_write(id(), addr(), &T::from_wire(&op.get("data").bytes()))))),
		},
		"action" if bcast => call!(unit(client.broadcast_action())),
		"action" => call!(unit_response(client.action(id()))),
		"reboot" if bcast => call!(unit(client.broadcast_reboot())),
		"reboot" => call!(unit_response(client.reboot(id()))),
		"clear_rev" if bcast => call!(unit(client.broadcast_clear_revolution_counter())),
		"clear_rev" => call!(unit_response(client.clear_revolution_counter(id()))),
		"clear_err" if bcast => call!(unit(client.broadcast_clear_error())),
		"clear_err" => call!(unit_response(client.clear_error(id()))),
		"factory_reset" => {
			let kind = match op.u8("kind") {
				255 => FactoryResetKind::ResetAll,
				1 => FactoryResetKind::KeepId,
				_ => FactoryResetKind::KeepIdAndBaudRate,
			};
			if bcast {
				call!(unit(client.broadcast_factory_reset(kind)))
			} else {
				call!(unit_response(client.factory_reset(id(), kind)))
			}
		},
		"sync_write" => match ty {
			"bytes" => {
				let data: Vec<_> = op.get("items").arr().iter().map(|x| SyncWriteData { motor_id: x.u8("id"), data: x.get("data").bytes() }).collect();
				call!(unit(client.sync_write_bytes(addr(), count(), data)))
			},
			"bytes_ref" => {
				let data: Vec<_> = op.get("items").arr().iter().map(|x| SyncWriteData { motor_id: x.u8("id"), data: x.get("data").bytes() }).collect();
				call!(unit(client.sync_write_bytes(addr(), count(), &data)))
			},
			_ => with_type!(ty, T, {
				let data: Vec<_> = op.get("items").arr().iter().map(|x| SyncWriteData { motor_id: x.u8("id"), data: T::from_wire(&x.get("data").bytes()) }).collect();
				call!(unit(client.sync_write::<_, _, T>(addr(), &data)))
			}),
		},
		"bulk_write" => {
			let data: Vec<_> = op.get("items").arr().iter().map(|x| BulkWriteData { motor_id: x.u8("id"), address: x.u16("addr"), data: x.get("data").bytes() }).collect();
			call!(unit(client.bulk_write(&data)))
		},
		"sync_read" => {
			let ids = op.get("ids").bytes();
			match ty {
				"bytes" => start!(client.sync_read_bytes::<Vec<u8>>(&ids, addr(), count()), |it| iterate(
					rec, op, it,
					|it, how| owned(match how { "read_next" => it.read_next(), _ => advance(it, how) }, |x| x),
					|it| it.remaining(),
					|it| it.size_hint()
				)),
				"borrow" => with_view!(count(), T, start!(client.sync_read_bytes_borrow::<T>(&ids, addr(), count()), |it| iterate(
					rec, op, it,
					|it, how| {
						for _ in 0..skips(how) {
							it.read_next_borrow()?.ok();
						}
						it.read_next_borrow().map(|r| r.map(|r| (r.motor_id, r.alert, r.data.0.to_vec())))
					},
					|it| it.remaining(),
					|it| (0, Some(it.remaining()))
				))),
				_ => with_type!(ty, T, start!(client.sync_read::<T>(&ids, addr()), |it| iterate(
					rec, op, it,
					|it, how| owned(match how { "read_next" => it.read_next(), _ => advance(it, how) }, |x| x.to_wire()),
					|it| it.remaining(),
					|it| it.size_hint()
				))),
			}
		},
		"bulk_read" => {
			let reads: Vec<_> = op.get("items").arr().iter().map(|x| BulkReadData { motor_id: x.u8("id"), address: x.u16("addr"), count: x.u16("count") }).collect();
			match ty {
				"borrow" => {
					let n = op.get("items").arr().first().map_or(0, |x| x.u16("count"));
					with_view!(n, T, start!(client.bulk_read_bytes_borrow::<T>(&reads), |it| iterate(
						rec, op, it,
						|it, how| {
						for _ in 0..skips(how) {
							it.read_next_borrow()?.ok();
						}
						it.read_next_borrow().map(|r| r.map(|r| (r.motor_id, r.alert, r.data.0.to_vec())))
					},
						|it| it.remaining(),
						|it| (0, Some(it.remaining()))
					)))
				},
				_ => start!(client.bulk_read_bytes::<Vec<u8>>(&reads), |it| iterate(
					rec, op, it,
					|it, how| owned(match how { "read_next" => it.read_next(), _ => advance(it, how) }, |x| x),
					|it| it.remaining(),
					|it| it.size_hint()
				)),
			}
		},
		"scan" => start!(client.scan(), |it| iterate(
			rec, op, it,
			|it, how| owned(match how { "read_next" => it.scan_next(), _ => advance(it, how) }, |x| vec![
				(x.model % 256) as u8,
				(x.model / 256) as u8,
				x.firmware
			]),
			|_| 0,
			|it| it.size_hint()
		)),
		"raw_write" => call!(unit(client.write_instruction(id(), op.u8("ins"), op.get("data").arr().len(), encoder(op)))),
		"raw_xfer" => call!(match client.transfer_single(id(), op.u8("ins"), op.get("data").arr().len(), op.u16("expect"), encoder(op)) {
			Ok(s) => status(s),
			Err(e) => result::transfer(e),
		}),
		"raw_read" => call!(match client.read_status_response(op.u16("expect")) {
			Ok(s) => status(s),
			Err(e) => result::read(e),
		}),
		"raw_read_t" => call!(match client.read_status_response_timeout(duration(op.get("timeout"))) {
			Ok(s) => status(s),
			Err(e) => result::read(e),
		}),
		x => panic!("harness: unknown client operation {x}"),
	}
}

fn op_without_plan(op: &V) -> V {
	match op {
		V::Obj(x) => V::Obj(x.iter().filter(|(k, _)| k != "plan").cloned().collect()),
		x => x.clone(),
	}
}
