//! Error types: conversions, texts and check functions.

use crate::json::V;
use crate::mock::{nums, PErr};
use crate::{result, Rec};
use dynamixel2::*;

type Transfer = TransferError<PErr>;

/// All numbers in a text, read in decimal and in hexadecimal.
fn numbers(text: &str) -> String {
	let mut out = vec![];
	for word in text.split(|c: char| !c.is_ascii_alphanumeric()) {
		if let Ok(x) = word.parse::<i32>() {
			out.push(x.to_string());
		}
		let hex = word.strip_prefix("0x").or(word.strip_prefix("0X")).unwrap_or(word);
		if let Ok(x) = i32::from_str_radix(hex, 16) {
			out.push(x.to_string());
		}
	}
	format!("[{}]", out.join(","))
}

/// For words that tell which of two values a number is: the numbers next to them.
fn named(text: &str) -> String {
	let words: Vec<&str> = text.split(|c: char| !c.is_ascii_alphanumeric()).filter(|x| !x.is_empty()).collect();
	let number = |x: &&&str| x.starts_with(|c: char| c.is_ascii_digit());
	let mut out = vec![];
	for (i, word) in words.iter().enumerate() {
		if ["expected", "got", "need", "size", "claims", "computed"].contains(word) {
			let next = [words[..i].iter().rev().find(number), words[i + 1..].iter().find(number)];
			let next: Vec<&str> = next.into_iter().flatten().copied().collect();
			out.push(format!(r#"{{"word":"{word}","nums":{}}}"#, numbers(&next.join(" "))));
		}
	}
	format!("[{}]", out.join(","))
}

pub fn run(rec: &Rec, ops: &[V]) {
	for op in ops {
		rec.call(op, || (operate(op), ()));
	}
}

fn said(r: String, text: String) -> String {
	format!(r#"{{"k":"conv","r":{r},"nums":{},"named":{}}}"#, numbers(&text), named(&text))
}

fn operate(op: &V) -> String {
	let int = |k: &str| op.get(k).int() as i64;
	match op.get("op").str() {
		"conv" => conv(op.get("e").str(), int("a"), int("b"), op.get("x").str(), op.get("to").str()),
		"fail" => {
			let code = int("code");
			let e = || PErr(code);
			let (d, w, r): (WriteError<PErr>, WriteError<PErr>, ReadError<PErr>) = (WriteError::DiscardBuffer(e()), WriteError::Write(e()), ReadError::Io(e()));
			let t: [Transfer; 3] = [WriteError::DiscardBuffer(e()).into(), WriteError::Write(e()).into(), ReadError::Io(e()).into()];
			let texts: Vec<String> = [d.to_string(), w.to_string(), r.to_string()].into_iter().chain(t.iter().map(|x| x.to_string())).collect();
			let errs: Vec<String> = [result::write(d), result::write(w), result::read(r)].into_iter().chain(t.into_iter().map(result::transfer)).collect();
			let list = |f: &dyn Fn(&str) -> String| texts.iter().map(|x| f(x)).collect::<Vec<_>>().join(",");
			format!(
				r#"{{"k":"fail","texts":[{}],"nums":[{}],"errs":[{}]}}"#,
				list(&|x| nums(x.as_bytes())),
				list(&numbers),
				errs.join(",")
			)
		},
		"row" => {
			let a = op.u8("a");
			let row: Vec<String> = (0..=255u8)
				.map(|b| {
					let id = |r: Result<(), InvalidPacketId>| r.err().map_or("[]".to_string(), |e| format!("[{},{}]", e.actual, e.expected.map_or(-1, |x| x as i32)));
					match op.get("what").str() {
						"id" => id(InvalidPacketId::check(a, b)),
						"idb" => id(InvalidPacketId::check_ignore_broadcast(a, b)),
						"ins" => InvalidInstruction::check(a, b).err().map_or("[]".to_string(), |e| format!("[{},{}]", e.actual, e.expected)),
						_ => MotorError::check(b).err().map_or("[]".to_string(), |e| format!("[{},{},{}]", e.raw, e.error_number(), e.alert() as u8)),
					}
				})
				.collect();
			format!(r#"{{"k":"row","row":[{}]}}"#, row.join(","))
		},
		"chk" => {
			let (a, b) = (int("a") as usize, int("b") as usize);
			let r = match op.get("what").str() {
				"exact" => InvalidParameterCount::check(a, b),
				"max" => InvalidParameterCount::check_max(a, b),
				"min" => InvalidParameterCount::check_min(a, b),
				_ => return BufferTooSmallError::check(a, b).err().map_or(result::unit(), |e| result::too_small(&e)),
			};
			r.err().map_or(result::unit(), result::count)
		},
		"prefix" => {
			let actual = op.get("actual").bytes();
			let expected: [u8; 4] = op.get("expected").bytes().try_into().unwrap();
			let e = match InvalidHeaderPrefix::check(&actual, expected) {
				Ok(()) => return result::unit(),
				Err(e) => e,
			};
			let show = |e: &InvalidHeaderPrefix, text: String| format!(r#"{{"k":"prefix","actual":{},"expected":{},"nums":{}}}"#, nums(&e.actual), nums(&e.expected), numbers(&text));
			let inner = |e: &InvalidMessage, text: String| match e {
				InvalidMessage::InvalidHeaderPrefix(e) => show(e, text),
				_ => r#"{"k":"other"}"#.to_string(),
			};
			let read = |e: &ReadError<PErr>, text: String| match e {
				ReadError::InvalidMessage(e) => inner(e, text),
				_ => r#"{"k":"other"}"#.to_string(),
			};
			match op.get("to").str() {
				"self" => show(&e, e.to_string()),
				"message" => {
					let e = InvalidMessage::from(e);
					inner(&e, e.to_string())
				},
				"read" => {
					let e = ReadError::<PErr>::from(e);
					read(&e, e.to_string())
				},
				_ => {
					let e = Transfer::from(e);
					let text = e.to_string();
					match e {
						TransferError::ReadError(e) => read(&e, text),
						_ => r#"{"k":"other"}"#.to_string(),
					}
				},
			}
		},
		x => panic!("harness: unknown operation on errors {x}"),
	}
}

/// Convert an error to a type, directly or by way of others.
macro_rules! through {
	($e:expr, $to:expr) => {{
		let e = $e;
		match $to {
			"self" => said(result::invalid(InvalidMessage::from(e.clone())), e.to_string()),
			"message" => {
				let e = InvalidMessage::from(e);
				said(result::invalid(e.clone()), e.to_string())
			},
			"read" => {
				let e = ReadError::<PErr>::from(e);
				let text = e.to_string();
				said(result::read(e), text)
			},
			"message.read" => {
				let e = ReadError::<PErr>::from(InvalidMessage::from(e));
				let text = e.to_string();
				said(result::read(e), text)
			},
			"message.transfer" => {
				let e = Transfer::from(InvalidMessage::from(e));
				let text = e.to_string();
				said(result::transfer(e), text)
			},
			"read.transfer" => {
				let e = Transfer::from(ReadError::<PErr>::from(e));
				let text = e.to_string();
				said(result::transfer(e), text)
			},
			_ => {
				let e = Transfer::from(e);
				let text = e.to_string();
				said(result::transfer(e), text)
			},
		}
	}};
}

fn conv(e: &str, a: i64, b: i64, x: &str, to: &str) -> String {
	match e {
		"InvalidChecksum" => through!(InvalidChecksum { message: a as u16, computed: b as u16 }, to),
		"InvalidPacketId" => through!(InvalidPacketId { actual: a as u8, expected: if b < 0 { None } else { Some(b as u8) } }, to),
		"InvalidInstruction" => through!(InvalidInstruction { actual: a as u8, expected: b as u8 }, to),
		"InvalidParameterCount" => {
			let n = b as usize;
			let expected = match x {
				"exact" => ExpectedCount::Exact(n),
				"max" => ExpectedCount::Max(n),
				_ => ExpectedCount::Min(n),
			};
			through!(InvalidParameterCount { actual: a as usize, expected }, to)
		},
		"MotorError" => {
			let e = MotorError { raw: a as u8 };
			match to {
				"self" => {
					let text = e.to_string();
					said(result::read(ReadError::MotorError(e)), text)
				},
				"read" => {
					let e = ReadError::<PErr>::from(e);
					let text = e.to_string();
					said(result::read(e), text)
				},
				"read.transfer" => {
					let e = Transfer::from(ReadError::<PErr>::from(e));
					let text = e.to_string();
					said(result::transfer(e), text)
				},
				_ => {
					let e = Transfer::from(e);
					let text = e.to_string();
					said(result::transfer(e), text)
				},
			}
		},
		_ => {
			let e = BufferTooSmallError { required_size: a as usize, total_size: b as usize };
			match to {
				"self" => said(result::too_small(&e), e.to_string()),
				"write" => {
					let e = WriteError::<PErr>::from(e);
					let text = e.to_string();
					said(result::write(e), text)
				},
				"read" => {
					let e = ReadError::<PErr>::from(e);
					let text = e.to_string();
					said(result::read(e), text)
				},
				"write.transfer" => {
					let e = Transfer::from(WriteError::<PErr>::from(e));
					let text = e.to_string();
					said(result::transfer(e), text)
				},
				_ => {
					let e = Transfer::from(ReadError::<PErr>::from(e));
					let text = e.to_string();
					said(result::transfer(e), text)
				},
			}
		},
	}
}
