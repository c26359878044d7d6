//! Executes events on modules generated by `use_contract!` (glue.rs is written by bin/derive.py:
//! one module per ABI file, and `dispatch`, which calls the generated functions).
#[allow(dead_code)]
#[path = "../../vx/src/value.rs"]
mod value;

use ethabi::{Address, Hash, ParamType, Token, Topic, Uint};
use serde_json::{json, Value};
use std::{
	fs::File,
	io::{BufRead, BufReader, Write},
	panic::{catch_unwind, AssertUnwindSafe},
};

/// The Rust value of a token, in the type a generated function takes.
pub trait Arg: Sized {
	fn arg(t: &Token) -> Self;
}
/// The token of a Rust value a generated function returns.
pub trait Ret {
	fn ret(self, t: &ParamType) -> Token;
}

impl Arg for Address {
	fn arg(t: &Token) -> Self {
		t.clone().into_address().unwrap()
	}
}
impl Ret for Address {
	fn ret(self, _: &ParamType) -> Token {
		Token::Address(self)
	}
}
impl Arg for Uint {
	fn arg(t: &Token) -> Self {
		match t {
			Token::Int(x) | Token::Uint(x) => *x,
			_ => panic!("number"),
		}
	}
}
impl Ret for Uint {
	fn ret(self, t: &ParamType) -> Token {
		match t {
			ParamType::Int(_) => Token::Int(self),
			_ => Token::Uint(self),
		}
	}
}
impl Arg for bool {
	fn arg(t: &Token) -> Self {
		t.clone().into_bool().unwrap()
	}
}
impl Ret for bool {
	fn ret(self, _: &ParamType) -> Token {
		Token::Bool(self)
	}
}
impl Arg for String {
	fn arg(t: &Token) -> Self {
		t.clone().into_string().unwrap()
	}
}
impl Ret for String {
	fn ret(self, _: &ParamType) -> Token {
		Token::String(self)
	}
}
impl Arg for Vec<u8> {
	fn arg(t: &Token) -> Self {
		t.clone().into_bytes().unwrap()
	}
}
impl Ret for Vec<u8> {
	fn ret(self, _: &ParamType) -> Token {
		Token::Bytes(self)
	}
}
impl Arg for Hash {
	fn arg(t: &Token) -> Self {
		Hash::from_slice(&t.clone().into_fixed_bytes().unwrap())
	}
}
impl Ret for Hash {
	fn ret(self, _: &ParamType) -> Token {
		Token::FixedBytes(self.as_bytes().to_vec())
	}
}
impl<const N: usize> Arg for [u8; N] {
	fn arg(t: &Token) -> Self {
		let b = t.clone().into_fixed_bytes().unwrap();
		let mut out = [0u8; N];
		out.copy_from_slice(&b);
		out
	}
}
impl<const N: usize> Ret for [u8; N] {
	fn ret(self, _: &ParamType) -> Token {
		Token::FixedBytes(self.to_vec())
	}
}
impl<T: Arg> Arg for Vec<T> {
	fn arg(t: &Token) -> Self {
		t.clone().into_array().unwrap().iter().map(T::arg).collect()
	}
}
impl<T: Ret> Ret for Vec<T> {
	fn ret(self, t: &ParamType) -> Token {
		match t {
			ParamType::Array(t) => Token::Array(self.into_iter().map(|x| x.ret(t)).collect()),
			_ => Token::Array(vec![]),
		}
	}
}
impl<T: Arg + std::fmt::Debug, const N: usize> Arg for [T; N] {
	fn arg(t: &Token) -> Self {
		let v: Vec<T> = t.clone().into_fixed_array().unwrap().iter().map(T::arg).collect();
		<[T; N]>::try_from(v).unwrap()
	}
}
impl<T: Ret, const N: usize> Ret for [T; N] {
	fn ret(self, t: &ParamType) -> Token {
		match t {
			ParamType::FixedArray(t, _) => Token::FixedArray(self.into_iter().map(|x| x.ret(t)).collect()),
			_ => Token::FixedArray(vec![]),
		}
	}
}

/// What a generated decoder returns: nothing, one value or a tuple of them.
pub trait Rets {
	fn rets(self, t: &[ParamType]) -> Vec<Token>;
}
impl Rets for () {
	fn rets(self, _: &[ParamType]) -> Vec<Token> {
		vec![]
	}
}
impl<T: Ret> Rets for T {
	fn rets(self, t: &[ParamType]) -> Vec<Token> {
		vec![self.ret(&t[0])]
	}
}
macro_rules! rets {
	($($n:ident $i:tt),*) => {
		impl<$($n: Ret),*> Rets for ($($n,)*) {
			fn rets(self, t: &[ParamType]) -> Vec<Token> {
				vec![$(self.$i.ret(&t[$i])),*]
			}
		}
	};
}
rets!(A 0, B 1);
rets!(A 0, B 1, C 2);
rets!(A 0, B 1, C 2, D 3);
rets!(A 0, B 1, C 2, D 3, E 4);
rets!(A 0, B 1, C 2, D 3, E 4, F 5);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16, R 17);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16, R 17, S 18);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16, R 17, S 18, TT 19);
rets!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16, R 17, S 18, TT 19, U 20);

/// A request as the topic a generated filter takes.
pub fn req<T: Arg>(q: &Value) -> Topic<T> {
	value::request(q).map(|t| T::arg(&t))
}

pub fn bytes_reply(b: Vec<u8>) -> Option<Value> {
	Some(value::jbytes(&b))
}

pub fn rets_reply<T: Rets>(r: ethabi::Result<T>, types: &Value) -> Option<Value> {
	r.ok().map(|x| value::jtoks(&x.rets(&value::ptypes(types))))
}

pub fn filter_reply(f: ethabi::TopicFilter) -> Option<Value> {
	let json: Value = serde_json::to_value(&f).expect("filter");
	Some(json!({
		"topics": [value::jtopic(&f.topic0), value::jtopic(&f.topic1), value::jtopic(&f.topic2), value::jtopic(&f.topic3)],
		"json": json_tree(&json),
	}))
}

fn json_tree(v: &Value) -> Value {
	match v {
		Value::Null => json!({"j": "null"}),
		Value::String(s) => json!({"j": "str", "t": value::jtext(s)}),
		Value::Array(a) => json!({"j": "arr", "a": a.iter().map(json_tree).collect::<Vec<_>>()}),
		_ => json!({"j": "other"}),
	}
}

/// The fields of a parsed log, by the declared names and types.
pub fn log_reply(ev: &Value, fields: Vec<Box<dyn FnOnce(&ParamType) -> Token>>) -> Option<Value> {
	let ps = ev["inputs"].as_array().unwrap();
	Some(Value::Array(
		ps.iter()
			.zip(fields)
			.map(|(p, f)| json!({"name": p["name"], "value": value::jtok(&f(&value::ptype(&p["kind"])))}))
			.collect(),
	))
}

pub fn raw_log(a: &Value) -> ethabi::RawLog {
	(a["topics"].as_array().unwrap().iter().map(value::hash).collect::<Vec<_>>(), value::bytes(&a["data"])).into()
}

include!(concat!(env!("VD_DIR"), "/glue.rs"));

fn main() {
	let args: Vec<String> = std::env::args().collect();
	std::panic::set_hook(Box::new(|_| {}));
	let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[3]).expect("output");
	for line in BufReader::new(File::open(&args[2]).expect("input")).lines() {
		let mut e: Value = serde_json::from_str(&line.expect("line")).expect("event");
		let at = e["at"].as_str().expect("at").to_owned();
		let r = catch_unwind(AssertUnwindSafe(|| dispatch(&at, e["op"].as_str().unwrap(), &e["args"])));
		e["res"] = match r {
			Ok(Some(v)) => json!({"s": "ok", "v": v}),
			Ok(None) => json!({"s": "err"}),
			Err(_) => json!({"s": "panic"}),
		};
		e["last"] = json!(true);
		out.write_all(format!("{}\n", e).as_bytes()).expect("write");
	}
}
