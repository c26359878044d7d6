//! Conversions between the JSON event schema shared with the specification and the library's types.
use ethabi::{
	Address, Bytes, Event, EventParam, Function, Hash, Param, ParamType, RawTopicFilter, StateMutability, Token, Topic,
	Uint,
};
use serde_json::{json, Value};

pub fn bytes(v: &Value) -> Bytes {
	v.as_array().expect("bytes").iter().map(|x| x.as_u64().expect("byte") as u8).collect()
}

pub fn text(v: &Value) -> String {
	v.as_array()
		.expect("text")
		.iter()
		.map(|x| char::from_u32(x.as_u64().expect("code point") as u32).expect("scalar value"))
		.collect()
}

pub fn jbytes(b: &[u8]) -> Value {
	Value::Array(b.iter().map(|x| Value::from(*x)).collect())
}

pub fn jtext(s: &str) -> Value {
	Value::Array(s.chars().map(|c| Value::from(c as u32)).collect())
}

fn list<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
	v.as_array().expect("list").iter().map(f).collect()
}

pub fn ptype(v: &Value) -> ParamType {
	let n = || v["n"].as_u64().expect("n") as usize;
	match v["k"].as_str().expect("kind") {
		"address" => ParamType::Address,
		"bytes" => ParamType::Bytes,
		"bool" => ParamType::Bool,
		"string" => ParamType::String,
		"int" => ParamType::Int(n()),
		"uint" => ParamType::Uint(n()),
		"fbytes" => ParamType::FixedBytes(n()),
		"array" => ParamType::Array(Box::new(ptype(&v["t"]))),
		"farray" => ParamType::FixedArray(Box::new(ptype(&v["t"])), n()),
		"tuple" => ParamType::Tuple(list(&v["ts"], ptype)),
		k => panic!("unknown kind {}", k),
	}
}

pub fn ptypes(v: &Value) -> Vec<ParamType> {
	list(v, ptype)
}

pub fn jtype(t: &ParamType) -> Value {
	match t {
		ParamType::Address => json!({"k": "address"}),
		ParamType::Bytes => json!({"k": "bytes"}),
		ParamType::Bool => json!({"k": "bool"}),
		ParamType::String => json!({"k": "string"}),
		ParamType::Int(n) => json!({"k": "int", "n": n}),
		ParamType::Uint(n) => json!({"k": "uint", "n": n}),
		ParamType::FixedBytes(n) => json!({"k": "fbytes", "n": n}),
		ParamType::Array(t) => json!({"k": "array", "t": jtype(t)}),
		ParamType::FixedArray(t, n) => json!({"k": "farray", "t": jtype(t), "n": n}),
		ParamType::Tuple(ts) => json!({"k": "tuple", "ts": ts.iter().map(jtype).collect::<Vec<_>>()}),
	}
}

/// Payloads of huge byte strings are given as runs `[[count, byte], ...]`.
fn payload(v: &Value, runs: bool) -> Bytes {
	if !runs {
		return bytes(v);
	}
	let mut out = vec![];
	for r in v.as_array().expect("runs") {
		let n = r[0].as_u64().expect("count") as usize;
		out.resize(out.len() + n, r[1].as_u64().expect("byte") as u8);
	}
	out
}

fn jpayload(b: &[u8], runs: bool) -> Value {
	if !runs {
		return jbytes(b);
	}
	let mut out: Vec<(usize, u8)> = vec![];
	for x in b {
		match out.last_mut() {
			Some((n, y)) if y == x => *n += 1,
			_ => out.push((1, *x)),
		}
	}
	Value::Array(out.into_iter().map(|(n, x)| json!([n, x])).collect())
}

pub fn run_bytes(v: &Value) -> Bytes {
	payload(v, true)
}

pub fn jruns(b: &[u8]) -> Value {
	jpayload(b, true)
}

fn word(v: &Value) -> Uint {
	Uint::from_big_endian(&bytes(v))
}

pub fn tok(v: &Value, runs: bool) -> Token {
	let ts = || list(&v["ts"], |t| tok(t, runs));
	match v["k"].as_str().expect("kind") {
		"address" => Token::Address(Address::from_slice(&bytes(&v["w"]))),
		"int" => Token::Int(word(&v["w"])),
		"uint" => Token::Uint(word(&v["w"])),
		"bool" => Token::Bool(v["v"].as_bool().expect("bool")),
		"bytes" => Token::Bytes(payload(&v["b"], runs)),
		"fbytes" => Token::FixedBytes(payload(&v["b"], runs)),
		"string" => Token::String(String::from_utf8(payload(&v["b"], runs)).expect("string value")),
		"array" => Token::Array(ts()),
		"farray" => Token::FixedArray(ts()),
		"tuple" => Token::Tuple(ts()),
		k => panic!("unknown kind {}", k),
	}
}

pub fn toks(v: &Value) -> Vec<Token> {
	list(v, |t| tok(t, false))
}

pub fn run_toks(v: &Value) -> Vec<Token> {
	list(v, |t| tok(t, true))
}

fn jword(u: &Uint) -> Value {
	let mut w = [0u8; 32];
	u.to_big_endian(&mut w);
	jbytes(&w)
}

fn jtok_with(t: &Token, runs: bool) -> Value {
	let ts = |ts: &[Token]| Value::Array(ts.iter().map(|t| jtok_with(t, runs)).collect());
	match t {
		Token::Address(a) => json!({"k": "address", "w": jbytes(a.as_bytes())}),
		Token::Int(u) => json!({"k": "int", "w": jword(u)}),
		Token::Uint(u) => json!({"k": "uint", "w": jword(u)}),
		Token::Bool(b) => json!({"k": "bool", "v": b}),
		Token::Bytes(b) => json!({"k": "bytes", "b": jpayload(b, runs)}),
		Token::FixedBytes(b) => json!({"k": "fbytes", "b": jpayload(b, runs)}),
		Token::String(s) => json!({"k": "string", "b": jpayload(s.as_bytes(), runs)}),
		Token::Array(x) => json!({"k": "array", "ts": ts(x)}),
		Token::FixedArray(x) => json!({"k": "farray", "ts": ts(x)}),
		Token::Tuple(x) => json!({"k": "tuple", "ts": ts(x)}),
	}
}

pub fn jtok(t: &Token) -> Value {
	jtok_with(t, false)
}

pub fn jtoks(ts: &[Token]) -> Value {
	Value::Array(ts.iter().map(jtok).collect())
}

pub fn jrun_toks(ts: &[Token]) -> Value {
	Value::Array(ts.iter().map(|t| jtok_with(t, true)).collect())
}

pub fn hash(v: &Value) -> Hash {
	Hash::from_slice(&bytes(v))
}

pub fn params(types: &Value) -> Vec<Param> {
	ptypes(types)
		.into_iter()
		.enumerate()
		.map(|(i, kind)| Param { name: format!("p{}", i), kind, internal_type: None })
		.collect()
}

pub fn function(name: &Value, ins: &Value, outs: &Value) -> Function {
	#[allow(deprecated)]
	Function {
		name: text(name),
		inputs: params(ins),
		outputs: params(outs),
		constant: false,
		state_mutability: StateMutability::NonPayable,
	}
}

pub fn event(v: &Value) -> Event {
	Event {
		name: text(&v["name"]),
		inputs: list(&v["inputs"], |p| EventParam {
			name: text(&p["name"]),
			kind: ptype(&p["kind"]),
			indexed: p["indexed"].as_bool().expect("indexed"),
		}),
		anonymous: v["anonymous"].as_bool().expect("anonymous"),
	}
}

pub fn jparam(p: &Param) -> Value {
	json!({"name": jtext(&p.name), "kind": jtype(&p.kind), "internal": p.internal_type.iter().map(|s| jtext(s)).collect::<Vec<_>>()})
}

pub fn jevent_param(p: &EventParam) -> Value {
	json!({"name": jtext(&p.name), "kind": jtype(&p.kind), "indexed": p.indexed})
}

pub fn jfunction(f: &Function) -> Value {
	#[allow(deprecated)]
	let constant = f.constant;
	let mutability = match f.state_mutability {
		StateMutability::Pure => "pure",
		StateMutability::View => "view",
		StateMutability::NonPayable => "nonpayable",
		StateMutability::Payable => "payable",
	};
	json!({
		"name": jtext(&f.name),
		"inputs": f.inputs.iter().map(jparam).collect::<Vec<_>>(),
		"outputs": f.outputs.iter().map(jparam).collect::<Vec<_>>(),
		"constant": constant,
		"mutability": jtext(mutability),
	})
}

pub fn jevent(e: &Event) -> Value {
	json!({
		"name": jtext(&e.name),
		"inputs": e.inputs.iter().map(jevent_param).collect::<Vec<_>>(),
		"anonymous": e.anonymous,
	})
}

pub fn request(v: &Value) -> Topic<Token> {
	match v["k"].as_str().expect("request") {
		"any" => Topic::Any,
		"this" => Topic::This(tok(&v["v"], false)),
		_ => Topic::OneOf(toks(&v["vs"])),
	}
}

pub fn requests(v: &Value) -> RawTopicFilter {
	RawTopicFilter { topic0: request(&v[0]), topic1: request(&v[1]), topic2: request(&v[2]) }
}

pub fn jtopic(t: &Topic<Hash>) -> Value {
	match t {
		Topic::Any => json!({"k": "any"}),
		Topic::This(h) => json!({"k": "this", "v": jbytes(h.as_bytes())}),
		Topic::OneOf(hs) => json!({"k": "oneof", "vs": hs.iter().map(|h| jbytes(h.as_bytes())).collect::<Vec<_>>()}),
	}
}
