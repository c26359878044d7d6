//! The operations of the library, one event each: arguments in, reply out.
use crate::{meter, tree, value::*};
use ethabi::{
	decode, encode,
	param_type::{ParamType, Reader, Writer},
	token::{LenientTokenizer, StrictTokenizer, Tokenizer},
	Constructor, Contract, Event, Function, Hash, RawLog, Token, Topic,
};
use serde_json::{json, Value};
use std::{
	collections::HashMap,
	panic::{catch_unwind, AssertUnwindSafe},
	sync::{Arc, Mutex},
};

pub type Res = Result<Value, ()>;

fn lift<T, E>(r: Result<T, E>) -> Result<T, ()> {
	r.map_err(|_| ())
}

pub fn reply(f: impl FnOnce() -> Res) -> Value {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(Ok(v)) => json!({"s": "ok", "v": v}),
		Ok(Err(())) => json!({"s": "err"}),
		Err(_) => json!({"s": "panic"}),
	}
}

fn inner(r: Res) -> Value {
	match r {
		Ok(v) => json!({"s": "ok", "v": v}),
		Err(()) => json!({"s": "err"}),
	}
}

#[derive(Default)]
pub struct World {
	pub ifaces: Mutex<HashMap<u64, Arc<Contract>>>,
}

fn tokenize(mode: &Value, t: &ParamType, s: &str) -> Result<Token, ()> {
	match mode.as_str().unwrap() {
		"strict" => lift(StrictTokenizer::tokenize(t, s)),
		_ => lift(LenientTokenizer::tokenize(t, s)),
	}
}

pub fn load(doc: &Value, style: u64, via: &str) -> Result<Contract, ()> {
	load_bytes(tree::render(doc, style).as_bytes(), via)
}

fn load_bytes(s: &[u8], via: &str) -> Result<Contract, ()> {
	match via {
		"str" => lift(serde_json::from_slice(s)),
		"slow" => lift(Contract::load(Slow(s))),
		_ => lift(Contract::load(s)),
	}
}

/// The text of a document with bytes around it and its last bytes left out.
fn load_text(a: &Value) -> Result<Contract, ()> {
	let doc = tree::render(&a["doc"], a["style"].as_u64().unwrap());
	let doc = doc.trim();
	let cut = a["cut"].as_u64().unwrap() as usize;
	let text = [&bytes(&a["pre"]), &doc.as_bytes()[..doc.len().saturating_sub(cut)], &bytes(&a["post"])].concat();
	load_bytes(&text, a["via"].as_str().unwrap())
}

/// A reader that returns one byte at a time.
struct Slow<'a>(&'a [u8]);
impl std::io::Read for Slow<'_> {
	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
		if self.0.is_empty() || buf.is_empty() {
			return Ok(0);
		}
		buf[0] = self.0[0];
		self.0 = &self.0[1..];
		Ok(1)
	}
}

pub fn dump(c: &Contract) -> Value {
	// grouped by name; the order of groups is not observable
	let mut fns: Vec<&Function> = vec![];
	let mut names: Vec<&String> = c.functions.keys().collect();
	names.sort();
	for n in names {
		fns.extend(c.functions[n].iter());
	}
	let mut evs: Vec<&Event> = vec![];
	let mut names: Vec<&String> = c.events.keys().collect();
	names.sort();
	for n in names {
		evs.extend(c.events[n].iter());
	}
	json!({
		"ctor": c.constructor().iter().map(|k| json!({"inputs": k.inputs.iter().map(jparam).collect::<Vec<_>>()})).collect::<Vec<_>>(),
		"fns": fns.into_iter().map(jfunction).collect::<Vec<_>>(),
		"evs": evs.into_iter().map(jevent).collect::<Vec<_>>(),
		"fallback": c.fallback,
		"receive": c.receive,
	})
}

fn lookup(c: &Contract, name: &str) -> Value {
	json!({
		"fn": inner(lift(c.function(name)).map(jfunction)),
		"fns": inner(lift(c.functions_by_name(name)).map(|l| Value::Array(l.iter().map(jfunction).collect()))),
		"ev": inner(lift(c.event(name)).map(jevent)),
		"evs": inner(lift(c.events_by_name(name)).map(|l| Value::Array(l.iter().map(jevent).collect()))),
	})
}

fn iterated(c: &Contract) -> Value {
	let mut f: Vec<String> = c.functions().map(|f| jfunction(f).to_string()).collect();
	let mut g: Vec<String> = c.functions.values().flatten().map(|f| jfunction(f).to_string()).collect();
	f.sort();
	g.sort();
	let mut e: Vec<String> = c.events().map(|f| jevent(f).to_string()).collect();
	let mut h: Vec<String> = c.events.values().flatten().map(|f| jevent(f).to_string()).collect();
	e.sort();
	h.sort();
	json!(f == g && e == h)
}

fn raw_log(a: &Value) -> RawLog {
	let topics: Vec<Hash> = a["topics"].as_array().unwrap().iter().map(hash).collect();
	(topics, bytes(&a["data"])).into()
}

fn parse_log(ev: &Event, a: &Value) -> Res {
	let log = lift(ev.parse_log(raw_log(a)))?;
	Ok(Value::Array(
		log.params.iter().map(|p| json!({"name": jtext(&p.name), "value": jtok(&p.value)})).collect(),
	))
}

fn filter(ev: &Event, reqs: &Value) -> Res {
	let f = lift(ev.filter(requests(reqs)))?;
	let text = serde_json::to_string(&f).map_err(|_| ())?;
	let json = tree::parse(&text).ok_or(())?;
	Ok(json!({"topics": [jtopic(&f.topic0), jtopic(&f.topic1), jtopic(&f.topic2), jtopic(&f.topic3)], "json": json}))
}

fn serialized(c: &Contract) -> Res {
	let text = serde_json::to_string(c).map_err(|_| ())?;
	let pretty = serde_json::to_string_pretty(c).map_err(|_| ())?;
	let doc = tree::parse(&text).ok_or(())?;
	let same = tree::parse(&pretty).ok_or(())? == doc;
	let again: Contract = lift(serde_json::from_str(&text))?;
	Ok(json!({"doc": doc, "pretty": same, "equal": &again == c, "again": dump(&again)}))
}

fn topic_conversion(a: &Value) -> Value {
	let ws: Vec<u64> = a["xs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
	let make = || -> Topic<u64> { match a["from"].as_str().unwrap() {
		"default" => Topic::default(),
		"none" => Option::<u64>::None.into(),
		"some" => Some(ws[0]).into(),
		"one" => ws[0].into(),
		_ => ws.clone().into(),
	} };
	let t = make();
	let mapped = make().map(|x| x + 7);
	let show = |t: &Topic<u64>| match t {
		Topic::Any => json!({"k": "any"}),
		Topic::This(x) => json!({"k": "this", "v": x}),
		Topic::OneOf(xs) => json!({"k": "oneof", "vs": xs}),
	};
	let items: Vec<u64> = (0..if t.is_any() { 0 } else { ws.len() }).map(|i| t[i]).collect();
	let v: Vec<u64> = make().into();
	json!({"topic": show(&t), "mapped": show(&mapped), "any": t.is_any(), "vec": v, "items": items})
}

fn unwrapped(t: &Token) -> Value {
	let mut out = vec![];
	let mut put = |k: &str, v: Option<Value>| {
		if let Some(v) = v {
			out.push(json!([k, v]));
		}
	};
	let w = |u: ethabi::Uint| {
		let mut b = [0u8; 32];
		u.to_big_endian(&mut b);
		jbytes(&b)
	};
	put("address", t.clone().into_address().map(|a| jbytes(a.as_bytes())));
	put("fbytes", t.clone().into_fixed_bytes().map(|b| jbytes(&b)));
	put("bytes", t.clone().into_bytes().map(|b| jbytes(&b)));
	put("int", t.clone().into_int().map(w));
	put("uint", t.clone().into_uint().map(w));
	put("bool", t.clone().into_bool().map(Value::from));
	put("string", t.clone().into_string().map(|s| jbytes(s.as_bytes())));
	put("farray", t.clone().into_fixed_array().map(|x| jtoks(&x)));
	put("array", t.clone().into_array().map(|x| jtoks(&x)));
	Value::Array(out)
}

fn named<'a>(c: &'a Contract, a: &Value) -> Result<&'a Function, ()> {
	let l = lift(c.functions_by_name(&text(&a["name"])))?;
	l.get(a["ix"].as_u64().unwrap() as usize - 1).ok_or(())
}

fn named_event<'a>(c: &'a Contract, a: &Value) -> Result<&'a Event, ()> {
	let l = lift(c.events_by_name(&text(&a["name"])))?;
	l.get(a["ix"].as_u64().unwrap() as usize - 1).ok_or(())
}

fn handle(w: &World, a: &Value) -> Arc<Contract> {
	w.ifaces.lock().unwrap()[&a["h"].as_u64().unwrap()].clone()
}

pub fn run(w: &World, op: &str, a: &Value) -> Res {
	match op {
		"encode" => Ok(jbytes(&encode(&toks(&a["toks"])))),
		"decode" => {
			let data = bytes(&a["data"]);
			let r = match a["via"].as_str().unwrap() {
				"plain" => decode(&ptypes(&a["types"]), &data),
				"fn_in" => function(&json!([102]), &a["types"], &json!([])).decode_input(&data),
				_ => function(&json!([102]), &json!([]), &a["types"]).decode_output(&data),
			};
			lift(r).map(|t| jtoks(&t))
		}
		"rt" => {
			let types = ptypes(&a["types"]);
			let ts = toks(&a["toks"]);
			let enc = encode(&ts);
			let dec = lift(decode(&types, &enc))?;
			let mut longer = enc.clone();
			longer.extend(bytes(&a["tail"]));
			let dect = lift(decode(&types, &longer))?;
			let f = function(&json!([102]), &a["types"], &a["types"]);
			let call = lift(f.encode_input(&ts))?;
			let fin = lift(f.decode_input(&call[4..]))?;
			let fout = lift(f.decode_output(&enc))?;
			let args = [&call[4..], &bytes(&a["tail"])].concat();
			let fint = lift(f.decode_input(&args))?;
			let foutt = lift(f.decode_output(&longer))?;
			Ok(json!({
				"dec": jtoks(&dec), "tail": jtoks(&dect), "again": encode(&dec) == enc,
				"fin": jtoks(&fin), "fout": jtoks(&fout), "fint": jtoks(&fint), "foutt": jtoks(&foutt),
			}))
		}
		"check" => {
			let ts = toks(&a["toks"]);
			let types = ptypes(&a["types"]);
			let each: Vec<bool> = ts.iter().zip(types.iter()).map(|(v, t)| v.type_check(t)).collect();
			Ok(json!({"all": Token::types_check(&ts, &types), "each": each}))
		}
		"call" => {
			let f = function(&a["name"], &a["types"], &a["outs"]);
			lift(f.encode_input(&toks(&a["toks"]))).map(|b| jbytes(&b))
		}
		"create" => {
			let c = Constructor { inputs: params(&a["types"]) };
			lift(c.encode_input(bytes(&a["code"]), &toks(&a["toks"]))).map(|b| jbytes(&b))
		}
		"fnsig" => Ok(jtext(&function(&a["name"], &a["ins"], &a["outs"]).signature())),
		"evsig" => Ok(jbytes(event(&a["ev"]).signature().as_bytes())),
		"read" => {
			let s = text(&a["text"]);
			let r: Result<ParamType, ()> = match a["via"].as_str().unwrap() {
				"json" => lift(serde_json::from_str(&serde_json::to_string(&s).unwrap())),
				_ => lift(Reader::read(&s)),
			};
			r.map(|t| jtype(&t))
		}
		"write" => {
			let t = ptype(&a["type"]);
			let full = Writer::write(&t);
			let back = inner(lift(Reader::read(&full)).map(|t| jtype(&t)));
			Ok(json!({
				"full": jtext(&full), "disp": jtext(&t.to_string()),
				"abi": jtext(&Writer::write_for_abi(&t, false)), "abifull": jtext(&Writer::write_for_abi(&t, true)),
				"back": back, "dyn": t.is_dynamic(),
			}))
		}
		"tok" | "tokmixed" => tokenize(&a["mode"], &ptype(&a["type"]), &text(&a["text"])).map(|t| jtok(&t)),
		// one text as a value of several types
		"tokall" => Ok(a["cases"]
			.as_array()
			.unwrap()
			.iter()
			.map(|c| inner(tokenize(&c["mode"], &ptype(&c["type"]), &text(&a["text"])).map(|t| jtok(&t))))
			.collect()),
		"show" => {
			let t = tok(&a["tok"], false);
			Ok(json!({"text": jbytes(t.to_string().as_bytes()), "dyn": t.is_dynamic(), "into": unwrapped(&t)}))
		}
		"retok" => {
			let t = tok(&a["tok"], false);
			tokenize(&a["mode"], &ptype(&a["type"]), &t.to_string()).map(|t| jtok(&t))
		}
		"load" => {
			let c = load(&a["doc"], a["style"].as_u64().unwrap(), a["via"].as_str().unwrap())?;
			let names: Vec<Value> = a["names"].as_array().unwrap().iter().map(|n| lookup(&c, &text(n))).collect();
			Ok(json!({"iface": dump(&c), "lookup": names, "iter": iterated(&c)}))
		}
		"loadtext" => load_text(a).map(|c| dump(&c)),
		"ser" => {
			let c = load(&a["doc"], a["style"].as_u64().unwrap(), "reader")?;
			serialized(&c)
		}
		"plog" => parse_log(&event(&a["ev"]), a),
		"filter" => filter(&event(&a["ev"]), &a["reqs"]),
		"topic" => Ok(topic_conversion(a)),
		"bigenc" => Ok(jruns(&encode(&run_toks(&a["toks"])))),
		"bigdec" => lift(decode(&ptypes(&a["types"]), &run_bytes(&a["data"]))).map(|t| jrun_toks(&t)),
		"bigrt" => {
			let enc = encode(&run_toks(&a["toks"]));
			lift(decode(&ptypes(&a["types"]), &enc)).map(|t| jrun_toks(&t))
		}
		"cost" => {
			let types = ptypes(&a["types"]);
			let data = if a["runs"].as_bool().unwrap() { run_bytes(&a["data"]) } else { bytes(&a["data"]) };
			let ev = Event {
				name: "e".into(),
				inputs: types
					.iter()
					.map(|k| ethabi::EventParam { name: "p".into(), kind: k.clone(), indexed: false })
					.collect(),
				anonymous: true,
			};
			let f = function(&json!([102]), &a["types"], &a["types"]);
			let (out, peak, total, cpu) = meter::measure(|| match a["via"].as_str().unwrap() {
				"plain" => lift(decode(&types, &data)),
				"fn_in" => lift(f.decode_input(&data)),
				"fn_out" => lift(f.decode_output(&data)),
				_ => lift(ev.parse_log((vec![], data.clone()).into()))
					.map(|l| l.params.into_iter().map(|p| p.value).collect()),
			});
			// values are counted, not listed: C03 decides what they are
			Ok(json!({"ok": out.is_ok(), "nodes": out.map(|t| count(&t)).unwrap_or(0), "kb": peak / 1024, "tot": total / 1024, "ms": cpu / 1_000_000}))
		}
		"s_load" => {
			let c = load(&a["doc"], a["style"].as_u64().unwrap(), "reader")?;
			let d = dump(&c);
			w.ifaces.lock().unwrap().insert(a["h"].as_u64().unwrap(), Arc::new(c));
			Ok(d)
		}
		"s_clone" => {
			let c: Contract = (*handle(w, a)).clone();
			let d = dump(&c);
			w.ifaces.lock().unwrap().insert(a["g"].as_u64().unwrap(), Arc::new(c));
			Ok(d)
		}
		"s_drop" => {
			w.ifaces.lock().unwrap().remove(&a["h"].as_u64().unwrap());
			Ok(json!(0))
		}
		"s_same" => {
			let c = handle(w, a);
			let d = handle(w, &json!({"h": a["g"]}));
			Ok(json!(c == d))
		}
		"s_dump" => Ok(dump(&handle(w, a))),
		"s_look" => Ok(lookup(&handle(w, a), &text(&a["name"]))),
		"s_ser" => serialized(&handle(w, a)),
		"s_call" => lift(named(&handle(w, a), a)?.encode_input(&toks(&a["toks"]))).map(|b| jbytes(&b)),
		"s_in" => lift(named(&handle(w, a), a)?.decode_input(&bytes(&a["data"]))).map(|t| jtoks(&t)),
		"s_out" => lift(named(&handle(w, a), a)?.decode_output(&bytes(&a["data"]))).map(|t| jtoks(&t)),
		"s_sig" => Ok(jtext(&named(&handle(w, a), a)?.signature())),
		"s_ctor" => {
			let c = handle(w, a);
			let k = c.constructor().ok_or(())?;
			lift(k.encode_input(bytes(&a["code"]), &toks(&a["toks"]))).map(|b| jbytes(&b))
		}
		"s_evsig" => Ok(jbytes(named_event(&handle(w, a), a)?.signature().as_bytes())),
		"s_filter" => filter(named_event(&handle(w, a), a)?, &a["reqs"]),
		"s_plog" => parse_log(named_event(&handle(w, a), a)?, a),
		_ => panic!("unknown op {}", op),
	}
}

fn count(ts: &[Token]) -> u64 {
	ts.iter()
		.map(|t| match t {
			Token::Array(x) | Token::FixedArray(x) | Token::Tuple(x) => 1 + count(x),
			_ => 1,
		})
		.sum()
}
