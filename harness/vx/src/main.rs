//! Executes events (one JSON object per line: id, op, args) on the real library and records the replies.
//!
//!   vx exec IN OUT        events in order
//!   vx replay VECTORS     vectors with expected replies (any of `want`), from the specification
//!
//! A panic is a reply; an abort or a hang ends the process (the driver records it and restarts).
mod meter;
mod ops;
mod tree;
mod value;

use serde_json::{json, Value};
use std::{
	fs::File,
	io::{BufRead, BufReader, Write},
	sync::{
		atomic::{AtomicU64, Ordering},
		Arc, Barrier, Mutex,
	},
	time::{Duration, Instant},
};

#[global_allocator]
static METER: meter::Meter = meter::Meter;

static STARTED: AtomicU64 = AtomicU64::new(0);

const LIMIT: Duration = Duration::from_secs(20);

fn watchdog(t0: Instant) {
	std::thread::spawn(move || loop {
		std::thread::sleep(Duration::from_millis(200));
		let s = STARTED.load(Ordering::SeqCst);
		if s != 0 && t0.elapsed().as_millis() as u64 > s + LIMIT.as_millis() as u64 {
			eprintln!("TIMEOUT");
			std::process::exit(124);
		}
	});
}

fn event(w: &ops::World, mut e: Value) -> Value {
	let op = e["op"].as_str().expect("op").to_owned();
	let res = ops::reply(|| ops::run(w, &op, &e["args"]));
	e["res"] = res;
	e
}

/// Many threads, each with its own list of events, against the same interfaces.
fn parallel(w: &Arc<ops::World>, e: &Value) -> Vec<Value> {
	let lanes: Vec<Vec<Value>> =
		e["args"]["lanes"].as_array().unwrap().iter().map(|l| l.as_array().unwrap().clone()).collect();
	let rounds = e["args"]["rounds"].as_u64().unwrap();
	let out = Arc::new(Mutex::new(vec![]));
	let gate = Arc::new(Barrier::new(lanes.len()));
	let hs: Vec<_> = lanes
		.into_iter()
		.map(|lane| {
			let (w, out, gate) = (w.clone(), out.clone(), gate.clone());
			std::thread::Builder::new()
				.stack_size(8 << 20)
				.spawn(move || {
					gate.wait();
					let mut first: Vec<Value> = vec![];
					for round in 0..rounds {
						for (i, x) in lane.iter().enumerate() {
							let y = event(&w, x.clone());
							if round == 0 {
								out.lock().unwrap().push(y.clone());
								first.push(y);
							} else if first[i]["res"] != y["res"] {
								out.lock().unwrap().push(y);
							}
						}
					}
				})
				.unwrap()
		})
		.collect();
	for h in hs {
		h.join().unwrap();
	}
	Arc::try_unwrap(out).unwrap().into_inner().unwrap()
}

/// The same events over and over on this thread: the first replies, and the first replies that differ from them.
fn repeat(w: &ops::World, e: &Value, t0: Instant) -> Vec<Value> {
	let events = e["args"]["events"].as_array().unwrap();
	let mut out: Vec<Value> = vec![];
	let mut odd = 0;
	for round in 0..e["args"]["times"].as_u64().unwrap() {
		STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
		for (i, x) in events.iter().enumerate() {
			let y = event(w, x.clone());
			if round == 0 {
				out.push(y);
			} else if odd < 8 && out[i]["res"] != y["res"] {
				odd += 1;
				out.push(y);
			}
		}
	}
	out
}

fn exec(input: &str, output: &str) {
	let t0 = Instant::now();
	watchdog(t0);
	let w = Arc::new(ops::World::default());
	let mut out = std::fs::OpenOptions::new().create(true).append(true).open(output).expect("output");
	for line in BufReader::new(File::open(input).expect("input")).lines() {
		let line = line.expect("line");
		let e: Value = serde_json::from_str(&line).expect("event");
		STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
		let mut buf = String::new();
		if e["op"] == "par" || e["op"] == "repeat" {
			let got = if e["op"] == "par" { parallel(&w, &e) } else { repeat(&w, &e, t0) };
			STARTED.store(0, Ordering::SeqCst);
			let n = got.len();
			for (i, mut x) in got.into_iter().enumerate() {
				x["id"] = e["id"].clone();
				if !e["g"].is_null() {
					x["g"] = e["g"].clone();
				}
				x["last"] = json!(i + 1 == n);
				buf.push_str(&x.to_string());
				buf.push('\n');
			}
		} else {
			let mut x = event(&w, e);
			STARTED.store(0, Ordering::SeqCst);
			x["last"] = json!(true);
			buf.push_str(&x.to_string());
			buf.push('\n');
		}
		out.write_all(buf.as_bytes()).expect("write");
	}
}

fn replay(input: &str, output: &str) {
	let t0 = Instant::now();
	watchdog(t0);
	let w = ops::World::default();
	let mut out = File::create(output).expect("output");
	let mut n = 0u64;
	for line in BufReader::new(File::open(input).expect("input")).lines() {
		let v: Value = serde_json::from_str(&line.expect("line")).expect("vector");
		STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
		// a vector that kills the process is the one after the last recorded count
		let r = event(&w, json!({"op": v["op"], "args": v["args"]}));
		STARTED.store(0, Ordering::SeqCst);
		if !v["want"].as_array().expect("want").iter().any(|x| *x == r["res"]) {
			writeln!(out, "{}", json!({"op": v["op"], "args": v["args"], "want": v["want"], "res": r["res"]})).unwrap();
		}
		n += 1;
	}
	writeln!(out, "{}", json!({"done": n})).unwrap();
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	std::panic::set_hook(Box::new(|_| {}));
	let body = move || match args[1].as_str() {
		"exec" => exec(&args[2], &args[3]),
		"replay" => replay(&args[2], &args[3]),
		m => panic!("unknown mode {}", m),
	};
	// the stack of an ordinary main thread, whatever the limits of this shell
	std::thread::Builder::new().stack_size(8 << 20).spawn(body).unwrap().join().unwrap_or_else(|_| std::process::exit(3));
}
