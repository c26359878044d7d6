//! JSON documents as trees that keep key order and repeated keys, their text and back.
use crate::value::{jtext, text};
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde_json::{json, Value};
use std::fmt;

/// Text of a document. Styles: 0 compact, 1 spaced, 2 compact with every string char escaped.
pub fn render(doc: &Value, style: u64) -> String {
	let mut out = String::new();
	put(doc, style, 0, &mut out);
	if style == 1 {
		out.push('\n');
	}
	out
}

fn space(style: u64, depth: usize, out: &mut String) {
	if style == 1 {
		out.push('\n');
		for _ in 0..depth {
			out.push('\t');
		}
	}
}

fn put_str(s: &str, style: u64, out: &mut String) {
	if style == 2 {
		out.push('"');
		let mut buf = [0u16; 2];
		for c in s.chars() {
			for u in c.encode_utf16(&mut buf) {
				out.push_str(&format!("\\u{:04x}", u));
			}
		}
		out.push('"');
	} else {
		out.push_str(&serde_json::to_string(s).unwrap());
	}
}

fn put(doc: &Value, style: u64, depth: usize, out: &mut String) {
	match doc["j"].as_str().expect("tree") {
		"null" => out.push_str("null"),
		"bool" => out.push_str(if doc["b"].as_bool().unwrap() { "true" } else { "false" }),
		"num" => out.push_str(&text(&doc["n"])),
		"str" => put_str(&text(&doc["t"]), style, out),
		"raw" => out.push_str(&text(&doc["t"])),
		"arr" => {
			out.push('[');
			for (i, x) in doc["a"].as_array().unwrap().iter().enumerate() {
				if i > 0 {
					out.push(',');
				}
				space(style, depth + 1, out);
				put(x, style, depth + 1, out);
			}
			space(style, depth, out);
			out.push(']');
		}
		"obj" => {
			out.push('{');
			for (i, e) in doc["o"].as_array().unwrap().iter().enumerate() {
				if i > 0 {
					out.push(',');
				}
				space(style, depth + 1, out);
				put_str(&text(&e[0]), style, out);
				out.push_str(if style == 1 { " : " } else { ":" });
				put(&e[1], style, depth + 1, out);
			}
			space(style, depth, out);
			out.push('}');
		}
		j => panic!("unknown tree {}", j),
	}
}

struct Tree(Value);

impl<'de> Deserialize<'de> for Tree {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		d.deserialize_any(V)
	}
}

struct V;

impl<'de> Visitor<'de> for V {
	type Value = Tree;
	fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str("json")
	}
	fn visit_unit<E>(self) -> Result<Tree, E> {
		Ok(Tree(json!({"j": "null"})))
	}
	fn visit_bool<E>(self, b: bool) -> Result<Tree, E> {
		Ok(Tree(json!({"j": "bool", "b": b})))
	}
	fn visit_u64<E>(self, n: u64) -> Result<Tree, E> {
		Ok(Tree(json!({"j": "num", "n": jtext(&n.to_string())})))
	}
	fn visit_i64<E>(self, n: i64) -> Result<Tree, E> {
		Ok(Tree(json!({"j": "num", "n": jtext(&n.to_string())})))
	}
	fn visit_f64<E>(self, n: f64) -> Result<Tree, E> {
		Ok(Tree(json!({"j": "num", "n": jtext(&n.to_string())})))
	}
	fn visit_str<E>(self, s: &str) -> Result<Tree, E> {
		Ok(Tree(json!({"j": "str", "t": jtext(s)})))
	}
	fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
		let mut out = vec![];
		while let Some(Tree(x)) = a.next_element()? {
			out.push(x);
		}
		Ok(Tree(json!({"j": "arr", "a": out})))
	}
	fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
		let mut out = vec![];
		while let Some(k) = a.next_key::<String>()? {
			let Tree(x) = a.next_value()?;
			out.push(json!([jtext(&k), x]));
		}
		Ok(Tree(json!({"j": "obj", "o": out})))
	}
}

pub fn parse(s: &str) -> Option<Value> {
	serde_json::from_str::<Tree>(s).ok().map(|t| t.0)
}
