From a9113398011753500db82e89fd15686b0f988f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 01/16] fix: return an error instead of panicking on an out of
 range fixed array offset

---
 ethabi/src/decoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 825ec25..a4c2aa8 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -161,8 +161,15 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 		ParamType::FixedArray(ref t, len) => {
 			let is_dynamic = param.is_dynamic();
 
-			let (tail, mut new_offset) =
-				if is_dynamic { (&data[as_usize(&peek_32_bytes(data, offset)?)?..], 0) } else { (data, offset) };
+			let (tail, mut new_offset) = if is_dynamic {
+				let offset = as_usize(&peek_32_bytes(data, offset)?)?;
+				if offset > data.len() {
+					return Err(Error::InvalidData);
+				}
+				(&data[offset..], 0)
+			} else {
+				(data, offset)
+			};
 
 			let mut tokens = vec![];
 
-- 
2.43.0


From 09f13f74110dfd94bc0064912a1afb4c6e6f16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 02/16] fix: a tuple token type checks only against a tuple of
 the same length

---
 ethabi/src/token/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 1df997c..6c05fe3 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -125,7 +125,7 @@ impl Token {
 			}
 			Token::Tuple(ref tokens) => {
 				if let ParamType::Tuple(ref param_type) = *param_type {
-					tokens.iter().enumerate().all(|(i, t)| t.type_check(&param_type[i]))
+					param_type.len() == tokens.len() && tokens.iter().zip(param_type).all(|(t, p)| t.type_check(p))
 				} else {
 					false
 				}
-- 
2.43.0


From 84a5dd91ccd699b2d00821efae779374ac6c7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 03/16] fix: an empty fixed bytes token does not type check
 against bytesN

---
 ethabi/src/token/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 6c05fe3..36bc0f4 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -104,7 +104,8 @@ impl Token {
 			Token::String(_) => *param_type == ParamType::String,
 			Token::FixedBytes(ref bytes) => {
 				if let ParamType::FixedBytes(size) = *param_type {
-					size >= bytes.len()
+					// an empty token has no word of its own, it stands for bytes0 only
+					size >= bytes.len() && (size == 0 || !bytes.is_empty())
 				} else {
 					false
 				}
-- 
2.43.0


From 2e672bd189013b783c32ef8c28717a5bcd563fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 04/16] fix: reject a bool word that is neither 0 nor 1 instead
 of decoding it as false

---
 ethabi/src/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index a4c2aa8..53b6197 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -34,7 +34,11 @@ fn as_bool(slice: &Word) -> Result<bool, Error> {
 		return Err(Error::InvalidData);
 	}
 
-	Ok(slice[31] == 1)
+	match slice[31] {
+		0 => Ok(false),
+		1 => Ok(true),
+		_ => Err(Error::InvalidData),
+	}
 }
 
 /// Decodes ABI compliant vector of bytes into vector of tokens described by types param.
-- 
2.43.0


From ed3329a468996b939a4b4e2dafc228ec763e1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 05/16] fix: split array and tuple literals at byte positions,
 not char counts

---
 ethabi/src/token/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 6330a43..02d4999 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -59,7 +59,7 @@ pub trait Tokenizer {
 		let mut ignore = false;
 		let mut last_item = 1;
 		let mut params = param.iter();
-		for (pos, ch) in value.chars().enumerate() {
+		for (pos, ch) in value.char_indices() {
 			match ch {
 				'(' if !ignore => {
 					nested += 1;
@@ -114,7 +114,7 @@ pub trait Tokenizer {
 		let mut nested = 0isize;
 		let mut ignore = false;
 		let mut last_item = 1;
-		for (i, ch) in value.chars().enumerate() {
+		for (i, ch) in value.char_indices() {
 			match ch {
 				'[' if !ignore => {
 					nested += 1;
-- 
2.43.0


From 0dfc4558061cd249ac77ae295d79bd20cae2dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 06/16] fix: reject unbalanced array literals and tuple
 literals of the wrong length

---
 ethabi/src/token/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 02d4999..31bd19b 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -50,7 +50,7 @@ pub trait Tokenizer {
 			return Err(Error::InvalidData);
 		}
 
-		if value.chars().count() == 2 {
+		if value.chars().count() == 2 && param.is_empty() {
 			return Ok(vec![]);
 		}
 
@@ -71,6 +71,9 @@ pub trait Tokenizer {
 						Less => {
 							return Err(Error::InvalidData);
 						}
+						Equal if pos + 1 != value.len() => {
+							return Err(Error::InvalidData);
+						}
 						Equal => {
 							let sub = &value[last_item..pos];
 							let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
@@ -93,7 +96,7 @@ pub trait Tokenizer {
 			}
 		}
 
-		if ignore {
+		if ignore || nested != 0 || result.len() != param.len() {
 			return Err(Error::InvalidData);
 		}
 
@@ -125,6 +128,9 @@ pub trait Tokenizer {
 						Less => {
 							return Err(Error::InvalidData);
 						}
+						Equal if i + 1 != value.len() => {
+							return Err(Error::InvalidData);
+						}
 						Equal => {
 							let sub = &value[last_item..i];
 							let token = Self::tokenize(param, sub)?;
@@ -147,7 +153,7 @@ pub trait Tokenizer {
 			}
 		}
 
-		if ignore {
+		if ignore || nested != 0 {
 			return Err(Error::InvalidData);
 		}
 
-- 
2.43.0


From a8f8e38164a55191c7636d0e1bb5b8e8f322f8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 07/16] fix: reject decimal literals without digits or with
 more than one minus sign

---
 ethabi/src/token/lenient.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/lenient.rs b/ethabi/src/token/lenient.rs
index aa63e39..9ddf9b0 100644
--- a/ethabi/src/token/lenient.rs
+++ b/ethabi/src/token/lenient.rs
@@ -16,6 +16,14 @@ use anyhow::anyhow;
 /// Tries to parse string as a token. Does not require string to clearly represent the value.
 pub struct LenientTokenizer;
 
+// `Uint::from_dec_str` reads the empty string as zero.
+fn parse_decimal(value: &str) -> Result<Uint, Error> {
+	if value.is_empty() {
+		return Err(Error::InvalidData);
+	}
+	Ok(Uint::from_dec_str(value)?)
+}
+
 impl Tokenizer for LenientTokenizer {
 	fn tokenize_address(value: &str) -> Result<[u8; 20], Error> {
 		StrictTokenizer::tokenize_address(value)
@@ -43,7 +51,7 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let uint = Uint::from_dec_str(value)?;
+		let uint = parse_decimal(value)?;
 		Ok(uint.into())
 	}
 
@@ -56,7 +64,7 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let abs = Uint::from_dec_str(value.trim_start_matches('-'))?;
+		let abs = parse_decimal(value.strip_prefix('-').unwrap_or(value))?;
 		let max = Uint::max_value() / 2;
 		let int = if value.starts_with('-') {
 			if abs.is_zero() {
-- 
2.43.0


From 859833ee38a60cf984697494e2eae95773f3a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 08/16] fix: read nested tuple types at any depth and reject
 unbalanced ones

---
 ethabi/src/param_type/reader.rs | 89 ++++++---------------------------
 1 file changed, 15 insertions(+), 74 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 83e0267..b771bd7 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -22,24 +22,14 @@ impl Reader {
 				};
 
 				let mut subtypes = Vec::new();
-				let mut subtuples = Vec::new();
 				let mut nested = 0isize;
-				let mut top_level_paren_open = 0usize;
 				let mut last_item = 1;
-				let mut chars = name.chars().enumerate();
 
-				// Iterate over name and build the nested tuple structure
-				while let Some((mut pos, c)) = chars.next() {
+				// Split the name at the commas of the top level, nested tuples are read recursively
+				for (pos, c) in name.char_indices() {
 					match c {
 						'(' => {
-							top_level_paren_open = pos;
 							nested += 1;
-							// If an '(' is encountered within the tuple
-							// insert an empty subtuples vector to be filled
-							if nested > 1 {
-								subtuples.push(vec![]);
-								last_item = pos + 1;
-							}
 						}
 						')' => {
 							nested -= 1;
@@ -48,71 +38,22 @@ impl Reader {
 							if nested < 0 {
 								return Err(Error::InvalidName(name.to_owned()));
 							}
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							else if name[last_item..pos].is_empty() {
-								last_item = pos + 1;
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 0 {
-								// check for trailing brackets that indicate array of tuples
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							else if nested > 0 {
-								// this makes sure trailing brackets are included for the next step
-								loop {
-									match chars.clone().next() {
-										Some((_, ',')) | Some((_, ')')) | None => break,
-										_ => {
-											// consume the char and shift position
-											chars.next();
-											pos += 1;
-										}
-									}
-								}
-
-								// parse the nested tuple
-								let inner_tuple = &name[top_level_paren_open..=pos];
-								let subtype = Reader::read(inner_tuple)?;
-
-								if nested > 1 {
-									let mut subtuple = std::mem::take(&mut subtuples[(nested - 2) as usize]);
-									subtuple.push(subtype);
-									subtypes.push(ParamType::Tuple(subtuple));
-								} else {
-									subtypes.push(subtype);
-								}
-								last_item = pos + 1;
-							}
-						}
-						',' => {
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							if name[last_item..pos].is_empty() {
-								last_item = pos + 1
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							// insert it into the subtuple vector for the current depth level
-							else if nested > 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtuples[(nested - 2) as usize].push(subtype);
-								last_item = pos + 1;
-							}
 						}
 						_ => (),
 					}
+
+					if (c == ',' && nested == 1) || (c == ')' && nested == 0) {
+						// If there have not been any characters since the last item
+						// increment position without inserting any subtypes
+						if !name[last_item..pos].is_empty() {
+							subtypes.push(Reader::read(&name[last_item..pos])?);
+						}
+						last_item = pos + 1;
+					}
+				}
+
+				if nested != 0 {
+					return Err(Error::InvalidName(name.to_owned()));
 				}
 				return Ok(ParamType::Tuple(subtypes));
 			}
-- 
2.43.0


From 6558c833d51cba33370ab50fe20831cff799a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 09/16] fix: return an error instead of panicking on malformed
 array types

---
 ethabi/src/param_type/reader.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index b771bd7..2ae72aa 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -60,18 +60,17 @@ impl Reader {
 			// check if it is a fixed or dynamic array.
 			Some(']') => {
 				// take number part
-				let num: String =
-					name.chars().rev().skip(1).take_while(|c| *c != '[').collect::<String>().chars().rev().collect();
+				let open = name.rfind('[').ok_or_else(|| Error::InvalidName(name.to_owned()))?;
+				let num = &name[open + 1..name.len() - 1];
 
-				let count = name.chars().count();
 				return if num.is_empty() {
 					// we already know it's a dynamic array!
-					let subtype = Reader::read(&name[..count - 2])?;
+					let subtype = Reader::read(&name[..open])?;
 					Ok(ParamType::Array(Box::new(subtype)))
 				} else {
 					// it's a fixed array.
 					let len = num.parse()?;
-					let subtype = Reader::read(&name[..count - num.len() - 2])?;
+					let subtype = Reader::read(&name[..open])?;
 					Ok(ParamType::FixedArray(Box::new(subtype), len))
 				};
 			}
-- 
2.43.0


From 68c9178d347982533747758da6976eaaaad2c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:24 +0000
Subject: [PATCH 10/16] fix: parse logs of events with unnamed or equally named
 params

---
 ethabi/src/event.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index d725906..3121f07 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -10,7 +10,6 @@
 
 use serde::{Deserialize, Serialize};
 use sha3::{Digest, Keccak256};
-use std::collections::HashMap;
 
 use crate::{
 	decode, encode, signature::long_signature, Error, EventParam, Hash, Log, LogParam, ParamType, RawLog,
@@ -30,11 +29,6 @@ pub struct Event {
 }
 
 impl Event {
-	/// Returns names of all params.
-	fn params_names(&self) -> Vec<String> {
-		self.inputs.iter().map(|p| p.name.clone()).collect()
-	}
-
 	/// Returns types of all params.
 	fn param_types(&self) -> Vec<ParamType> {
 		self.inputs.iter().map(|p| p.kind.clone()).collect()
@@ -151,21 +145,22 @@ impl Event {
 			return Err(Error::InvalidData);
 		}
 
-		let topics_named_tokens = topic_params.into_iter().map(|p| p.name).zip(topic_tokens.into_iter());
-
 		let data_types = data_params.iter().map(|p| p.kind.clone()).collect::<Vec<ParamType>>();
 
 		let data_tokens = decode(&data_types, &data)?;
 
-		let data_named_tokens = data_params.into_iter().map(|p| p.name).zip(data_tokens.into_iter());
-
-		let named_tokens = topics_named_tokens.chain(data_named_tokens).collect::<HashMap<String, Token>>();
+		// params are matched by position, names may be missing or repeated
+		let mut topic_tokens = topic_tokens.into_iter();
+		let mut data_tokens = data_tokens.into_iter();
 
 		let decoded_params = self
-			.params_names()
-			.into_iter()
-			.map(|name| LogParam { name: name.clone(), value: named_tokens[&name].clone() })
-			.collect();
+			.inputs
+			.iter()
+			.map(|p| {
+				let token = if p.indexed { topic_tokens.next() } else { data_tokens.next() };
+				token.map(|value| LogParam { name: p.name.clone(), value }).ok_or(Error::InvalidData)
+			})
+			.collect::<Result<_>>()?;
 
 		let result = Log { params: decoded_params };
 
-- 
2.43.0


From ff95c67dc90b51c13cac6b5a26918a4f49884c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:24 +0000
Subject: [PATCH 11/16] fix: filter indexed bytes, strings, arrays and tuples
 by the topic solidity emits

---
 ethabi/src/event.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index 3121f07..6bbf60d 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -46,17 +46,35 @@ impl Event {
 
 	/// Creates topic filter
 	pub fn filter(&self, raw: RawTopicFilter) -> Result<TopicFilter> {
+		// In-place encoding that is hashed for indexed params which do not fit a topic:
+		// no offsets and no lengths, bytes and strings are padded only as elements of others.
+		// https://solidity.readthedocs.io/en/develop/abi-spec.html#encoding-of-indexed-event-parameters
+		fn encode_in_place(token: &Token, is_element: bool) -> Vec<u8> {
+			let mut result = match token {
+				Token::Bytes(bytes) => bytes.clone(),
+				Token::String(string) => string.as_bytes().to_vec(),
+				Token::Array(tokens) | Token::FixedArray(tokens) | Token::Tuple(tokens) => {
+					tokens.iter().flat_map(|t| encode_in_place(t, true)).collect()
+				}
+				_ => encode(&[token.clone()]),
+			};
+			if is_element {
+				result.resize((result.len() + 31) / 32 * 32, 0);
+			}
+			result
+		}
+
 		fn convert_token(token: Token, kind: &ParamType) -> Result<Hash> {
 			if !token.type_check(kind) {
 				return Err(Error::InvalidData);
 			}
-			let encoded = encode(&[token]);
-			if encoded.len() == 32 {
-				let mut data = [0u8; 32];
-				data.copy_from_slice(&encoded);
-				Ok(data.into())
-			} else {
-				Ok(Hash::from_slice(Keccak256::digest(&encoded).as_slice()))
+			let encoded = encode_in_place(&token, false);
+			match token {
+				Token::Bytes(_) | Token::String(_) | Token::Array(_) | Token::FixedArray(_) | Token::Tuple(_) => {
+					Ok(Hash::from_slice(Keccak256::digest(&encoded).as_slice()))
+				}
+				_ if encoded.len() == 32 => Ok(Hash::from_slice(&encoded)),
+				_ => Err(Error::InvalidData),
 			}
 		}
 
-- 
2.43.0


From fc0a569575a79d306a378cab41fe12cf0275baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:24 +0000
Subject: [PATCH 12/16] fix: skip the values of unknown keys when deserializing
 params

---
 ethabi/src/event_param.rs | 6 ++++--
 ethabi/src/param.rs       | 6 ++++--
 ethabi/src/tuple_param.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ethabi/src/event_param.rs b/ethabi/src/event_param.rs
index bf279fb..ae2f16d 100644
--- a/ethabi/src/event_param.rs
+++ b/ethabi/src/event_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType, TupleParam};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -81,7 +81,9 @@ impl<'a> Visitor<'a> for EventParamVisitor {
 					}
 					indexed = Some(map.next_value()?);
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/param.rs b/ethabi/src/param.rs
index a7ed4e5..9d4dff5 100644
--- a/ethabi/src/param.rs
+++ b/ethabi/src/param.rs
@@ -9,7 +9,7 @@
 //! Function param.
 
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	Deserialize, Deserializer, Serialize, Serializer,
 };
 use std::fmt;
@@ -82,7 +82,9 @@ impl<'a> Visitor<'a> for ParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 		let name = name.ok_or_else(|| Error::missing_field("name"))?;
diff --git a/ethabi/src/tuple_param.rs b/ethabi/src/tuple_param.rs
index 1fd72e7..5f8f716 100644
--- a/ethabi/src/tuple_param.rs
+++ b/ethabi/src/tuple_param.rs
@@ -10,7 +10,7 @@
 
 use crate::{param_type::Writer, ParamType};
 use serde::{
-	de::{Error, MapAccess, Visitor},
+	de::{Error, IgnoredAny, MapAccess, Visitor},
 	ser::SerializeMap,
 	Deserialize, Deserializer, Serialize, Serializer,
 };
@@ -83,7 +83,9 @@ impl<'a> Visitor<'a> for TupleParamVisitor {
 					let component: Vec<TupleParam> = map.next_value()?;
 					components = Some(component)
 				}
-				_ => {}
+				_ => {
+					map.next_value::<IgnoredAny>()?;
+				}
 			}
 		}
 
-- 
2.43.0


From bfaf18034712596734fd7c262779a1a296eb6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:24 +0000
Subject: [PATCH 13/16] fix: refuse surplus params in encode function instead
 of ignoring them

---
 cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index db84036..38614d6 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -172,6 +172,10 @@ fn parse_tokens(params: &[(ParamType, &str)], lenient: bool) -> anyhow::Result<V
 fn encode_input(path: &str, name_or_signature: &str, values: &[String], lenient: bool) -> anyhow::Result<String> {
 	let function = load_function(path, name_or_signature)?;
 
+	if function.inputs.len() != values.len() {
+		return Err(anyhow!("expected {} params, got {}", function.inputs.len(), values.len()));
+	}
+
 	let params: Vec<_> =
 		function.inputs.iter().map(|param| param.kind.clone()).zip(values.iter().map(|v| v as &str)).collect();
 
-- 
2.43.0


From 25654ee7d9efa011c8523516bd81272884a2584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 14/16] fix: generate fixed size arrays that compile for
 outputs and log fields

---
 derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index ce70efa..2beb457 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -143,7 +143,7 @@ fn rust_type(input: &ParamType) -> proc_macro2::TokenStream {
 		}
 		ParamType::FixedArray(ref kind, size) => {
 			let t = rust_type(&*kind);
-			quote! { [#t, #size] }
+			quote! { [#t; #size] }
 		}
 		ParamType::Tuple(_) => {
 			unimplemented!("Tuples are not supported. https://github.com/openethereum/ethabi/issues/175")
@@ -267,10 +267,10 @@ fn from_token(kind: &ParamType, token: &proc_macro2::TokenStream) -> proc_macro2
 		ParamType::FixedArray(ref kind, size) => {
 			let inner = quote! { inner };
 			let inner_loop = from_token(kind, &inner);
-			let to_array = vec![quote! { iter.next() }; size];
+			let to_array = vec![quote! { iter.next().expect(INTERNAL_ERR) }; size];
 			quote! {
 				{
-					let iter = #token.to_array().expect(INTERNAL_ERR).into_iter()
+					let mut iter = #token.into_fixed_array().expect(INTERNAL_ERR).into_iter()
 						.map(|#inner| #inner_loop);
 					[#(#to_array),*]
 				}
-- 
2.43.0


From 8d7140fc695aa0677a82d76348bec3f8e685d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:00 +0000
Subject: [PATCH 15/16] fix: parse logs with indexed bytes, strings and arrays
 in generated bindings as hashes

---
 derive/src/event.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 079ce7a..0d0cbce 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -6,12 +6,30 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use ethabi::{EventParam, ParamType};
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
 use super::{from_token, get_template_names, rust_type, to_syntax_string, to_token};
 
+/// Type of the param in a parsed log: the topic of an indexed param
+/// which does not fit a word is the hash of its value.
+fn log_param_type(param: &EventParam) -> ParamType {
+	match param.kind {
+		ParamType::Bytes
+		| ParamType::String
+		| ParamType::Array(_)
+		| ParamType::FixedArray(_, _)
+		| ParamType::Tuple(_)
+			if param.indexed =>
+		{
+			ParamType::FixedBytes(32)
+		}
+		ref kind => kind.clone(),
+	}
+}
+
 /// Structure used to generate contract's event interface.
 pub struct Event {
 	name: String,
@@ -43,13 +61,14 @@ impl<'a> From<&'a ethabi::Event> for Event {
 				}
 			})
 			.collect();
-		let kinds: Vec<_> = e.inputs.iter().map(|param| rust_type(&param.kind)).collect();
+		let log_kinds: Vec<_> = e.inputs.iter().map(log_param_type).collect();
+		let kinds: Vec<_> = log_kinds.iter().map(rust_type).collect();
 		let log_fields =
 			names.iter().zip(kinds.iter()).map(|(param_name, kind)| quote! { pub #param_name: #kind }).collect();
 
 		let log_iter = quote! { log.next().expect(INTERNAL_ERR).value };
 
-		let to_log: Vec<_> = e.inputs.iter().map(|param| from_token(&param.kind, &log_iter)).collect();
+		let to_log: Vec<_> = log_kinds.iter().map(|kind| from_token(kind, &log_iter)).collect();
 
 		let log_init =
 			names.iter().zip(to_log.iter()).map(|(param_name, convert)| quote! { #param_name: #convert }).collect();
-- 
2.43.0


From a862854cfef877fdfcdb994ae4e34fe37d46c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:44 +0000
Subject: [PATCH 16/16] fix: accept parameter values that start with a hyphen
 in encode function

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 38614d6..6e53cc8 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -25,7 +25,7 @@ enum Encode {
 	Function {
 		abi_path: String,
 		function_name_or_signature: String,
-		#[structopt(short, number_of_values = 1)]
+		#[structopt(short, number_of_values = 1, allow_hyphen_values = true)]
 		params: Vec<String>,
 		/// Allow short representation of input params.
 		#[structopt(short, long)]
-- 
2.43.0

