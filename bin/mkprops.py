#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Encoding produces exactly the bytes of the Ethereum contract ABI",
  "For every list of values the encoder returns exactly the byte string the Ethereum contract ABI defines: static values in place, one head word holding the tail offset for every dynamic value, tails in order, element counts and byte lengths as 32-byte big-endian words, numbers and addresses left padded, byte strings right padded to whole words. This holds at every nesting of arrays, fixed arrays and tuples and at every payload size.",
  ["inputs"], "all value trees (any nesting of address, int, uint, bool, bytes, bytesN, string, T[], T[k], tuples; any lengths)",
  "The tests compare about 40 hand-written encodings; offsets depend on the whole value tree, so nestings, orders of static and dynamic members and lengths beside the sampled ones are never evaluated.",
  ["ethabi/src/encoder.rs", "ethabi/src/util.rs", "ethabi/src/token/token.rs"],
  [("head/tail layout of mediates with running suffix offsets", "ethabi/src/encoder.rs encode_head_tail, Mediate::{head_len,tail_len,head,tail}"),
   ("static or dynamic classification of values", "ethabi/src/token/token.rs Token::is_dynamic"),
   ("word padding", "ethabi/src/encoder.rs pad_bytes, pad_fixed_bytes; ethabi/src/util.rs pad_u32")],
  ["ethabi::encode"])

p("C02", "Decoding an encoding returns the encoded values",
  "Decoding the encoding of any well-typed values with their types returns those values unchanged, and any bytes that follow the encoding do not change the result. The same holds for the arguments of a function call once its four selector bytes are removed, and encoding what was decoded gives the same bytes again.",
  ["inputs"], "all lists of types, all values of these types, all trailing bytes",
  "Each round trip in the tests is one hand-picked value; encoder and decoder compute offsets independently, and agreement of the two has to hold for every type tree and value.",
  ["ethabi/src/encoder.rs", "ethabi/src/decoder.rs", "ethabi/src/function.rs"],
  [("same head/tail classification on both sides", "Token::is_dynamic and ParamType::is_dynamic"),
   ("cursor advance by head size", "ethabi/src/decoder.rs decode_param new_offset")],
  ["ethabi::encode", "ethabi::decode", "Function::encode_input", "Function::decode_input", "Function::decode_output"])

p("C03", "Decoding arbitrary bytes returns exactly what the ABI says they mean",
  "For every list of types and every byte string, decoding either returns one value per type, of that type's shape, read exactly where offsets, counts and lengths in the data point, or an error. It is an error exactly when a word or payload that has to be read lies outside the data, when an offset, count or length does not fit 32 bits, when a bool word is neither 0 nor 1, or when there is no data for a non-empty value; bytes nothing points at, dirty padding and overlapping tails are accepted, and invalid UTF-8 in strings is replaced by U+FFFD.",
  ["inputs"], "all type lists and all byte strings, in particular corrupted, truncated, overlapping and non-canonical encodings",
  "The tests decode well-formed data and a handful of corrupt samples; whether every malformed header is rejected and every non-canonical one is followed correctly depends on every byte of every header word.",
  ["ethabi/src/decoder.rs", "ethabi/src/param_type/param_type.rs", "ethabi/src/function.rs"],
  [("bounds checked reads", "ethabi/src/decoder.rs peek, peek_32_bytes, take_bytes"),
   ("strict words", "ethabi/src/decoder.rs as_usize, as_bool"),
   ("empty data rule", "ethabi/src/param_type/param_type.rs is_empty_bytes_valid_encoding")],
  ["ethabi::decode", "Function::decode_output", "Function::decode_input"])

p("C04", "Decoding untrusted data never panics or costs more than its data warrants",
  "Whatever bytes are handed to decoding of call data, call results or logs, the call returns (a result or an error) without panicking or aborting. The memory it allocates and the time it takes are bounded by the bytes actually present and the values actually decoded, never by a count, length or offset that the data merely claims.",
  ["inputs", "fault_sequences"], "all byte strings and truncations of them, in particular counts, lengths and offsets up to 2^256-1, for all types",
  "The tests contain three corrupted samples; a panic or an allocation driven by a claimed length shows only for particular header values in particular positions of particular types.",
  ["ethabi/src/decoder.rs", "ethabi/src/event.rs"],
  [("every read is bounds checked before it is made", "ethabi/src/decoder.rs"),
   ("vectors grow with decoded elements, no pre-allocation from claimed lengths", "ethabi/src/decoder.rs decode_param")],
  ["ethabi::decode", "Function::decode_input", "Function::decode_output", "Event::parse_log"])

p("C05", "Calls are selector or code plus encoding, from well-typed arguments only",
  "Building call data succeeds exactly when there is one value per declared parameter and every value, at every depth, fits the declared type (same kind, same number of elements or members, at most and not zero of N bytes for bytesN); otherwise it is an error and no bytes are produced. On success the result is the four-byte selector of the function, or the given creation code, followed by the encoding of the values and nothing else.",
  ["inputs"], "all function and constructor declarations, all value lists, well-typed or not, all creation codes",
  "Tests try a dozen accept/reject pairs at depth one; a gate that is too lax or too strict differs only for particular kind/size/length combinations inside nested values.",
  ["ethabi/src/function.rs", "ethabi/src/constructor.rs", "ethabi/src/token/token.rs"],
  [("structural type check", "ethabi/src/token/token.rs Token::types_check, type_check"),
   ("prefixing", "ethabi/src/function.rs encode_input; ethabi/src/constructor.rs encode_input")],
  ["Function::encode_input", "Constructor::encode_input", "Token::type_check", "Token::types_check"])

p("C06", "Selectors and event topics are the Keccak-256 of the canonical signature",
  "The selector of a function is the first four bytes, and the signature topic of an event all 32 bytes, of the Keccak-256 hash of its name followed by the parenthesised comma-separated canonical parameter types (uint and int written with their width, structs as parenthesised member types, array suffixes in order). The printed signature of a function is that text, followed by the output types when there are any.",
  ["inputs"], "all names and all lists of parameter types, including nested structs and arrays of structs",
  "Two signatures are pinned by tests; the hash input depends on every name and type tree, and a wrong canonical form goes unnoticed until a contract is called.",
  ["ethabi/src/signature.rs", "ethabi/src/param_type/writer.rs", "ethabi/src/function.rs", "ethabi/src/event.rs"],
  [("canonical text and hash", "ethabi/src/signature.rs fill_signature"), ("type text", "ethabi/src/param_type/writer.rs Writer::write"),
   ("printed signature", "ethabi/src/function.rs Function::signature")],
  ["Function::encode_input", "Event::signature", "Function::signature"])

p("C07", "Type names are read and written inversely, malformed ones are rejected",
  "Writing any parameter type and reading the text back gives the same type, and every text that is a Solidity type name (elementary types, uint and int without width meaning 256 bits, tuples in parentheses and array suffixes at any nesting) reads as the type it denotes. A text that is not built this way (unbalanced or misplaced parentheses or brackets, unknown names, non-numeric sizes) is an error, never a panic and never a different type.",
  ["inputs"], "all type trees and all texts, in particular deeply nested tuples and arrays and arbitrary Unicode text",
  "The tests read and write about 30 fixed names; nesting, bracket placement and junk are unbounded.",
  ["ethabi/src/param_type/reader.rs", "ethabi/src/param_type/writer.rs", "ethabi/src/param_type/deserialize.rs"],
  [("recursive reader split at top-level commas", "ethabi/src/param_type/reader.rs Reader::read"),
   ("writer", "ethabi/src/param_type/writer.rs Writer::write, write_for_abi")],
  ["Reader::read", "Writer::write", "Writer::write_for_abi", "ParamType Display", "ParamType deserialization"])

p("C08", "Loading a JSON ABI yields exactly the declared interface",
  "Loading a JSON ABI document yields exactly its constructor, functions, events and the fallback and receive flags, with names (cut at an opening parenthesis), parameter names, types including struct components at any depth, indexed and anonymous flags and state mutability as declared, whatever the order of entries and of keys inside an entry, and whatever unknown keys it contains. Overloads keep document order, lookup by name returns the first or all of exactly that name, unknown names are errors, and a document with missing, repeated or ill-typed required keys is an error and never a panic.",
  ["inputs", "configurations"], "all ABI documents: any entries, overloads, key orders, unknown keys, nesting of components, malformed documents",
  "Tests load some twenty small documents in one key order; dependence on key order, on repeated or unnamed parameters or on the number of overloads is never exercised.",
  ["ethabi/src/contract.rs", "ethabi/src/operation.rs", "ethabi/src/param.rs", "ethabi/src/event_param.rs", "ethabi/src/tuple_param.rs", "ethabi/src/function.rs", "ethabi/src/event.rs", "ethabi/src/util.rs"],
  [("tagged operations collected per name", "ethabi/src/contract.rs ContractVisitor::visit_seq"),
   ("hand-written param visitors that keep components until the type is known", "ethabi/src/param.rs ParamVisitor, set_tuple_components; event_param.rs; tuple_param.rs"),
   ("name cut", "ethabi/src/util.rs sanitize_name")],
  ["Contract::load", "Contract::{function,functions_by_name,event,events_by_name,functions,events,constructor}"],
  [("functions, events", "ordered overload lists by name", "ethabi/src/contract.rs Contract")])

p("C09", "Serializing an interface to JSON and loading it again loses nothing",
  "Serializing any loaded interface gives a JSON ABI document that loads again, and loading it gives an equal interface: every function and event with its overload order, parameter names, internal types, full struct member types at any depth, flags and mutability, and the constructor, fallback and receive entries, each exactly once.",
  ["inputs", "histories"], "all interfaces obtainable by loading, any number of load/serialize rounds",
  "Serialization is checked for a few single-entry documents; loss of an entry, a flag or a nested member needs particular combinations.",
  ["ethabi/src/contract.rs", "ethabi/src/param.rs", "ethabi/src/event_param.rs", "ethabi/src/tuple_param.rs", "ethabi/src/function.rs", "ethabi/src/state_mutability.rs"],
  [("serialization of every entry", "ethabi/src/contract.rs impl Serialize for Contract"),
   ("components of the innermost tuple", "ethabi/src/param.rs inner_tuple, SerializeableParam")],
  ["serde_json::to_string(&Contract)", "serde_json::to_string of Param, EventParam, TupleParam"])

p("C10", "Parsing a log returns the emitted values and refuses foreign logs",
  "Parsing a log emitted for an event returns one entry per declared parameter in declaration order, each with the declared name and its own value: indexed values from their topic, the others from the data, and the 32-byte topic itself for an indexed string, byte string, array or struct. A log whose first topic is not the signature of a non-anonymous event, whose number of topics differs from the number expected, or whose topics or data do not decode is an error.",
  ["inputs"], "all event declarations (any interleaving of indexed and plain parameters, repeated or missing names, anonymous or not) and all logs, emitted or not",
  "Tests parse five logs; the pairing of topics and data with parameters depends on the whole declaration.",
  ["ethabi/src/event.rs", "ethabi/src/log.rs", "ethabi/src/decoder.rs"],
  [("signature topic check and topic count check", "ethabi/src/event.rs Event::parse_log"),
   ("hashed kinds read as bytes32", "ethabi/src/event.rs convert_topic_param_type")],
  ["Event::parse_log"])

p("C11", "A topic filter admits exactly the logs of its event with the requested values",
  "A filter built for an event puts the signature topic first (nothing for an anonymous event) and each requested value at the position of its indexed parameter, encoded as the chain encodes it: the word of a value type, or the Keccak-256 of the in-place encoding of a string, byte string, array or struct. Hence it admits every log emitted with requested values and no log emitted with other values in a requested position; unrequested positions stay open, requests for parameters that do not exist or do not fit the type are errors, and the filter's JSON form lists the four positions as null, one 0x-prefixed 32-byte hex string, or a list of them.",
  ["inputs"], "all event declarations, all choices of any/one/one-of requests per position, all values, all emitted logs",
  "No test builds a filter from an event and compares it with a log; only the JSON form of one hand-made filter is pinned.",
  ["ethabi/src/event.rs", "ethabi/src/filter.rs"],
  [("topic conversion per indexed parameter", "ethabi/src/event.rs Event::filter"),
   ("topic container and its JSON form", "ethabi/src/filter.rs Topic, TopicFilter")],
  ["Event::filter", "serde_json::to_string(&TopicFilter)", "Topic conversions"])

p("C12", "Text literals are read as the one value they denote, or refused",
  "Reading a text as a value of a type yields exactly the value it denotes (hex for addresses, byte strings and 32-byte numbers; true/false/1/0; bracketed, comma-separated lists; parenthesised members; text verbatim) or an error: wrong digit counts, wrong element or member counts, unbalanced brackets, text outside the brackets and stray quotes are refused, never silently dropped, and nothing panics. In lenient mode numbers may also be decimal: an unsigned one is accepted exactly below 2^256, a signed one exactly from -2^255 to 2^255-1 and yields its two's complement, and everything else is read as in strict mode.",
  ["inputs"], "all types, all texts (any Unicode), both modes",
  "The tests read some sixty literals; quoting, nesting, sign and range boundaries and junk are unbounded.",
  ["ethabi/src/token/mod.rs", "ethabi/src/token/strict.rs", "ethabi/src/token/lenient.rs"],
  [("bracket scanners", "ethabi/src/token/mod.rs tokenize_array, tokenize_struct, tokenize_fixed_array"),
   ("strict hex", "ethabi/src/token/strict.rs"), ("decimal with range checks", "ethabi/src/token/lenient.rs tokenize_uint, tokenize_int")],
  ["StrictTokenizer::tokenize", "LenientTokenizer::tokenize"])

p("C13", "Values render to the text that denotes them",
  "Every value renders as: lowercase hex of all its bytes for addresses and byte strings, minimal lowercase hex for numbers, true or false, strings verbatim, lists in square brackets and structs in parentheses with commas and nothing else between members. Hence two different values of one type that contain no strings and no empty byte strings never render alike, and reading the rendering of an address, non-empty byte string, bool or list of these in strict mode gives the value back; unwrapping a value as a kind gives its content exactly when it is of that kind.",
  ["inputs"], "all values at any nesting",
  "Rendering is compared for a few flat values through the command line tests only.",
  ["ethabi/src/token/token.rs"],
  [("Display", "ethabi/src/token/token.rs impl Display for Token"), ("accessors", "ethabi/src/token/token.rs into_*")],
  ["Token Display", "Token::into_*"])

p("C14", "Generated contract bindings agree with the runtime interface",
  "For every ABI file the code generator accepts, each generated function encodes, decodes, filters and parses exactly as the same declaration loaded at run time: same call data for functions and constructor, same decoded outputs in order, same filters for the given topics, same parsed log fields, and an error where the run-time interface returns one. No generated function panics on data it is given.",
  ["programs", "inputs"], "all ABI files with supported types (any combination of parameter types, outputs, indexed flags, unnamed parameters), all arguments and data",
  "The tests compile six ABI files and compare seven call encodings; outputs, filters and logs of most generated code are never run.",
  ["derive/src/lib.rs", "derive/src/function.rs", "derive/src/event.rs", "derive/src/constructor.rs", "derive/src/contract.rs", "contract/src/lib.rs"],
  [("recreated declarations", "derive/src/lib.rs to_ethabi_param_vec, to_syntax_string"),
   ("conversions", "derive/src/lib.rs to_token, from_token, rust_type, template_param_type")],
  ["modules generated by use_contract!"])

p("C15", "The command line tool prints what the library computes, or fails",
  "For every command line, the tool prints exactly the hex of the encoding, or one line per value with its type (or parameter name for logs) and rendering, that the library operations give for the named file, the selected function or event, the given literals and the given data, and exits with success; in every other case it exits with failure and prints no result. A plain name selects an entry only when it is unique, a full signature selects the entry with that signature, and the number of given values must be the number of parameters.",
  ["inputs", "configurations"], "all command lines, ABI files (overloads included), literals and data",
  "The tests run some thirty command lines, nearly all successful ones.",
  ["cli/src/main.rs"],
  [("selection", "cli/src/main.rs load_function, load_event"), ("dispatch and printing", "cli/src/main.rs encode_input, encode_params, decode_call_output, decode_params, decode_log")],
  ["stdout and exit status of the ethabi binary"])

p("C16", "Every operation depends only on its arguments and the loaded interface",
  "The reply of every operation on an interface is determined by its arguments and the document that was loaded: it is the same on every repetition, after any history of other operations (including failed ones and operations on other interfaces), on clones of the interface and when many threads use it at the same time. No operation changes the interface or its arguments.",
  ["histories", "schedules"], "all histories of operations on any number of loaded interfaces, all interleavings of threads sharing them",
  "Every test performs one operation on a fresh interface in one thread; caches or shared state keyed too coarsely show only in particular sequences.",
  ["ethabi/src/lib.rs", "ethabi/src/contract.rs", "ethabi/src/function.rs", "ethabi/src/event.rs", "ethabi/src/signature.rs"],
  [("no interior mutability, no global state", "ethabi/src")],
  ["all public operations of the library"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
