//! A01-A03: the Avro helpers of common/helpers.
use apache_avro::types::Value;
use common_helpers::avro::*;
use engine::{aspect, check, check_eq, Gen, Known, Property, R};
use std::collections::HashMap;

mod ty;
use ty::*;

/// Cap on length fields while decoding hostile bytes (set once for the process).
const LIMIT: u64 = 1 << 19;

fn fields_of(v: &Value) -> HashMap<String, Value> {
	match v {
		Value::Record(f) => f.iter().cloned().collect(),
		_ => HashMap::new(),
	}
}
fn show<E: std::fmt::Debug>(e: E) -> String {
	let s = format!("{e:?}");
	s.chars().take(300).collect()
}

fn size(t: &Ty) -> usize {
	match t {
		Ty::Array(x) | Ty::Map(x) => 1 + size(x),
		Ty::Union(v) => 1 + v.iter().map(size).sum::<usize>(),
		Ty::Record(_, f) => 1 + f.iter().map(|x| size(&x.1)).sum::<usize>(),
		_ => 1,
	}
}
fn labels(g: &mut Gen, t: &Ty) {
	fn has(t: &Ty, f: &dyn Fn(&Ty) -> bool) -> bool {
		f(t) || match t {
			Ty::Array(x) | Ty::Map(x) => has(x, f),
			Ty::Union(v) => v.iter().any(|x| has(x, f)),
			Ty::Record(_, v) => v.iter().any(|x| has(&x.1, f)),
			_ => false,
		}
	}
	g.label_if(has(t, &|x| matches!(x, Ty::Union(_))), "union");
	g.label_if(has(t, &|x| matches!(x, Ty::Ref(_))), "named reference");
	g.label_if(has(t, &|x| matches!(x, Ty::Array(_) | Ty::Map(_))), "array or map");
	g.label_if(has(t, &|x| matches!(x, Ty::Enum(..) | Ty::Fixed(..))), "enum or fixed");
	g.label_if(has(t, &|x| matches!(x, Ty::Date | Ty::Uuid | Ty::Decimal(..) | Ty::StampMicros)), "logical type");
}

// ------------------------------------------------------------------ A01
fn a01_roundtrip(g: &mut Gen) -> R {
	let t = gen_record(g);
	let names = names_of(&t);
	let text = spell(g, &t, true);
	let v = gen_value(g, &t, &names, 4);
	g.note(|| text.clone());
	g.note(|| show(&v));
	labels(g, &t);
	if size(&t) > 2 {
		g.nontrivial();
	}
	let (schema, serialised) = fingerprint_raw_schema(&text).map_err(|e| format!("valid schema refused: {}", show(e)))?;
	let map = fields_of(&v);
	let data = populate_schema_and_serialize(&schema, &map).map_err(|e| format!("conforming record refused: {}", show(e)))?;
	let back = get_schema_data_map(&data, &schema).map_err(|e| format!("own payload refused: {}", show(e)))?;
	check!(same_map(&back, &map), "read back {} instead of {}", show(&back), show(&map));
	// again, with an equal map built in another order
	let mut rev: Vec<(String, Value)> = map.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
	rev.sort_by(|a, b| b.0.cmp(&a.0));
	let map2: HashMap<String, Value> = rev.into_iter().collect();
	let data2 = populate_schema_and_serialize(&schema, &map2).map_err(|e| format!("second time refused: {}", show(e)))?;
	let back2 = get_schema_data_map(&data2, &schema).map_err(|e| format!("second payload refused: {}", show(e)))?;
	check!(same_map(&back2, &map), "second payload reads back {} instead of {}", show(&back2), show(&map));
	// independent reader over the payload, independent writer into the reader
	let (r, used, _) = decode(&data, &t, &names, false, u64::MAX);
	match r {
		Ok(w) => {
			check!(used == data.len(), "payload has {} bytes, the record ends after {used}", data.len());
			check!(same(&w, &v), "payload decodes to {} instead of {}", show(&w), show(&v));
		},
		Err(e) => return Err(format!("payload does not decode independently: {e:?}")),
	}
	let mut own = vec![];
	encode(&v, &mut own);
	let back3 = get_schema_data_map(&own, &schema).map_err(|e| format!("independently written payload refused: {}", show(e)))?;
	check!(same_map(&back3, &map), "independently written payload reads {} instead of {}", show(&back3), show(&map));
	// the serialised form of the schema reads the same payload
	let tr = translate_schema(serialised).map_err(|e| format!("serialised schema refused: {}", show(e)))?;
	let back4 = get_schema_data_map(&data, &tr).map_err(|e| format!("payload refused by the serialised schema: {}", show(e)))?;
	check!(same_map(&back4, &map), "the serialised schema reads {} instead of {}", show(&back4), show(&map));
	Ok(())
}
/// Records appended through the data writer come out of the container again, in order.
fn a01_container(g: &mut Gen) -> R {
	let t = gen_record(g);
	let names = names_of(&t);
	let text = spell(g, &t, true);
	let vs: Vec<Value> = g.list(30, 3, |g| gen_value(g, &t, &names, 3));
	g.note(|| format!("{text} {} records", vs.len()));
	// the library's container reader (not part of the repository) refuses blocks of zero bytes
	// and the harness caps the reader's allocations
	let sizes: Vec<usize> = vs
		.iter()
		.map(|v| {
			let mut b = vec![];
			encode(v, &mut b);
			b.len()
		})
		.collect();
	if sizes.contains(&0) || sizes.iter().sum::<usize>() > 30_000 || text.len() > 30_000 {
		return Ok(());
	}
	let (schema, _) = fingerprint_raw_schema(&text).map_err(|e| format!("valid schema refused: {}", show(e)))?;
	if size(&t) > 2 && vs.len() > 1 {
		g.nontrivial();
	}
	let mut w = get_schema_data_writer(&schema);
	check!(w.schema() == &schema, "the writer's schema is another one");
	for v in &vs {
		w.append(v.clone()).map_err(|e| format!("conforming record refused: {}", show(e)))?;
		if g.chance(1, 5) {
			w.flush().map_err(|e| format!("flush: {}", show(e)))?;
		}
	}
	let b = w.into_inner().map_err(|e| format!("container: {}", show(e)))?;
	if vs.is_empty() {
		return Ok(());
	}
	let r = apache_avro::Reader::new(&b[..]).map_err(|e| format!("own container refused: {}", show(e)))?;
	let mut n = 0;
	for x in r {
		let x = x.map_err(|e| format!("record {n} of the container refused: {}", show(e)))?;
		check!(vs.get(n).map_or(false, |v| same(v, &x)), "record {n} of the container reads {} instead of {}", show(&x), show(vs.get(n)));
		n += 1;
	}
	check_eq!(n, vs.len(), "records in the container");
	Ok(())
}
/// A record that does not conform is refused, not written as something else.
fn a01_nonconforming(g: &mut Gen) -> R {
	let t = gen_record(g);
	let names = names_of(&t);
	let Ty::Record(_, fs) = &t else { return Ok(()) };
	if fs.is_empty() {
		return Ok(());
	}
	let text = spell(g, &t, false);
	let v = gen_value(g, &t, &names, 3);
	let (schema, _) = fingerprint_raw_schema(&text).map_err(|e| format!("valid schema refused: {}", show(e)))?;
	let mut map = fields_of(&v);
	let i = g.usize(0, fs.len() - 1);
	let (name, ft) = &fs[i];
	if matches!(ft, Ty::Null) {
		return Ok(());
	}
	g.note(|| text.clone());
	if g.bool() {
		map.remove(name);
		g.label("field missing");
		g.note(|| format!("without field {name}"));
	} else {
		let bad = match ft {
			Ty::Bool => Value::String("true".into()),
			Ty::Enum(_, s) => Value::Enum(s.len() as u32, "nope".into()),
			Ty::Fixed(_, n) => Value::Fixed(n + 1, vec![0; n + 1]),
			Ty::Union(v) => Value::Union(v.len() as u32, Box::new(Value::Null)),
			_ => Value::Boolean(true),
		};
		g.label("field of another type");
		g.note(|| format!("field {name} = {bad:?}"));
		map.insert(name.clone(), bad);
	}
	g.nontrivial();
	match populate_schema_and_serialize(&schema, &map) {
		Err(_) => Ok(()),
		Ok(d) => Err(format!("non-conforming record written as {d:02x?}")),
	}
}
fn a01_not_a_record(g: &mut Gen) -> R {
	let t = gen_any(g);
	if matches!(t, Ty::Record(..) | Ty::Ref(_)) {
		return Ok(());
	}
	g.nontrivial();
	let text = spell(g, &t, true);
	g.note(|| text.clone());
	let names = names_of(&t);
	let (schema, _) = fingerprint_raw_schema(&text).map_err(|e| format!("valid schema refused: {}", show(e)))?;
	check!(populate_schema_and_serialize(&schema, &HashMap::new()).is_err(), "record written with a schema that is no record");
	let v = gen_value(g, &t, &names, 3);
	let mut b = vec![];
	encode(&v, &mut b);
	check!(get_schema_data_map(&b, &schema).is_err(), "value of a schema that is no record read as a record");
	Ok(())
}

// ------------------------------------------------------------------ A02
fn canon(text: &str) -> Result<String, String> {
	let (s, b) = fingerprint_raw_schema(text).map_err(|e| format!("valid schema refused: {} in {text}", show(e)))?;
	let b = String::from_utf8(b).map_err(show)?;
	check_canon(&s, &b)?;
	Ok(b)
}
fn check_canon(s: &apache_avro::Schema, b: &str) -> R {
	check_eq!(s.canonical_form(), b.to_string(), "serialised form of the schema");
	Ok(())
}
fn a02_valid(g: &mut Gen) -> R {
	let t = gen_any(g);
	if matches!(t, Ty::Ref(_)) {
		return Ok(());
	}
	let plain = spell(g, &t, false);
	let fancy = spell(g, &t, true);
	g.note(|| fancy.clone());
	labels(g, &t);
	if size(&t) > 2 {
		g.nontrivial();
	}
	let c = canon(&plain)?;
	let c2 = canon(&fancy)?;
	check_eq!(c2, c, "normalised text of another spelling");
	check_eq!(canon(&c)?, c, "normalised text of the normalised text");
	let j: serde_json::Value = serde_json::from_str(&c).map_err(|e| format!("normalised text is no JSON: {e} {c}"))?;
	check_eq!(read_type(&j), Some(t.clone()), "type denoted by the normalised text {c}");
	check!(validate_raw_avro_schema(&fancy.clone().into_bytes()).is_ok(), "validation refuses {fancy}");
	check!(validate_raw_avro_schema(&c.clone().into_bytes()).is_ok(), "validation refuses the normalised text");
	let tr = translate_schema(c.clone().into_bytes()).map_err(|e| format!("serialised schema refused: {}", show(e)))?;
	check_eq!(tr.canonical_form(), c, "schema of the serialised form");
	let tr = translate_schema(fancy.into_bytes()).map_err(|e| format!("schema text refused: {}", show(e)))?;
	check_eq!(tr.canonical_form(), c, "schema of the text");
	Ok(())
}
/// Different types never share a normalised text.
fn a02_distinct(g: &mut Gen) -> R {
	let (a, b) = (gen_any(g), gen_any(g));
	if matches!(a, Ty::Ref(_)) || matches!(b, Ty::Ref(_)) || a == b {
		return Ok(());
	}
	g.nontrivial();
	let (ta, tb) = (spell(g, &a, true), spell(g, &b, true));
	g.note(|| format!("{ta} | {tb}"));
	check!(canon(&ta)? != canon(&tb)?, "two types share a normalised text: {ta} and {tb}");
	Ok(())
}
fn refused(bytes: Vec<u8>, what: &str) -> R {
	let shown = String::from_utf8_lossy(&bytes).into_owned();
	check!(validate_raw_avro_schema(&bytes).is_err(), "{what}: validation accepts {shown}");
	if let Ok(s) = std::str::from_utf8(&bytes) {
		check!(fingerprint_raw_schema(s).is_err(), "{what}: normalising accepts {shown}");
	}
	check!(translate_schema(bytes).is_err(), "{what}: translating accepts {shown}");
	Ok(())
}
fn a02_malformed(g: &mut Gen) -> R {
	let t = gen_record(g);
	let text = spell(g, &t, false);
	let inner = spell(g, &t, false);
	let n = g.below(18);
	let (s, what): (String, &'static str) = match n {
		0 => {
			let mut cut = g.usize(0, text.len() - 1);
			while !text.is_char_boundary(cut) {
				cut -= 1;
			}
			(text[..cut].to_string(), "text cut short")
		},
		1 => match g.below(2) {
			0 => (format!("{text}{}", g.pick(&["}", "x", "{}", "]", "\"int\"", "\0", ";", ",", "//", "\u{feff}", "\u{a0}"])), "text after the schema"),
			_ => (format!("{}{text}", g.pick(&["x", "{}", "[", "\0", "\u{feff}", "\u{a0}", ",", "//\n"])), "text before the schema"),
		},
		2 => ("{\"type\":\"record\",\"fields\":[]}".into(), "record without a name"),
		3 => ("{\"type\":\"record\",\"name\":\"a\"}".into(), "record without fields"),
		4 => ("{\"type\":\"record\",\"name\":\"a\",\"fields\":[{\"name\":\"b\"}]}".into(), "field without a type"),
		5 => ("{\"type\":\"record\",\"name\":\"a\",\"fields\":[{\"type\":\"int\"}]}".into(), "field without a name"),
		6 => (
			format!("{{\"type\":\"record\",\"name\":\"a\",\"fields\":[{{\"name\":\"b\",\"type\":\"{}\"}}]}}", g.pick(&["integer", "String", "Unknown", "", "nul"])),
			"unknown type",
		),
		7 => ("{\"type\":\"enum\",\"name\":\"e\"}".into(), "enum without symbols"),
		8 => ("{\"type\":\"enum\",\"name\":\"e\",\"symbols\":[\"A\",\"B\",\"A\"]}".into(), "enum symbol twice"),
		9 => (
			format!("{{\"type\":\"enum\",\"name\":\"e\",\"symbols\":[\"A\",\"{}\"]}}", g.pick(&["1a", "a-b", "", "é", "a b"])),
			"bad enum symbol",
		),
		10 => (format!("{{\"type\":\"map\",\"values\":{}}}", g.pick(&["\"nothing\"", "3", "{}", "[[\"int\"]]", "null"])), "malformed inner type"),
		11 => ("[\"int\",[\"null\",\"string\"]]".into(), "union inside a union"),
		12 => (format!("[{0},{0}]", g.pick(&["\"int\"", "\"null\"", "\"string\"", "\"bytes\""])), "union branch twice"),
		13 => ("{\"type\":\"fixed\",\"name\":\"f\"}".into(), "fixed without a size"),
		14 => ("{\"type\":\"array\"}".into(), "array without items"),
		15 => ("{\"type\":\"map\"}".into(), "map without values"),
		16 => (g.pick(&["", " ", "5", "true", "null", "{}", "\"\"", "{\"type\":7}", "{\"name\":\"a\"}"]).to_string(), "no schema at all"),
		_ => (format!("{{\"type\":\"array\",\"items\":{}", inner), "text cut short"),
	};
	g.label(what);
	g.note(|| format!("{what}: {s}"));
	g.nontrivial();
	refused(s.into_bytes(), what)?;
	// text that is no UTF-8
	let mut b = text.into_bytes();
	let at = g.usize(0, b.len());
	b.insert(at, *g.pick(&[0xFFu8, 0xC0, 0x80, 0xFE]));
	refused(b, "no UTF-8")
}

// ------------------------------------------------------------------ A03
fn limit() {
	apache_avro::max_allocation_bytes(LIMIT as usize);
}
fn a03_truncated(g: &mut Gen) -> R {
	let t = gen_record(g);
	let names = names_of(&t);
	let text = spell(g, &t, false);
	let v = gen_value(g, &t, &names, 3);
	let (schema, _) = fingerprint_raw_schema(&text).map_err(|e| format!("valid schema refused: {}", show(e)))?;
	let data = populate_schema_and_serialize(&schema, &fields_of(&v)).map_err(|e| format!("conforming record refused: {}", show(e)))?;
	if data.is_empty() {
		return Ok(());
	}
	g.nontrivial();
	let cut = g.usize(0, data.len() - 1);
	let part = data[..cut].to_vec();
	g.note(|| format!("{text} {part:02x?} of {} bytes", data.len()));
	judge(g, &t, &names, &schema, &part)
}
/// Compares reading `b` with the independent reader, leaving out the recorded findings.
fn judge(g: &mut Gen, t: &Ty, names: &Names, schema: &apache_avro::Schema, b: &Vec<u8>) -> R {
	let (want, _, _) = decode(b, t, names, false, LIMIT);
	let (lenient, _, quirk) = decode(b, t, names, true, LIMIT);
	if lenient == Err(Bad::EnumEnd) || lenient == Err(Bad::Unknown) || want == Err(Bad::EnumEnd) {
		g.exclude();
		g.label("left out: enum position one past the end");
		return Ok(());
	}
	if lenient == Err(Bad::Deep) || want == Err(Bad::Deep) {
		g.exclude();
		g.label("left out: deeply nested payload");
		return Ok(());
	}
	let got = get_schema_data_map(b, schema);
	match (&want, &got) {
		(Ok(w), Ok(m)) => {
			g.label("readable");
			let w = fields_of(w);
			check!(same_map(m, &w), "bytes {b:02x?} read as {} instead of {}", show(m), show(&w));
		},
		(Ok(w), Err(e)) => return Err(format!("readable bytes {b:02x?} = {} refused: {}", show(w), show(e))),
		(Err(_), Err(_)) => g.label("refused"),
		(Err(e), Ok(m)) => {
			// recorded finding: values cut off at the end read as null
			if let (true, Ok(l)) = (quirk, &lenient) {
				if same_map(m, &fields_of(l)) {
					g.exclude();
					g.label("left out: cut-off value read as null");
					return Ok(());
				}
			}
			return Err(format!("malformed bytes {b:02x?} ({e:?}) read as {}", show(m)));
		},
	}
	Ok(())
}
fn a03_mutated(g: &mut Gen) -> R {
	let t = gen_record(g);
	let names = names_of(&t);
	let text = spell(g, &t, false);
	let (schema, _) = fingerprint_raw_schema(&text).map_err(|e| format!("valid schema refused: {}", show(e)))?;
	let mut b = match g.below(4) {
		0 => g.bytes(0, 40),
		1 => {
			let u = gen_record(g);
			let un = names_of(&u);
			let v = gen_value(g, &u, &un, 3);
			let mut b = vec![];
			encode(&v, &mut b);
			b
		},
		_ => {
			let v = gen_value(g, &t, &names, 3);
			let mut b = vec![];
			encode(&v, &mut b);
			b
		},
	};
	for _ in 0..g.usize(0, 4) {
		match g.below(4) {
			0 if !b.is_empty() => {
				let i = g.usize(0, b.len() - 1);
				b[i] ^= 1 << g.below(8);
			},
			1 if !b.is_empty() => {
				let i = g.usize(0, b.len() - 1);
				b.remove(i);
			},
			2 => {
				let i = g.usize(0, b.len());
				let x = g.byte();
				b.insert(i, x);
			},
			_ => {
				let i = g.usize(0, b.len());
				b.truncate(i);
			},
		}
	}
	g.note(|| format!("{text} {b:02x?}"));
	if !b.is_empty() && size(&t) > 1 {
		g.nontrivial();
	}
	judge(g, &t, &names, &schema, &b)
}
fn a03_schema_text(g: &mut Gen) -> R {
	let t = gen_any(g);
	let mut b = if g.chance(1, 6) { g.bytes(0, 60) } else { spell(g, &t, true).into_bytes() };
	const SNIP: [&str; 16] = [
		"\"type\"", "\"fields\":[]", "\"size\":-1", "\"size\":\"3\"", "\"namespace\":\"a.b\"", "\"logicalType\":\"decimal\"", "[", "]", "{", "}", ",",
		"\"aliases\":[\"q\"]", "null", "\"symbols\":[]", "\"precision\":0", "1e999",
	];
	for _ in 0..g.usize(0, 5) {
		match g.below(4) {
			0 if !b.is_empty() => {
				let i = g.usize(0, b.len() - 1);
				b[i] = g.byte();
			},
			1 if !b.is_empty() => {
				let i = g.usize(0, b.len() - 1);
				let j = (i + g.usize(1, 12)).min(b.len());
				b.drain(i..j);
			},
			2 if !b.is_empty() => {
				let i = g.usize(0, b.len() - 1);
				let j = (i + g.usize(1, 20)).min(b.len());
				let piece = b[i..j].to_vec();
				let k = g.usize(0, b.len());
				b.splice(k..k, piece);
			},
			_ => {
				let k = g.usize(0, b.len());
				let s = *g.pick(&SNIP);
				b.splice(k..k, s.bytes());
			},
		}
	}
	g.note(|| String::from_utf8_lossy(&b).into_owned());
	if let Ok(j) = serde_json::from_slice::<serde_json::Value>(&b) {
		if bad_names(&j) {
			g.exclude();
			g.label("left out: malformed type name");
			return Ok(());
		}
	}
	g.nontrivial();
	let v = validate_raw_avro_schema(&b).is_ok();
	let tr = translate_schema(b.clone());
	check_eq!(tr.is_ok(), v, "translating and validating disagree on {}", String::from_utf8_lossy(&b));
	match std::str::from_utf8(&b) {
		Err(_) => check!(!v, "text that is no UTF-8 accepted"),
		Ok(s) => {
			let f = fingerprint_raw_schema(s);
			check_eq!(f.is_ok(), v, "normalising and validating disagree on {s}");
			if serde_json::from_str::<serde_json::Value>(s).is_err() {
				check!(!v, "text that is no JSON accepted: {s}");
			}
			g.label(if v { "accepted" } else { "refused" });
		},
	}
	Ok(())
}
/// Names that make the schema parser panic (recorded finding).
fn bad_names(j: &serde_json::Value) -> bool {
	use serde_json::Value as J;
	let word = |s: &str, dots: bool| {
		let mut cs = s.chars();
		cs.next().map_or(false, |c| c.is_ascii_alphabetic() || c == '_')
			&& s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || (dots && c == '.'))
	};
	let full = |s: &str| match s.rsplit_once('.') {
		Some((a, b)) => word(a, true) && word(b, false),
		None => word(s, false),
	};
	match j {
		J::Array(a) => a.iter().any(bad_names),
		J::Object(o) =>
			o.get("name").and_then(|x| x.as_str()).map_or(false, |s| !full(s))
				|| o.get("namespace").and_then(|x| x.as_str()).map_or(false, |s| !word(s, true))
				|| o.get("aliases").and_then(|x| x.as_array()).map_or(false, |a| a.iter().any(|x| x.as_str().map_or(false, |s| !full(s))))
				|| o.values().any(bad_names),
		_ => false,
	}
}
fn probe_bad_name() -> Option<String> {
	let text = r#"{"type":"record","name":"1a","fields":[]}"#;
	match engine::guarded(|| validate_raw_avro_schema(&text.as_bytes().to_vec())) {
		Err(m) => Some(format!("schema text {text}: {m}")),
		Ok(Ok(())) => Some(format!("schema text {text} accepted")),
		Ok(Err(_)) => None,
	}
}
fn probe_enum_end() -> Option<String> {
	let (s, _) = fingerprint_raw_schema(
		r#"{"type":"record","name":"r","fields":[{"name":"e","type":{"type":"enum","name":"E","symbols":["A","B"]}}]}"#,
	)
	.ok()?;
	match engine::guarded(|| get_schema_data_map(&vec![4], &s)) {
		Err(m) => Some(format!("payload [04] (enum position 2 of 2 symbols): {m}")),
		Ok(Ok(m)) => Some(format!("payload [04] (enum position 2 of 2 symbols) read as {m:?}")),
		Ok(Err(_)) => None,
	}
}
fn probe_cut() -> Option<String> {
	for (t, b) in [("\"boolean\"", vec![]), ("\"string\"", vec![6u8, b'a']), ("[\"null\",\"int\"]", vec![])] {
		let text = format!("{{\"type\":\"record\",\"name\":\"r\",\"fields\":[{{\"name\":\"f\",\"type\":{t}}}]}}");
		let (s, _) = fingerprint_raw_schema(&text).ok()?;
		if let Ok(m) = get_schema_data_map(&b, &s) {
			return Some(format!("cut-off payload {b:02x?} of a {t} field read as {m:?}"));
		}
	}
	None
}
const DEEP: &str = r#"{"type":"record","name":"r","fields":[{"name":"f","type":{"type":"array","items":"r"}}]}"#;
/// A payload of one byte per level of a recursive type; run in a process of its own because it ends the process.
fn probe_deep() -> Option<String> {
	let exe = std::env::current_exe().ok()?;
	let out = std::process::Command::new(exe).env("AVRO_DEEP_PROBE", "1").output().ok()?;
	if out.status.success() {
		return None;
	}
	Some(format!("40000 bytes 02 read with the recursive type {DEEP}: the process ends with {}", out.status))
}

fn main() {
	limit();
	engine::dict::load(&engine::root(), &["common-helpers"]);
	if std::env::var_os("AVRO_DEEP_PROBE").is_some() {
		if let Ok((s, _)) = fingerprint_raw_schema(DEEP) {
			let t = std::thread::spawn(move || get_schema_data_map(&vec![2u8; 40_000], &s).is_ok());
			let _ = t.join();
		}
		std::process::exit(0);
	}
	let rule = "generated Avro types (all primitive, named, nested, union, logical and recursive kinds) in varying JSON spellings with conforming values; non-trivial: the type has more than two nodes, or the input is a mutation";
	engine::main(vec![
		Property {
			id: "A01",
			rule,
			aspects: vec![
				aspect("round-trip", 60_000, 2_000_000, a01_roundtrip),
				aspect("container", 15_000, 400_000, a01_container),
				aspect("non-conforming", 20_000, 600_000, a01_nonconforming),
				aspect("not-a-record", 10_000, 300_000, a01_not_a_record),
			],
			known: vec![],
		},
		Property {
			id: "A02",
			rule,
			aspects: vec![
				aspect("valid", 80_000, 2_000_000, a02_valid),
				aspect("distinct", 20_000, 600_000, a02_distinct),
				aspect("malformed", 80_000, 1_000_000, a02_malformed),
			],
			known: vec![],
		},
		Property {
			id: "A03",
			rule,
			aspects: vec![
				aspect("truncated", 80_000, 2_000_000, a03_truncated),
				aspect("mutated", 120_000, 4_000_000, a03_mutated),
				aspect("schema-text", 120_000, 4_000_000, a03_schema_text),
			],
			known: vec![
				Known { signature: "enum-position-one-past-end", probe: probe_enum_end },
				Known { signature: "malformed-type-name-panics", probe: probe_bad_name },
				Known { signature: "cut-off-value-read-as-null", probe: probe_cut },
				Known { signature: "deeply-nested-payload-exhausts-stack", probe: probe_deep },
			],
		},
	]);
}
