//! Generated Avro types, their JSON spellings, conforming values, and an independent binary codec.
use apache_avro::types::Value;
use engine::Gen;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
	Null,
	Bool,
	Int,
	Long,
	Float,
	Double,
	Bytes,
	Str,
	/// logical type over int/long/string/bytes
	Date,
	TimeMillis,
	TimeMicros,
	StampMillis,
	StampMicros,
	Uuid,
	Decimal(u64, u64),
	Fixed(String, usize),
	Enum(String, Vec<String>),
	Array(Box<Ty>),
	Map(Box<Ty>),
	Union(Vec<Ty>),
	Record(String, Vec<(String, Ty)>),
	Ref(String),
}
use Ty::*;

pub struct Names(pub BTreeMap<String, Ty>);

pub fn names_of(t: &Ty) -> Names {
	fn go(t: &Ty, m: &mut BTreeMap<String, Ty>) {
		match t {
			Fixed(n, _) | Enum(n, _) => {
				m.insert(n.clone(), t.clone());
			},
			Array(x) | Map(x) => go(x, m),
			Union(v) => v.iter().for_each(|x| go(x, m)),
			Record(n, f) => {
				m.insert(n.clone(), t.clone());
				f.iter().for_each(|(_, x)| go(x, m));
			},
			_ => {},
		}
	}
	let mut m = BTreeMap::new();
	go(t, &mut m);
	Names(m)
}

struct Tg {
	n: usize,
	done: Vec<String>,
	open: Vec<String>,
	/// every named type carries a namespace
	ns: bool,
}
fn named(g: &mut Gen, s: &mut Tg, kind: &str) -> String {
	s.n += 1;
	let n = format!("{}{kind}", ident(g, s.n));
	if s.ns {
		format!("{}.{n}", g.pick(&["a", "a.b", "common", "common.x", "_p.Q1", "org.apache.avro.test"]))
	} else {
		n
	}
}

fn ident(g: &mut Gen, n: usize) -> String {
	const POOL: [&str; 14] = ["a", "b", "name", "type_", "x1", "_u", "Fields", "items", "size", "value", "Z", "symbols", "aB_9", "order"];
	let p = *g.pick(&POOL);
	match g.below(9) {
		8 => {
			let s: String = g.dict_str().chars().filter(|c| c.is_ascii_alphabetic() || *c == '_').take(30).collect();
			format!("{s}_{n}")
		},
		0 => format!("{}{n}", p.to_uppercase()),
		1 => format!("__{p}{n}_{}", "y".repeat(g.int(0, 300) as usize)),
		_ => format!("{p}{n}"),
	}
}

fn leaf(g: &mut Gen) -> Ty {
	match g.weighted(&[3, 3, 3, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1]) {
		0 => Int,
		1 => Str,
		2 => Long,
		3 => Bool,
		4 => Bytes,
		5 => Double,
		6 => Float,
		7 => Null,
		8 => Date,
		9 => TimeMillis,
		10 => TimeMicros,
		11 => StampMillis,
		12 => StampMicros,
		13 => Uuid,
		_ => {
			let p = g.int(1, 30);
			Decimal(p, g.int(0, p))
		},
	}
}

fn ty(g: &mut Gen, s: &mut Tg, depth: usize, in_union: bool) -> Ty {
	if depth == 0 {
		return leaf(g);
	}
	match g.weighted(&[7, 2, 2, if in_union { 0 } else { 3 }, 2, 1, 1, 2]) {
		0 => leaf(g),
		1 => Array(Box::new(ty(g, s, depth - 1, false))),
		2 => Map(Box::new(ty(g, s, depth - 1, false))),
		3 => {
			let mut v: Vec<Ty> = vec![];
			let n = g.usize(1, 4);
			let null_first = g.bool();
			if null_first {
				v.push(Null);
			}
			for k in 0..n {
				if k > 0 && !null_first && v.is_empty() {
					break;
				}
				let before = s.done.len();
				let t = ty(g, s, depth - 1, true);
				// one branch per kind of type; logical types count as their base type
				if !matches!(t, Union(_)) && !v.iter().any(|o| kind(o) == kind(&t)) {
					v.push(t);
				} else {
					s.done.truncate(before);
				}
			}
			if v.is_empty() {
				v.push(Int);
			}
			Union(v)
		},
		4 => record(g, s, depth - 1),
		5 => {
			let n = named(g, s, "F");
			s.done.push(n.clone());
			Fixed(n, g.int(0, 20) as usize)
		},
		6 => {
			let n = named(g, s, "E");
			s.done.push(n.clone());
			let k = g.usize(1, 6);
			Enum(n, (0..k).map(|i| ident(g, i)).collect())
		},
		_ => {
			if s.done.is_empty() {
				leaf(g)
			} else {
				let i = g.usize(0, s.done.len() - 1);
				Ref(s.done[i].clone())
			}
		},
	}
}
/// kind used to keep union branches distinct
fn kind(t: &Ty) -> String {
	match t {
		Fixed(n, _) | Enum(n, _) | Record(n, _) | Ref(n) => n.clone(),
		Array(_) => "[]".into(),
		Map(_) => "{}".into(),
		Int | Date | TimeMillis => "int".into(),
		Long | TimeMicros | StampMillis | StampMicros => "long".into(),
		Str | Uuid => "string".into(),
		Bytes | Decimal(..) => "bytes".into(),
		other => format!("{other:?}"),
	}
}
fn record(g: &mut Gen, s: &mut Tg, depth: usize) -> Ty {
	let name = named(g, s, "R");
	s.open.push(name.clone());
	let mut fields: Vec<(String, Ty)> = vec![];
	let max = if g.chance(1, 40) { g.usize(7, 70) } else { g.usize(0, 6) };
	let depth = if max > 6 { 0 } else { depth };
	for i in 0..max {
		g.begin();
		let mut fname = ident(g, i);
		if i > 0 && g.chance(1, 8) {
			// a name much like an earlier one
			let near: &str = &fields[g.usize(0, i - 1)].0;
			let near = match g.below(6) {
				0 => near.to_uppercase(),
				1 => near.to_lowercase(),
				2 => format!("{near}_"),
				3 => format!("_{near}"),
				4 => near.chars().rev().skip_while(|c| c.is_ascii_digit()).collect::<Vec<_>>().into_iter().rev().collect(),
				_ => near.trim_matches('_').to_string(),
			};
			let first = near.chars().next();
			if first.map_or(false, |c| c.is_ascii_alphabetic() || c == '_') && !fields.iter().any(|f| f.0 == near) {
				fname = near;
			}
		}
		if fields.iter().any(|f| f.0 == fname) {
			fname = format!("{fname}_x{i}x");
		}
		let t = if g.chance(1, 12) {
			// recursion through an optional or repeated field
			let r = Ref(name.clone());
			match g.below(3) {
				0 => Union(vec![Null, r]),
				1 => Array(Box::new(r)),
				_ => Map(Box::new(r)),
			}
		} else {
			ty(g, s, depth, false)
		};
		fields.push((fname, t));
		g.end();
	}
	s.open.pop();
	s.done.push(name.clone());
	Record(name, fields)
}
pub fn gen_record(g: &mut Gen) -> Ty {
	let mut s = Tg { n: 0, done: vec![], open: vec![], ns: g.chance(1, 4) };
	let d = g.usize(0, 3);
	record(g, &mut s, d)
}
pub fn gen_any(g: &mut Gen) -> Ty {
	let mut s = Tg { n: 0, done: vec![], open: vec![], ns: g.chance(1, 4) };
	let d = g.usize(0, 4);
	match g.below(4) {
		0 => ty(g, &mut s, d, false),
		1 => Array(Box::new(ty(g, &mut s, d, false))),
		2 => Map(Box::new(ty(g, &mut s, d, false))),
		_ => record(g, &mut s, d),
	}
}

// ------------------------------------------------------------------ spelling
fn ws(g: &mut Gen, fancy: bool) -> &'static str {
	if fancy {
		*g.pick(&["", " ", "\n", "\t", "  ", "\r\n"])
	} else {
		""
	}
}
fn obj(g: &mut Gen, fancy: bool, mut kv: Vec<(String, String)>) -> String {
	if fancy {
		// any attribute order
		for i in (1..kv.len()).rev() {
			let j = g.usize(0, i);
			kv.swap(i, j);
		}
	}
	let parts: Vec<String> = kv
		.into_iter()
		.map(|(k, v)| format!("{}\"{k}\"{}:{}{v}{}", ws(g, fancy), ws(g, fancy), ws(g, fancy), ws(g, fancy)))
		.collect();
	format!("{{{}}}", parts.join(","))
}
fn doc(g: &mut Gen, fancy: bool, kv: &mut Vec<(String, String)>) {
	if fancy && g.chance(1, 3) {
		let d = *g.pick(&["\"text\"", "\"quoted \\\" and \\\\ \"", "\"\"", "\"caf\\u00e9 \\n\""]);
		kv.push(("doc".into(), d.into()));
	}
	if fancy && g.chance(1, 30) {
		kv.push(("doc".into(), format!("\"{}\"", "long text ".repeat(g.int(1, 400) as usize))));
		if kv.iter().filter(|x| x.0 == "doc").count() > 1 {
			kv.pop();
		}
	}
}
/// The name attribute, or name and namespace apart.
fn name_attr(g: &mut Gen, fancy: bool, name: &str) -> Vec<(String, String)> {
	let q = |s: &str| format!("\"{s}\"");
	match name.rsplit_once('.') {
		Some((ns, n)) if fancy && g.bool() => vec![("name".into(), q(n)), ("namespace".into(), q(ns))],
		_ => vec![("name".into(), q(name))],
	}
}
fn alias(g: &mut Gen, fancy: bool, name: &str, kv: &mut Vec<(String, String)>) {
	if fancy && g.chance(1, 8) {
		kv.push(("aliases".into(), format!("[\"{name}Alias\"]")));
	}
}
fn simple(g: &mut Gen, fancy: bool, n: &str) -> String {
	if fancy && g.chance(1, 4) {
		obj(g, false, vec![("type".into(), format!("\"{n}\""))])
	} else {
		if fancy && g.chance(1, 20) {
			let first = n.as_bytes()[0];
			return format!("\"\\u{first:04x}{}\"", &n[1..]);
		}
		format!("\"{n}\"")
	}
}
fn logical(g: &mut Gen, fancy: bool, base: &str, l: &str) -> String {
	obj(g, fancy, vec![("type".into(), format!("\"{base}\"")), ("logicalType".into(), format!("\"{l}\""))])
}
/// JSON spelling of a type; `fancy` varies whitespace, attribute order and documentation.
pub fn spell(g: &mut Gen, t: &Ty, fancy: bool) -> String {
	let s = spell_in(g, t, fancy);
	let (a, b) = (ws(g, fancy), ws(g, fancy));
	format!("{a}{s}{b}")
}
fn spell_in(g: &mut Gen, t: &Ty, fancy: bool) -> String {
	let q = |s: &str| format!("\"{s}\"");
	let kv = |k: &str, v: String| (k.to_string(), v);
	match t {
		Null => simple(g, fancy, "null"),
		Bool => simple(g, fancy, "boolean"),
		Int => simple(g, fancy, "int"),
		Long => simple(g, fancy, "long"),
		Float => simple(g, fancy, "float"),
		Double => simple(g, fancy, "double"),
		Bytes => simple(g, fancy, "bytes"),
		Str => simple(g, fancy, "string"),
		Date => logical(g, fancy, "int", "date"),
		TimeMillis => logical(g, fancy, "int", "time-millis"),
		TimeMicros => logical(g, fancy, "long", "time-micros"),
		StampMillis => logical(g, fancy, "long", "timestamp-millis"),
		StampMicros => logical(g, fancy, "long", "timestamp-micros"),
		Uuid => logical(g, fancy, "string", "uuid"),
		Decimal(p, s) => obj(
			g,
			fancy,
			vec![
				kv("type", q("bytes")),
				kv("logicalType", q("decimal")),
				kv("precision", p.to_string()),
				kv("scale", s.to_string()),
			],
		),
		Fixed(n, s) => {
			let mut a = vec![kv("type", q("fixed")), kv("size", s.to_string())];
			a.splice(1..1, name_attr(g, fancy, n));
			doc(g, fancy, &mut a);
			alias(g, fancy, n, &mut a);
			obj(g, fancy, a)
		},
		Enum(n, s) => {
			let v: Vec<String> = s.iter().map(|x| q(x)).collect();
			let mut a = vec![kv("type", q("enum")), kv("symbols", format!("[{}{}]", v.join(","), ws(g, fancy)))];
			a.splice(1..1, name_attr(g, fancy, n));
			doc(g, fancy, &mut a);
			alias(g, fancy, n, &mut a);
			obj(g, fancy, a)
		},
		Array(x) => {
			let i = spell_in(g, x, fancy);
			obj(g, fancy, vec![kv("type", q("array")), kv("items", i)])
		},
		Map(x) => {
			let i = spell_in(g, x, fancy);
			obj(g, fancy, vec![kv("type", q("map")), kv("values", i)])
		},
		Union(v) => {
			let p: Vec<String> = v.iter().map(|x| spell_in(g, x, fancy) + ws(g, fancy)).collect();
			format!("[{}]", p.join(","))
		},
		Record(n, fs) => {
			let p: Vec<String> = fs
				.iter()
				.map(|(fname, ft)| {
					let s = spell_in(g, ft, fancy);
					let mut a = vec![kv("name", q(fname)), kv("type", s)];
					doc(g, fancy, &mut a);
					if fancy && g.chance(1, 10) {
						a.push(kv("order", q(*g.pick(&["ascending", "descending", "ignore"]))));
					}
					if fancy && g.chance(1, 6) {
						match ft {
							Int | Long => a.push(kv("default", "7".into())),
							Str => a.push(kv("default", q("x"))),
							Bool => a.push(kv("default", "true".into())),
							_ => {},
						}
					}
					obj(g, fancy, a)
				})
				.collect();
			let mut a = vec![kv("type", q("record")), kv("fields", format!("[{}{}]", p.join(","), ws(g, fancy)))];
			a.splice(1..1, name_attr(g, fancy, n));
			doc(g, fancy, &mut a);
			alias(g, fancy, n, &mut a);
			obj(g, fancy, a)
		},
		Ref(n) => q(n),
	}
}

/// Reads a type back from schema JSON (independent of the library under test).
pub fn read_type(v: &serde_json::Value) -> Option<Ty> {
	use serde_json::Value as J;
	Some(match v {
		J::String(s) => match s.as_str() {
			"null" => Null,
			"boolean" => Bool,
			"int" => Int,
			"long" => Long,
			"float" => Float,
			"double" => Double,
			"bytes" => Bytes,
			"string" => Str,
			n => Ref(n.to_string()),
		},
		J::Array(a) => Union(a.iter().map(read_type).collect::<Option<_>>()?),
		J::Object(o) => {
			if let Some(l) = o.get("logicalType").and_then(|x| x.as_str()) {
				return Some(match l {
					"date" => Date,
					"time-millis" => TimeMillis,
					"time-micros" => TimeMicros,
					"timestamp-millis" => StampMillis,
					"timestamp-micros" => StampMicros,
					"uuid" => Uuid,
					"decimal" => Decimal(o.get("precision")?.as_u64()?, o.get("scale").map_or(Some(0), |x| x.as_u64())?),
					_ => return None,
				});
			}
			let name = || o.get("name").and_then(|x| x.as_str()).map(|s| s.to_string());
			match o.get("type")? {
				J::String(s) => match s.as_str() {
					"fixed" => Fixed(name()?, o.get("size")?.as_u64()? as usize),
					"enum" => Enum(
						name()?,
						o.get("symbols")?.as_array()?.iter().map(|x| x.as_str().map(|s| s.to_string())).collect::<Option<_>>()?,
					),
					"array" => Array(Box::new(read_type(o.get("items")?)?)),
					"map" => Map(Box::new(read_type(o.get("values")?)?)),
					"record" => Record(
						name()?,
						o.get("fields")?
							.as_array()?
							.iter()
							.map(|f| Some((f.get("name")?.as_str()?.to_string(), read_type(f.get("type")?)?)))
							.collect::<Option<_>>()?,
					),
					_ => read_type(&J::String(s.clone()))?,
				},
				x => read_type(x)?,
			}
		},
		_ => return None,
	})
}

// ------------------------------------------------------------------ values
fn text(g: &mut Gen) -> String {
	match g.weighted(&[4, 4, 2, 1, 24, 2]) {
		5 => g.dict_str(),
		0 => String::new(),
		1 => "x".repeat(g.int(0, 300) as usize),
		2 => g.pick(&[" ", "  a ", "\n", "\0", "a\0", "\u{feff}x", "\"", "\\", "null", "0", "e\u{301}", "\u{e9}", "\r\n"]).to_string(),
		3 => {
			let c = *g.pick(&['x', 'é', '日']);
			c.to_string().repeat(g.int(0, 70_000) as usize)
		},
		_ => g.list(20, 5, |g| match g.below(4) {
			0 => char::from_u32(g.int(0x80, 0xD7FF) as u32).unwrap_or('a'),
			1 => char::from_u32(g.int(0x10000, 0x10FFFF) as u32).unwrap_or('a'),
			2 => char::from_u32(g.int(0, 0x1F) as u32).unwrap_or('a'),
			_ => g.int(0x20, 0x7E) as u8 as char,
		})
		.into_iter()
		.collect(),
	}
}
pub fn gen_value(g: &mut Gen, t: &Ty, names: &Names, depth: usize) -> Value {
	let i32v = |g: &mut Gen| g.int(0, u32::MAX as u64) as u32 as i32;
	let i64v = |g: &mut Gen| g.int(0, u64::MAX) as i64;
	match t {
		Null => Value::Null,
		Bool => Value::Boolean(g.bool()),
		Int => Value::Int(i32v(g)),
		Date => Value::Date(i32v(g)),
		TimeMillis => Value::TimeMillis(i32v(g)),
		Long => Value::Long(i64v(g)),
		TimeMicros => Value::TimeMicros(i64v(g)),
		StampMillis => Value::TimestampMillis(i64v(g)),
		StampMicros => Value::TimestampMicros(i64v(g)),
		Float => Value::Float(f32::from_bits(g.int(0, u32::MAX as u64) as u32)),
		Double => Value::Double(f64::from_bits(g.int(0, u64::MAX))),
		Bytes =>
			if g.chance(1, 20) {
				let b = g.byte();
				Value::Bytes(vec![b; g.int(0, 140_000) as usize])
			} else {
				Value::Bytes(g.bytes(0, 40))
			},
		Str => Value::String(text(g)),
		Uuid => {
			let b = [g.below(0), g.below(0)];
			Value::Uuid(uuid::Uuid::from_u64_pair(b[0], b[1]))
		},
		Decimal(..) => Value::Decimal(apache_avro::Decimal::from(g.bytes(1, 20))),
		Fixed(_, n) => Value::Fixed(*n, (0..*n).map(|_| g.byte()).collect()),
		Enum(_, s) => {
			let i = g.usize(0, s.len() - 1);
			Value::Enum(i as u32, s[i].clone())
		},
		Array(x) => {
			let n = if depth == 0 { 0 } else if g.chance(1, 30) { g.int(0, 200) as usize } else { g.usize(0, 5) };
			let depth = if n > 5 { 1 } else { depth };
			Value::Array((0..n).map(|_| gen_value(g, x, names, depth - 1)).collect())
		},
		Map(x) => {
			let n = if depth == 0 { 0 } else if g.chance(1, 30) { g.int(0, 80) as usize } else { g.usize(0, 5) };
			let depth = if n > 5 { 1 } else { depth };
			Value::Map((0..n).map(|_| (text(g), gen_value(g, x, names, depth - 1))).collect())
		},
		Union(v) => {
			let i = if depth == 0 { 0 } else { g.usize(0, v.len() - 1) };
			Value::Union(i as u32, Box::new(gen_value(g, &v[i], names, depth.saturating_sub(1))))
		},
		Record(_, fs) =>
			Value::Record(fs.iter().map(|(n, x)| (n.clone(), gen_value(g, x, names, depth.saturating_sub(1)))).collect()),
		Ref(n) => gen_value(g, &names.0[n], names, depth),
	}
}
/// Value equality with NaNs of the same bits identified.
pub fn same(a: &Value, b: &Value) -> bool {
	match (a, b) {
		(Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
		(Value::Double(x), Value::Double(y)) => x.to_bits() == y.to_bits(),
		(Value::Union(i, x), Value::Union(j, y)) => i == j && same(x, y),
		(Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
		(Value::Map(x), Value::Map(y)) => same_map(x, y),
		(Value::Record(x), Value::Record(y)) =>
			x.len() == y.len() && x.iter().zip(y).all(|((n, p), (m, q))| n == m && same(p, q)),
		_ => a == b,
	}
}
pub fn same_map(x: &HashMap<String, Value>, y: &HashMap<String, Value>) -> bool {
	x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w)))
}

// ------------------------------------------------------------------ independent codec
fn zig(n: i64, out: &mut Vec<u8>) {
	let mut z = ((n << 1) ^ (n >> 63)) as u64;
	while z > 0x7f {
		out.push(z as u8 | 0x80);
		z >>= 7;
	}
	out.push(z as u8);
}
pub fn encode(v: &Value, out: &mut Vec<u8>) {
	match v {
		Value::Null => {},
		Value::Boolean(b) => out.push(*b as u8),
		Value::Int(i) | Value::Date(i) | Value::TimeMillis(i) => zig(*i as i64, out),
		Value::Long(i) | Value::TimeMicros(i) | Value::TimestampMillis(i) | Value::TimestampMicros(i) => zig(*i, out),
		Value::Float(x) => out.extend(x.to_bits().to_le_bytes()),
		Value::Double(x) => out.extend(x.to_bits().to_le_bytes()),
		Value::Bytes(b) => {
			zig(b.len() as i64, out);
			out.extend(b);
		},
		Value::String(s) => {
			zig(s.len() as i64, out);
			out.extend(s.as_bytes());
		},
		Value::Uuid(u) => {
			let s = u.as_hyphenated().to_string();
			zig(s.len() as i64, out);
			out.extend(s.as_bytes());
		},
		Value::Decimal(d) => {
			let b: Vec<u8> = <Vec<u8>>::try_from(d).unwrap_or_default();
			zig(b.len() as i64, out);
			out.extend(b);
		},
		Value::Fixed(_, b) => out.extend(b),
		Value::Enum(i, _) => zig(*i as i64, out),
		Value::Union(i, x) => {
			zig(*i as i64, out);
			encode(x, out);
		},
		Value::Array(x) => {
			if !x.is_empty() {
				zig(x.len() as i64, out);
				x.iter().for_each(|y| encode(y, out));
			}
			out.push(0);
		},
		Value::Map(x) => {
			if !x.is_empty() {
				zig(x.len() as i64, out);
				for (k, y) in x {
					zig(k.len() as i64, out);
					out.extend(k.as_bytes());
					encode(y, out);
				}
			}
			out.push(0);
		},
		Value::Record(fs) => fs.iter().for_each(|(_, y)| encode(y, out)),
		_ => {},
	}
}

pub const MAX_DEPTH: usize = 256;
/// Why the reference decoder gave up.
#[derive(Debug, PartialEq)]
pub enum Bad {
	/// the payload ends inside a value
	Short,
	/// malformed in another way
	Malformed,
	/// an enum position one past the last symbol (recorded finding)
	EnumEnd,
	/// nested deeper than the reference decoder follows (recorded finding)
	Deep,
	/// outside of what the reference decoder judges (huge counts)
	Unknown,
}
pub struct Dec<'a> {
	pub b: &'a [u8],
	pub at: usize,
	/// reproduce the recorded finding: a boolean, string or union cut off at the end reads as null
	pub null_at_end: bool,
	pub used_quirk: bool,
	pub names: &'a Names,
	pub limit: u64,
	pub depth: usize,
}
impl Dec<'_> {
	fn take(&mut self, n: usize) -> Result<&[u8], Bad> {
		if self.b.len() - self.at < n {
			return Err(Bad::Short);
		}
		self.at += n;
		Ok(&self.b[self.at - n..self.at])
	}
	fn long(&mut self) -> Result<i64, Bad> {
		let mut z = 0u64;
		for j in 0..11 {
			if j > 9 {
				return Err(Bad::Malformed);
			}
			let c = self.take(1)?[0];
			if j == 9 && c & 0x7f > 1 {
				return Err(Bad::Unknown); // more than 64 bits
			}
			z |= ((c & 0x7f) as u64) << (7 * j);
			if c & 0x80 == 0 {
				break;
			}
		}
		Ok(((z >> 1) as i64) ^ -((z & 1) as i64))
	}
	fn int(&mut self) -> Result<i32, Bad> {
		i32::try_from(self.long()?).map_err(|_| Bad::Malformed)
	}
	fn len(&mut self) -> Result<usize, Bad> {
		let n = self.long()?;
		if n < 0 {
			return Err(Bad::Malformed);
		}
		if n as u64 > self.limit {
			return Err(Bad::Malformed);
		}
		Ok(n as usize)
	}
	fn string(&mut self) -> Result<Value, Bad> {
		let n = self.len()?;
		if self.b.len() - self.at < n {
			if self.null_at_end {
				// the cursor does not move
				self.used_quirk = true;
				return Ok(Value::Null);
			}
			return Err(Bad::Short);
		}
		let s = self.take(n)?.to_vec();
		String::from_utf8(s).map(Value::String).map_err(|_| Bad::Malformed)
	}
	fn block(&mut self) -> Result<usize, Bad> {
		let n = self.long()?;
		let n = if n < 0 {
			self.long()?;
			n.checked_neg().ok_or(Bad::Malformed)?
		} else {
			n
		};
		if n as u64 > self.limit {
			return Err(Bad::Malformed);
		}
		Ok(n as usize)
	}
	pub fn value(&mut self, t: &Ty) -> Result<Value, Bad> {
		if self.depth >= MAX_DEPTH {
			return Err(Bad::Deep);
		}
		self.depth += 1;
		let r = self.value_in(t);
		self.depth -= 1;
		r
	}
	fn value_in(&mut self, t: &Ty) -> Result<Value, Bad> {
		Ok(match t {
			Null => Value::Null,
			Bool => match self.take(1).map(|x| x[0]) {
				Ok(x) => match x {
					0 => Value::Boolean(false),
					1 => Value::Boolean(true),
					_ => return Err(Bad::Malformed),
				},
				Err(_) if self.null_at_end => {
					self.used_quirk = true;
					Value::Null
				},
				Err(e) => return Err(e),
			},
			Int => Value::Int(self.int()?),
			Date => Value::Date(self.int()?),
			TimeMillis => Value::TimeMillis(self.int()?),
			Long => Value::Long(self.long()?),
			TimeMicros => Value::TimeMicros(self.long()?),
			StampMillis => Value::TimestampMillis(self.long()?),
			StampMicros => Value::TimestampMicros(self.long()?),
			Float => Value::Float(f32::from_bits(u32::from_le_bytes(self.take(4)?.try_into().map_err(|_| Bad::Short)?))),
			Double => Value::Double(f64::from_bits(u64::from_le_bytes(self.take(8)?.try_into().map_err(|_| Bad::Short)?))),
			Bytes => {
				let n = self.len()?;
				Value::Bytes(self.take(n)?.to_vec())
			},
			Str => self.string()?,
			Uuid => match self.string()? {
				Value::String(s) => Value::Uuid(uuid::Uuid::parse_str(&s).map_err(|_| Bad::Malformed)?),
				_ => return Err(Bad::Short),
			},
			Decimal(..) => {
				let n = self.len()?;
				Value::Decimal(apache_avro::Decimal::from(self.take(n)?.to_vec()))
			},
			Fixed(_, n) => Value::Fixed(*n, self.take(*n)?.to_vec()),
			Enum(_, s) => {
				let i = self.int()?;
				if i as usize == s.len() {
					return Err(Bad::EnumEnd);
				}
				match usize::try_from(i).ok().and_then(|i| s.get(i)) {
					Some(x) => Value::Enum(i as u32, x.clone()),
					None => return Err(Bad::Malformed),
				}
			},
			Array(x) => {
				let mut out = vec![];
				loop {
					let n = self.block()?;
					if n == 0 {
						break Value::Array(out);
					}
					for _ in 0..n {
						out.push(self.value(x)?);
					}
				}
			},
			Map(x) => {
				let mut out = HashMap::new();
				loop {
					let n = self.block()?;
					if n == 0 {
						break Value::Map(out);
					}
					for _ in 0..n {
						let k = match self.string()? {
							Value::String(s) => s,
							_ => return Err(Bad::Short),
						};
						let v = self.value(x)?;
						out.insert(k, v);
					}
				}
			},
			Union(v) => {
				let i = match self.long() {
					Ok(i) => i,
					Err(Bad::Short) if self.null_at_end => {
						self.used_quirk = true;
						self.at = self.b.len();
						return Ok(Value::Union(0, Box::new(Value::Null)));
					},
					Err(e) => return Err(e),
				};
				let x = usize::try_from(i).ok().and_then(|i| v.get(i)).ok_or(Bad::Malformed)?;
				Value::Union(i as u32, Box::new(self.value(x)?))
			},
			Record(_, fs) => {
				let mut out = vec![];
				for (n, x) in fs {
					out.push((n.clone(), self.value(x)?));
				}
				Value::Record(out)
			},
			Ref(n) => {
				let t = self.names.0.get(n).ok_or(Bad::Malformed)?;
				self.value(t)?
			},
		})
	}
}
pub fn decode(b: &[u8], t: &Ty, names: &Names, null_at_end: bool, limit: u64) -> (Result<Value, Bad>, usize, bool) {
	let mut d = Dec { b, at: 0, null_at_end, used_quirk: false, names, limit, depth: 0 };
	let r = d.value(t);
	(r, d.at, d.used_quirk)
}
