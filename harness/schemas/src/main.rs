//! S01, S02, S03: histories of schema registrations against a reference registry.
use engine::{aspect, check, check_eq, enumerated, Gen, Property, R};
use std::collections::{BTreeMap, BTreeSet};
use world::common_primitives::node::AccountId;
use world::common_primitives::schema::{ModelType, PayloadLocation, SchemaProvider, SchemaSetting, SchemaValidator};
use world::frame_support::BoundedVec;
use world::*;

type Call = pallet_schemas::Call<Runtime>;
type CouncilCall = world::pallet_collective::Call<Runtime, world::Instance1>;

// ---- generated models, with their verdict known by construction ---------------------------------

fn json_string(g: &mut Gen) -> String {
	let n = g.usize(0, 6);
	let s: String = (0..n).map(|_| *g.pick(&["a", "Z", "0", " ", "é", "\\n", "\\u0041", "\\\"", "{", "]", "中"])).collect();
	format!("\"{s}\"")
}
fn json_value(g: &mut Gen, depth: usize) -> String {
	match g.weighted(&[4, 4, 2, if depth == 0 { 0 } else { 2 }, if depth == 0 { 0 } else { 3 }]) {
		0 => json_string(g),
		1 => g.pick(&["0", "1", "-7", "3.25", "1e3", "18446744073709551615"]).to_string(),
		2 => g.pick(&["true", "false", "null"]).to_string(),
		3 => {
			let n = g.usize(0, 3);
			let v: Vec<_> = (0..n).map(|_| json_value(g, depth - 1)).collect();
			format!("[{}]", v.join(","))
		},
		_ => json_object(g, depth - 1),
	}
}
fn json_object(g: &mut Gen, depth: usize) -> String {
	let n = g.usize(0, 4);
	let v: Vec<_> = (0..n)
		.map(|i| {
			let k = if g.bool() { g.pick(&["\"type\"", "\"name\"", "\"fields\"", "\"doc\""]).to_string() } else { format!("\"k{i}\"") };
			format!("{k}:{}", json_value(g, depth))
		})
		.collect();
	format!("{{{}}}", v.join(","))
}
const TYPES: [&str; 18] = [
	"\"BOOLEAN\"", "\"INT32\"", "\"INT64\"", "\"FLOAT\"", "\"DOUBLE\"", "\"BYTE_ARRAY\"", "\"FIXED_LEN_BYTE_ARRAY\"", "\"STRING\"", "\"UUID\"", "\"DATE\"", "\"INTERVAL\"",
	"{\"INTEGER\":{\"bit_width\":32,\"sign\":true}}", "{\"INTEGER\":{\"bit_width\":8,\"sign\":false}}", "{\"DECIMAL\":{\"scale\":2,\"precision\":9}}",
	"{\"TIME\":{\"is_adjusted_to_utc\":true,\"unit\":\"MILLIS\"}}", "{\"TIME\":{\"is_adjusted_to_utc\":false,\"unit\":\"MICROS\"}}",
	"{\"TIMESTAMP\":{\"is_adjusted_to_utc\":false,\"unit\":\"MICROS\"}}", "{\"TIMESTAMP\":{\"unit\":\"NANOS\",\"is_adjusted_to_utc\":true}}",
];
const BAD_TYPES: [&str; 10] = [
	"\"INT16\"", "\"boolean\"", "7", "null", "{\"INTEGER\":{\"bit_width\":256,\"sign\":true}}", "{\"INTEGER\":{\"bit_width\":32}}", "{\"DECIMAL\":{\"scale\":2}}",
	"{\"TIME\":{\"is_adjusted_to_utc\":true,\"unit\":\"SECONDS\"}}", "{\"STRING\":{}}", "true",
];
fn column(g: &mut Gen) -> [String; 4] {
	[
		format!("\"name\":{}", json_string(g)),
		format!("\"column_type\":{}", g.pick(&TYPES)),
		format!("\"compression\":{}", g.pick(&["\"UNCOMPRESSED\"", "\"SNAPPY\"", "\"GZIP\"", "\"LZO\"", "\"BROTLI\"", "\"LZ4_RAW\""])),
		format!("\"bloom_filter\":{}", g.pick(&["true", "false"])),
	]
}
struct Model {
	text: Vec<u8>,
	/// accepted as an object / as a column list
	avro: bool,
	parquet: bool,
}
fn gen_model(g: &mut Gen, min: usize, max: usize) -> Model {
	let (mut text, mut avro, mut parquet) = match g.weighted(&[8, 6, 2, 2]) {
		0 => (json_object(g, 2), true, false),
		1 => {
			let n = g.usize(0, 3);
			let damage = g.chance(1, 3) && n > 0;
			let at = if damage { g.usize(0, n - 1) } else { n };
			let cols: Vec<String> = (0..n)
				.map(|i| {
					let mut c: Vec<String> = column(g).to_vec();
					if i == at {
						match g.below(7) {
							0..=1 => {
								let k = g.usize(0, 3);
								c.remove(k);
							},
							2 => c[1] = format!("\"column_type\":{}", g.pick(&BAD_TYPES)),
							3 => c[2] = format!("\"compression\":{}", g.pick(&["\"ZIP\"", "1", "null", "\"gzip\""])),
							4 => c[3] = format!("\"bloom_filter\":{}", g.pick(&["0", "\"true\"", "null"])),
							5 => c[0] = format!("\"name\":{}", g.pick(&["7", "null", "[]"])),
							_ => return g.pick(&["7", "null", "\"x\"", "{}"]).to_string(),
						}
					} else {
						if g.chance(1, 6) {
							c.push("\"extra\":1".into());
						}
						let k = g.usize(0, c.len() - 1);
						c.rotate_left(k);
					}
					format!("{{{}}}", c.join(","))
				})
				.collect();
			(format!("[{}]", cols.join(",")), false, !damage)
		},
		2 => (g.pick(&["null", "true", "12", "\"text\"", "[1,2,3]", "[null]", "[\"BOOLEAN\"]"]).to_string(), false, false),
		_ => {
			let n = g.usize(0, 12);
			// never well formed: it starts with a separator
			(format!(",{}", (0..n).map(|_| *g.pick(&["{", "}", "[", "]", "\"", ":", ",", "1", "a"])).collect::<String>()), false, false)
		},
	};
	let mut text = text.into_bytes();
	match g.weighted(&[10, 1, 1, 1]) {
		0 => {},
		1 => {
			// cut short
			let trimmed = matches!(text.last(), Some(b'}' | b']'));
			if trimmed {
				text.pop();
				avro = false;
				parquet = false;
			}
		},
		2 => {
			text.extend_from_slice(*g.pick(&[b"x".as_slice(), b"{}", b",", b"\0", b"]"]));
			avro = false;
			parquet = false;
		},
		_ => {
			text.insert(0, *g.pick(&[b'\xff', b'\xc3', 0]));
			avro = false;
			parquet = false;
		},
	}
	// white space up to one of the limits
	if g.chance(1, 3) {
		let mut want = *g.pick(&[min.saturating_sub(1), min, min + 1, max.saturating_sub(1), max, max + 1]);
		want = want.min(3000);
		while text.len() < want {
			text.push(*g.pick(&[b' ', b'\n', b'\t']));
		}
	}
	Model { text, avro, parquet }
}

// ---- names ---------------------------------------------------------------------------------------

/// Namespace and descriptor a name stands for.
fn parse(name: &[u8], need_descriptor: bool) -> Option<(String, Option<String>)> {
	if name.len() > 32 || !name.iter().all(|b| *b < 0x80) {
		return None;
	}
	let s: String = name.iter().map(|b| b.to_ascii_lowercase() as char).collect();
	let s = s.trim_matches(|c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0b' | '\x0c'));
	let part = |p: &str, lo: usize, hi: usize| (lo..=hi).contains(&p.len()) && p.bytes().all(|b| b.is_ascii_lowercase() || b == b'-') && !p.starts_with('-') && !p.ends_with('-');
	match s.find('.') {
		None => (!need_descriptor && part(s, 3, 30)).then(|| (s.to_string(), None)),
		Some(i) => {
			let (a, b) = (&s[..i], &s[i + 1..]);
			(part(a, 3, 30) && part(b, 1, 28)).then(|| (a.to_string(), Some(b.to_string())))
		},
	}
}
fn gen_name(g: &mut Gen, used: &[Vec<u8>]) -> Vec<u8> {
	if g.chance(1, 8) {
		let n = g.usize(0, 32);
		return (0..n).map(|_| *g.pick(&[b'a', b'B', b'-', b'.', b' ', b'1', b'_', 0x80, b'\n'])).collect();
	}
	if !used.is_empty() && g.chance(1, 4) {
		let v = g.len_pick(used);
		return case_variant(g, v);
	}
	let ns = g.pick(&["dsnp", "ab", "abc", "a-b", "-ab", "ab-", "namespace", "abcdefghijklmnopqrstuvwxyzabcd", "abcdefghijklmnopqrstuvwxyzabcde", "dsn", "dsnpx"]).to_string();
	let ds = g.pick(&["update", "u", "", "a-b", "-u", "u-", "profile", "abcdefghijklmnopqrstuvwxyzab", "abcdefghijklmnopqrstuvwxyzabc", "up", "updatex", "x.y"]).to_string();
	let s = match g.weighted(&[9, 1, 1]) {
		0 => format!("{ns}.{ds}"),
		1 => ns,
		_ => format!(" {ns}.{ds} "),
	};
	let v = case_variant(g, s.into_bytes());
	v.into_iter().take(32).collect()
}
trait LenPick {
	fn len_pick(&mut self, xs: &[Vec<u8>]) -> Vec<u8>;
}
impl LenPick for Gen {
	fn len_pick(&mut self, xs: &[Vec<u8>]) -> Vec<u8> {
		xs[self.usize(0, xs.len() - 1)].clone()
	}
}
fn case_variant(g: &mut Gen, mut v: Vec<u8>) -> Vec<u8> {
	if g.chance(1, 3) && !v.is_empty() {
		for _ in 0..g.usize(1, 3) {
			let i = g.usize(0, v.len() - 1);
			v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
		}
	}
	v
}

// ---- the reference registry ------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct Entry {
	text: Vec<u8>,
	kind: ModelType,
	loc: PayloadLocation,
	/// in the fixed order of the settings
	settings: Vec<SchemaSetting>,
}
#[derive(Default)]
struct Registry {
	last: u16,
	entries: BTreeMap<u16, Entry>,
	names: BTreeMap<(String, String), Vec<u16>>,
	named: BTreeSet<u16>,
	max: u32,
}
#[derive(Clone)]
struct Request {
	model: Model0,
	kind: ModelType,
	loc: PayloadLocation,
	settings: Vec<SchemaSetting>,
	name: Option<Vec<u8>>,
}
#[derive(Clone)]
struct Model0 {
	text: Vec<u8>,
	fits: bool,
}
fn ordered(s: &[SchemaSetting]) -> Vec<SchemaSetting> {
	[SchemaSetting::AppendOnly, SchemaSetting::SignatureRequired].into_iter().filter(|x| s.contains(x)).collect()
}
impl Registry {
	fn may_register(&self, r: &Request) -> bool {
		let n = r.model.text.len();
		let name_ok = match &r.name {
			None => true,
			Some(n) => match parse(n, true) {
				Some((a, Some(b))) => self.names.get(&(a, b)).map_or(0, Vec::len) < 254,
				_ => false,
			},
		};
		r.model.fits &&
			n >= MinSchemaModelSize::get() as usize &&
			n <= self.max as usize &&
			(!r.settings.contains(&SchemaSetting::AppendOnly) || r.loc == PayloadLocation::Itemized) &&
			self.last < u16::MAX &&
			name_ok
	}
	fn register(&mut self, r: &Request) -> u16 {
		self.last += 1;
		self.entries.insert(self.last, Entry { text: r.model.text.clone(), kind: r.kind, loc: r.loc, settings: ordered(&r.settings) });
		if let Some(n) = &r.name {
			self.name(self.last, n);
		}
		self.last
	}
	fn may_name(&self, id: u16, name: &[u8]) -> bool {
		self.entries.contains_key(&id) &&
			!self.named.contains(&id) &&
			matches!(parse(name, true), Some((a, Some(b))) if self.names.get(&(a.clone(), b.clone())).map_or(0, Vec::len) < 254)
	}
	fn name(&mut self, id: u16, name: &[u8]) {
		let (a, b) = parse(name, true).expect("a well-formed name");
		self.names.entry((a, b.expect("a descriptor"))).or_default().push(id);
		self.named.insert(id);
	}
	/// Everything the pallet answers about one number.
	fn agrees_on(&self, id: u16) -> R {
		let want = self.entries.get(&id);
		let got = <Schemas as SchemaProvider<u16>>::get_schema_by_id(id);
		let got = got.map(|s| {
			let e = Entry { text: s.model.clone(), kind: s.model_type, loc: s.payload_location, settings: s.settings.clone() };
			(s.schema_id, e)
		});
		check_eq!(got, want.map(|e| (id, e.clone())), "schema {id} reads back");
		let info = <Schemas as SchemaProvider<u16>>::get_schema_info_by_id(id).map(|s| (s.schema_id, s.model_type, s.payload_location, s.settings));
		check_eq!(info, want.map(|e| (id, e.kind, e.loc, e.settings.clone())), "settings of schema {id}");
		check_eq!(Schemas::are_all_schema_ids_valid(&vec![id]), (1..=self.last).contains(&id), "is number {id} issued");
		Ok(())
	}
	fn agrees(&self) -> R {
		check_eq!(Schemas::get_current_schema_identifier_maximum(), self.last, "highest schema number");
		for id in self.entries.keys() {
			self.agrees_on(*id)?;
		}
		for id in [0, self.last.saturating_add(1), self.last.saturating_add(2), u16::MAX] {
			if !self.entries.contains_key(&id) {
				self.agrees_on(id)?;
			}
		}
		Ok(())
	}
	fn names_agree(&self, query: &[u8]) -> R {
		let got = Schemas::get_schema_versions(query.to_vec());
		let show = String::from_utf8_lossy(query).into_owned();
		let mut want: Option<BTreeMap<Vec<u8>, Vec<(u8, u16)>>> = None;
		if let Some((ns, ds)) = parse(query, false) {
			let mut m = BTreeMap::new();
			for ((a, b), ids) in &self.names {
				if *a == ns && ds.as_ref().map_or(true, |d| d == b) {
					m.insert(format!("{a}.{b}").into_bytes(), ids.iter().enumerate().map(|(i, id)| ((i + 1) as u8, *id)).collect());
				}
			}
			want = Some(m);
		}
		let got = got.map(|v| {
			let mut m: BTreeMap<Vec<u8>, Vec<(u8, u16)>> = BTreeMap::new();
			for r in v {
				m.entry(r.schema_name).or_default().push((r.schema_version, r.schema_id));
			}
			m
		});
		check_eq!(got, want, "versions of {show:?}");
		Ok(())
	}
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Numbers,
	Names,
	Limits,
}

fn gen_request(g: &mut Gen, f: Focus, reg: &Registry, used: &[Vec<u8>]) -> Request {
	let kind = if g.chance(2, 5) { ModelType::Parquet } else { ModelType::AvroBinary };
	let m = if f == Focus::Names && g.chance(3, 4) {
		Model { text: if kind == ModelType::Parquet { b"[          ]".to_vec() } else { b"{\"a\": 123}".to_vec() }, avro: kind == ModelType::AvroBinary, parquet: kind == ModelType::Parquet }
	} else {
		gen_model(g, MinSchemaModelSize::get() as usize, reg.max as usize)
	};
	let loc = *g.pick(&[PayloadLocation::Itemized, PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Paginated, PayloadLocation::Itemized]);
	let n = g.weighted(&[6, 3, 1]);
	let settings = (0..n).map(|_| if g.chance(2, 5) { SchemaSetting::AppendOnly } else { SchemaSetting::SignatureRequired }).collect();
	let name = g.chance(if f == Focus::Names { 4 } else { 1 }, 5).then(|| gen_name(g, used));
	let fits = match kind {
		ModelType::AvroBinary => m.avro,
		ModelType::Parquet => m.parquet,
	};
	Request { model: Model0 { text: m.text, fits }, kind, loc, settings, name }
}
macro_rules! bounded {
	($v:expr) => {
		BoundedVec::try_from($v).map_err(|_| "a list longer than its limit".to_string())?
	};
}

fn history(g: &mut Gen, f: Focus) -> R {
	reset_knobs();
	let main = g.chance(1, 5);
	FilterKind::set(if main { 1 } else { 0 });
	MinSchemaModelSize::set(*g.pick(&[8, 2, 3, 30]));
	MaxSchemaBytesLimit::set(*g.pick(&[65_500, 200, 2000]));
	if f == Focus::Limits && g.chance(1, 4) {
		MinSchemaModelSize::set(g.int(0, 40) as u32);
		MaxSchemaBytesLimit::set(g.int(20, 300) as u32);
	}
	let keys: Vec<Key> = (0..4).map(key).collect();
	let balances: Vec<_> = keys.iter().map(|k| (k.id.clone(), 1_000_000u64.into())).collect();
	let members = g.usize(1, 4);
	let mut reg = Registry::default();
	let mut used: Vec<Vec<u8>> = vec![];
	let (mut registered, mut named, mut refused) = (0u32, 0u32, 0u32);
	let limit = MaxSchemaBytesLimit::get();
	let r = chain(&balances, || -> R {
		let new_members: Vec<AccountId> = keys[..members].iter().map(|k| k.id.clone()).collect();
		<Council as world::frame_support::traits::ChangeMembers<AccountId>>::change_members_sorted(&[], &[], &new_members);
		reg.max = Schemas::get_schema_model_max_bytes();
		if g.chance(1, 12) {
			let n = *g.pick(&[u16::MAX - 2, u16::MAX - 1, u16::MAX, 254, 255, 256]);
			Schemas::set_schema_count(n);
			reg.last = n;
		}
		let first = (*g.pick(&[1024, 1024, 4000, 200])).min(limit);
		check!(call_root(Call::set_max_schema_model_bytes { max_size: first }).is_ok(), "governance cannot set the size limit {first} of {limit}");
		reg.max = first;
		g.steps(24, |g, _| {
			let who = g.usize(0, 3);
			let before = state();
			let at = event_count();
			match g.weighted(&[30, 10, 10, if f == Focus::Names { 12 } else { 3 }, if f == Focus::Limits { 6 } else { 2 }, 1]) {
				// direct registration
				0 => {
					let mut r = gen_request(g, f, &reg, &used);
					let v = g.weighted(&[1, 2, 5]);
					if v < 2 {
						r.name = None;
					}
					if v == 0 {
						r.settings.clear();
					}
					let model = bounded!(r.model.text.clone().into_iter().take(limit as usize).collect::<Vec<_>>());
					if r.model.text.len() > limit as usize {
						return Ok(());
					}
					let (kind, loc) = (r.kind, r.loc);
					let settings = bounded!(r.settings.clone());
					let c = match v {
						#[allow(deprecated)]
						0 => Call::create_schema { model, model_type: kind, payload_location: loc },
						#[allow(deprecated)]
						1 => Call::create_schema_v2 { model, model_type: kind, payload_location: loc, settings },
						_ => Call::create_schema_v3 {
							model,
							model_type: kind,
							payload_location: loc,
							settings,
							schema_name: match &r.name {
								Some(n) => Some(bounded!(n.clone())),
								None => None,
							},
						},
					};
					let o = call(&keys[who].id, c);
					let want = reg.may_register(&r) && !main;
					g.note(|| format!("create v{} {:?} {:?} {:?} {:?} name {:?}: {}", v + 1, String::from_utf8_lossy(&r.model.text), kind, loc, r.settings, r.name.as_ref().map(|n| String::from_utf8_lossy(n).into_owned()), why(&o)));
					check_eq!(o.is_ok(), want, "registration accepted ({}) of {:?} as {kind:?} {loc:?} {:?} name {:?}, {} bytes of {}..={}", why(&o), String::from_utf8_lossy(&r.model.text), r.settings, r.name, r.model.text.len(), MinSchemaModelSize::get(), reg.max);
					if want {
						let id = reg.register(&r);
						registered += 1;
						named += r.name.is_some() as u32;
						used.extend(r.name.clone());
						announced(at, &keys[who].id, id, r.name.as_deref())?;
					} else {
						refused += 1;
						check_eq!(state(), before, "state after a refused registration");
					}
				},
				// by governance, at once
				1 => {
					let mut r = gen_request(g, f, &reg, &used);
					if r.model.text.len() > limit as usize {
						return Ok(());
					}
					let v2 = g.chance(2, 3);
					if !v2 {
						r.name = None;
					}
					let c = via_governance(&keys[who].id, &r, v2)?;
					let root = g.chance(5, 6);
					let o = if root { call_root(c) } else { call(&keys[who].id, c) };
					let want = root && reg.may_register(&r);
					g.note(|| format!("governance (root {root}) registers {:?} {:?}: {}", String::from_utf8_lossy(&r.model.text), r.name.as_ref().map(|n| String::from_utf8_lossy(n).into_owned()), why(&o)));
					check_eq!(o.is_ok(), want, "registration by governance accepted ({}), root {root}", why(&o));
					if want {
						let id = reg.register(&r);
						registered += 1;
						named += r.name.is_some() as u32;
						used.extend(r.name.clone());
						announced(at, &keys[who].id, id, r.name.as_deref())?;
					} else {
						refused += 1;
						check_eq!(state(), before, "state after a refused registration by governance");
					}
				},
				// by a vote of the council: registration or naming
				2 => {
					let naming = g.chance(1, 3);
					let mut r = gen_request(g, f, &reg, &used);
					let id = reg.last.saturating_sub(g.below(4) as u16);
					let name = gen_name(g, &used);
					if r.model.text.len() > limit as usize {
						return Ok(());
					}
					let v2 = g.bool();
					if !v2 {
						r.name = None;
					}
					let c = if naming {
						Call::propose_to_create_schema_name { schema_id: id, schema_name: bounded!(name.clone()) }
					} else {
						let (model, settings) = (bounded!(r.model.text.clone()), bounded!(r.settings.clone()));
						if v2 {
							Call::propose_to_create_schema_v2 {
								model,
								model_type: r.kind,
								payload_location: r.loc,
								settings,
								schema_name: match &r.name {
									Some(n) => Some(bounded!(n.clone())),
									None => None,
								},
							}
						} else {
							#[allow(deprecated)]
							Call::propose_to_create_schema { model, model_type: r.kind, payload_location: r.loc, settings }
						}
					};
					let o = call(&keys[who].id, c);
					if naming && !reg.may_name(id, &name) {
						let full = matches!(parse(&name, true), Some((a, Some(b))) if reg.names.get(&(a.clone(), b.clone())).map_or(0, Vec::len) >= 254);
						check!(o.is_err() || full, "a proposal to name schema {id} {:?} was accepted", String::from_utf8_lossy(&name));
						check_eq!(state(), before, "state after a refused proposal");
						return Ok(());
					}
					// the same proposal again, or too many of them: the council refuses
					if o.is_err() {
						check!(why(&o).contains("Duplicate") || why(&o).contains("TooMany"), "the proposal was refused: {}", why(&o));
						check_eq!(state(), before, "state after a refused proposal");
						return Ok(());
					}
					let Some((index, hash)) = events_since(at).into_iter().find_map(|e| match e {
						RuntimeEvent::Council(world::pallet_collective::Event::Proposed { proposal_index, proposal_hash, .. }) => Some((proposal_index, proposal_hash)),
						_ => None,
					}) else {
						return Err("no proposal was announced".into());
					};
					let need = members / 2 + 1;
					let ayes = g.usize(0, members);
					for k in &keys[..ayes] {
						check!(call(&k.id, CouncilCall::vote { proposal: hash, index, approve: true }).is_ok(), "UNSUPPORTED vote");
					}
					let at = event_count();
					let closed = call(&keys[who].id, CouncilCall::close { proposal_hash: hash, index, proposal_weight_bound: world::frame_support::weights::Weight::MAX, length_bound: u32::MAX });
					let carried = ayes >= need;
					check_eq!(closed.is_ok(), carried, "UNSUPPORTED closing with {ayes} of {members} ({})", why(&closed));
					g.note(|| format!("council: {ayes} of {members}, naming {naming}: {}", why(&closed)));
					if carried {
						let executed = events_since(at).into_iter().find_map(|e| match e {
							RuntimeEvent::Council(world::pallet_collective::Event::Executed { result, .. }) => Some(result.is_ok()),
							_ => None,
						});
						g.label("carried by the council");
						if naming {
							check_eq!(executed, Some(reg.may_name(id, &name)), "naming carried out");
							if executed == Some(true) {
								reg.name(id, &name);
								named += 1;
								used.push(name.clone());
							}
						} else {
							check_eq!(executed, Some(reg.may_register(&r)), "registration by council carried out");
							if executed == Some(true) {
								let id = reg.register(&r);
								registered += 1;
								named += r.name.is_some() as u32;
								used.extend(r.name.clone());
								announced(at, &keys[who].id, id, r.name.as_deref())?;
							}
						}
					}
				},
				// naming by governance
				3 => {
					let id = match g.weighted(&[8, 1, 1]) {
						0 => reg.last.saturating_sub(g.below(5) as u16),
						1 => reg.last.saturating_add(1),
						_ => 0,
					};
					let name = gen_name(g, &used);
					let root = g.chance(5, 6);
					let c = Call::create_schema_name_via_governance { schema_id: id, schema_name: bounded!(name.clone()) };
					let o = if root { call_root(c) } else { call(&keys[who].id, c) };
					let want = root && reg.may_name(id, &name);
					g.note(|| format!("name {id} {:?} (root {root}): {}", String::from_utf8_lossy(&name), why(&o)));
					check_eq!(o.is_ok(), want, "naming schema {id} {:?} accepted ({})", String::from_utf8_lossy(&name), why(&o));
					if want {
						reg.name(id, &name);
						named += 1;
						used.push(name.clone());
						let (a, b) = parse(&name, true).expect("well formed");
						let full = format!("{a}.{}", b.unwrap_or_default()).into_bytes();
						let told = events_since(at).into_iter().any(|e| e == RuntimeEvent::Schemas(pallet_schemas::Event::SchemaNameCreated { schema_id: id, name: full.clone() }));
						check!(told, "naming schema {id} was not announced as {:?}", String::from_utf8_lossy(&full));
					} else {
						refused += 1;
						check_eq!(state(), before, "state after a refused naming");
					}
				},
				// the size limit
				4 => {
					let max_size = match g.weighted(&[4, 2, 1]) {
						0 => *g.pick(&[limit, limit.saturating_add(1), limit - 1, u32::MAX, 0]),
						1 => g.int(0, limit as u64) as u32,
						_ => g.int(10, 60) as u32,
					};
					let root = g.chance(3, 4);
					let c = Call::set_max_schema_model_bytes { max_size };
					let o = if root { call_root(c) } else { call(&keys[who].id, c) };
					let want = root && max_size <= limit;
					check_eq!(o.is_ok(), want, "size limit {max_size} of at most {limit} accepted (root {root})");
					g.note(|| format!("limit {max_size} root {root}: {}", why(&o)));
					if want {
						reg.max = max_size;
					} else {
						check_eq!(state(), before, "state after a refused change of the limit");
					}
					check_eq!(Schemas::get_schema_model_max_bytes(), reg.max, "size limit");
				},
				_ => next_block(),
			}
			match f {
				Focus::Numbers => reg.agrees()?,
				Focus::Names => {
					let mut qs: Vec<Vec<u8>> = vec![gen_name(g, &used)];
					if !used.is_empty() {
						let n = g.len_pick(&used);
						qs.push(case_variant(g, n.clone()));
						let s = String::from_utf8_lossy(&n).into_owned();
						qs.push(s.split('.').next().unwrap_or("").as_bytes().to_vec());
					}
					for q in qs {
						reg.names_agree(&q)?;
					}
				},
				Focus::Limits => check_eq!(Schemas::get_current_schema_identifier_maximum(), reg.last, "highest schema number"),
			}
			Ok(())
		})?;
		// at the end everything is as it was registered, and every name resolves
		reg.agrees()?;
		let all: Vec<_> = reg.names.keys().cloned().collect();
		for (a, b) in all {
			reg.names_agree(format!("{a}.{b}").as_bytes())?;
			reg.names_agree(a.as_bytes())?;
		}
		Ok(())
	});
	g.label_if(named > 1, "several names");
	g.label_if(refused > 0, "refusals");
	let enough = match f {
		Focus::Numbers => registered >= 2,
		Focus::Names => named >= 2,
		Focus::Limits => registered >= 1 && refused >= 1,
	};
	if enough {
		g.nontrivial();
	}
	r
}
fn via_governance(creator: &AccountId, r: &Request, v2: bool) -> Result<Call, String> {
	let (model, settings) = (bounded!(r.model.text.clone()), bounded!(r.settings.clone()));
	let creator_key = creator.clone();
	Ok(if v2 {
		Call::create_schema_via_governance_v2 {
			creator_key,
			model,
			model_type: r.kind,
			payload_location: r.loc,
			settings,
			schema_name: match &r.name {
				Some(n) => Some(bounded!(n.clone())),
				None => None,
			},
		}
	} else {
		#[allow(deprecated)]
		Call::create_schema_via_governance { creator_key, model, model_type: r.kind, payload_location: r.loc, settings }
	})
}
fn announced(at: usize, key: &AccountId, id: u16, name: Option<&[u8]>) -> R {
	let ev = events_since(at);
	check!(ev.contains(&RuntimeEvent::Schemas(pallet_schemas::Event::SchemaCreated { key: key.clone(), schema_id: id })), "no announcement of schema {id}: {ev:?}");
	if let Some(n) = name {
		let (a, b) = parse(n, true).ok_or("an ill-formed name was accepted")?;
		let name = format!("{a}.{}", b.unwrap_or_default()).into_bytes();
		check!(ev.contains(&RuntimeEvent::Schemas(pallet_schemas::Event::SchemaNameCreated { schema_id: id, name })), "no announcement of the name of schema {id}: {ev:?}");
	}
	Ok(())
}

/// A name takes versions 1..=254 and no more, by each of the two ways of naming.
fn version_limit(g: &mut Gen) -> R {
	reset_knobs();
	let by_vote = g.bool();
	let mixed = g.bool();
	let extra = g.usize(1, 3);
	g.nontrivial();
	chain(&[(key(0).id, 1_000_000)], || -> R {
		let who = key(0).id;
		check!(call_root(Call::set_max_schema_model_bytes { max_size: 100 }).is_ok(), "cannot set the limit");
		let mut want: Vec<(u8, u16)> = vec![];
		let mut last = 0u16;
		for i in 0..254 + extra {
			let direct = if mixed { i % 2 == 0 } else { !by_vote };
			let model = bounded!(b"{\"a\": 12}".to_vec());
			let name = bounded!(b"some.name".to_vec());
			let c = Call::create_schema_v3 { model, model_type: ModelType::AvroBinary, payload_location: PayloadLocation::OnChain, settings: BoundedVec::default(), schema_name: if direct { Some(name.clone()) } else { None } };
			let before = state();
			let o = call(&who, c);
			let room = want.len() < 254;
			check_eq!(o.is_ok(), !direct || room, "registration number {i} ({})", why(&o));
			if o.is_ok() {
				last += 1;
			} else {
				check_eq!(state(), before, "state after a refused registration");
			}
			let mut named = direct && o.is_ok();
			if !direct {
				let before = state();
				let o = call_root(Call::create_schema_name_via_governance { schema_id: last, schema_name: name });
				check_eq!(o.is_ok(), room, "naming number {i} ({})", why(&o));
				named = o.is_ok();
				if !named {
					check_eq!(state(), before, "state after a refused naming");
				}
			}
			if named {
				want.push(((want.len() + 1) as u8, last));
			}
		}
		let got: Vec<(u8, u16)> = Schemas::get_schema_versions(b"Some.Name".to_vec()).unwrap_or_default().into_iter().map(|v| (v.schema_version, v.schema_id)).collect();
		check_eq!(got, want, "versions of a full name");
		check_eq!(Schemas::get_current_schema_identifier_maximum(), last, "highest number");
		Ok(())
	})
}

fn s01(g: &mut Gen) -> R {
	history(g, Focus::Numbers)
}
fn s02(g: &mut Gen) -> R {
	history(g, Focus::Names)
}
fn s03(g: &mut Gen) -> R {
	history(g, Focus::Limits)
}
fn main() {
	engine::dict::load(&engine::root(), &["pallet-schemas"]);
	engine::main(vec![
		Property { id: "S01", rule: "histories of registrations by all seven calls, limit changes and namings; non-trivial: at least two schemas registered", aspects: vec![aspect("history", 40_000, 400_000, s01)], known: vec![] },
		Property {
			id: "S02",
			rule: "the same histories with more names, each step followed by name queries; non-trivial: at least two names given",
			aspects: vec![aspect("history", 40_000, 400_000, s02), enumerated("version-limit", 12, version_limit)],
			known: vec![],
		},
		Property { id: "S03", rule: "the same histories with models and limits around each other; non-trivial: one registration accepted and one refused", aspects: vec![aspect("history", 60_000, 400_000, s03)], known: vec![] },
	]);
}
