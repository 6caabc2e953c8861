//! Q01, Q02: the node's query handlers against the state, the pool and the events they report on.
use engine::{aspect, check, check_eq, guarded, Gen, Property, R};
use rpc::frequency_rpc::{FrequencyRpcApiServer, FrequencyRpcHandler};
use rpc::handles_rpc::{HandlesApiServer, HandlesHandler};
use rpc::jsonrpsee::core::Error as RpcError;
use rpc::jsonrpsee::types::error::CallError;
use rpc::msa_rpc::{MsaApiServer, MsaHandler};
use rpc::sc_transaction_pool_api::{InPoolTransaction, ReadyTransactions, TransactionPool};
use rpc::schemas_rpc::{SchemasApiServer, SchemasHandler};
use rpc::Node;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use world::common_primitives::handles::ClaimHandlePayload;
use world::common_primitives::msa::{Delegation, DelegatorId, ProviderId, SchemaGrant};
use world::common_primitives::node::AccountId;
use world::common_primitives::schema::{ModelType, PayloadLocation, SchemaSetting};
use world::parity_scale_codec::{Decode, Encode};
use world::sp_core::offchain::OffchainStorage;
use world::sp_runtime::transaction_validity::ValidTransaction;
use world::handles_utils::converter;
use world::*;

mod node;

// ---- Q01: accounts ------------------------------------------------------------------------------

/// The node's local database as the handler sees it.
#[derive(Clone, Default)]
struct Db(BTreeMap<Vec<u8>, Vec<u8>>);
impl OffchainStorage for Db {
	fn set(&mut self, p: &[u8], k: &[u8], v: &[u8]) {
		self.0.insert([p, k].concat(), v.to_vec());
	}
	fn remove(&mut self, p: &[u8], k: &[u8]) {
		self.0.remove(&[p, k].concat());
	}
	fn get(&self, p: &[u8], k: &[u8]) -> Option<Vec<u8>> {
		self.0.get(&[p, k].concat()).cloned()
	}
	fn compare_and_set(&mut self, _: &[u8], _: &[u8], _: Option<&[u8]>, _: &[u8]) -> bool {
		false
	}
}
type Accounts = MsaHandler<Node, Block, Db>;
fn accounts(db: Option<Db>) -> impl MsaApiServer<<Block as world::sp_runtime::traits::Block>::Hash, AccountId> {
	let h: Accounts = MsaHandler::new(rpc::node(), db);
	h
}
fn said<T>(r: Result<T, RpcError>) -> Result<T, String> {
	r.map_err(|e| format!("{e:?}"))
}
/// An identifier, often one of the few in use.
fn id(g: &mut Gen) -> u64 {
	match g.weighted(&[20, 1, 1]) {
		0 => g.uint(1, 5),
		1 => *g.pick(&[0, 255, 256, u32::MAX as u64 + 2, u64::MAX]),
		_ => 1u64 << g.below(64),
	}
}
struct Terms {
	revoked: u32,
	schemas: BTreeMap<u16, u32>,
}
fn q01_accounts(g: &mut Gen) -> R {
	reset_knobs();
	chain(&[], || {
		let now = g.uint(1, 60) as u32;
		set_block(now);
		let near = |g: &mut Gen| -> u32 { if g.chance(2, 5) { 0 } else { g.uint(now.saturating_sub(3).max(1) as u64, now as u64 + 3) as u32 } };
		let mut all: BTreeMap<(u64, u64), Terms> = BTreeMap::new();
		for _ in 0..g.usize(0, 7) {
			let at = (id(g), id(g));
			let mut t = Terms { revoked: near(g), schemas: BTreeMap::new() };
			for _ in 0..g.usize(0, 4) {
				let s = g.uint(1, 6) as u16;
				let e = near(g);
				t.schemas.insert(s, e);
			}
			let mut d: Delegation<u16, u32, _> = Delegation::default();
			d.revoked_at = t.revoked;
			for (s, e) in &t.schemas {
				check!(d.schema_permissions.try_insert(*s, *e).is_ok(), "setup");
			}
			pallet_msa::DelegatorAndProviderToDelegation::<Runtime>::insert(DelegatorId(at.0), ProviderId(at.1), d);
			g.note(|| format!("{} gave {}: {:?}, ended {}", at.0, at.1, t.schemas, t.revoked));
			all.insert(at, t);
		}
		let mut db = Db::default();
		let mut keys: BTreeMap<u64, Option<Vec<AccountId>>> = BTreeMap::new();
		for _ in 0..g.usize(0, 3) {
			let m = id(g);
			let l: Vec<AccountId> = (0..g.usize(0, 4)).map(|_| key(g.below(9) as u32).id).collect();
			let mut raw = l.encode();
			let broken = g.chance(1, 8) && !l.is_empty();
			if broken {
				raw.truncate(raw.len() - 1);
			}
			// a value beside the one the node keeps for the chain
			let prefix: &[u8] = if g.chance(1, 8) { b"other" } else { b"storage" };
			db.set(prefix, format!("Msa::ofw::keys::{m}").as_bytes(), &raw);
			if prefix == b"storage" {
				keys.insert(m, (!broken).then_some(l));
			}
		}
		let on = !g.chance(1, 8);
		let h = accounts(on.then(|| db.clone()));
		let at = state();
		let valid = |d: u64, p: u64, n: u32, s: Option<u16>| -> bool {
			let Some(t) = all.get(&(d, p)) else { return false };
			n <= now && (t.revoked == 0 || n <= t.revoked) && s.map_or(true, |s| t.schemas.get(&s).map_or(false, |e| *e == 0 || n <= *e))
		};
		let (mut yes, mut no) = (0, 0);
		for _ in 0..6 {
			let p = if all.is_empty() || g.chance(1, 4) { id(g) } else { all.keys().nth(g.below(all.len() as u64) as usize).map_or(1, |k| k.1) };
			let ds: Vec<u64> = (0..g.usize(0, 6)).map(|_| id(g)).collect();
			let n = if g.chance(1, 20) { *g.pick(&[0, u32::MAX]) } else { g.uint(now.saturating_sub(4) as u64, now as u64 + 2) as u32 };
			let s = if g.bool() { Some(g.uint(0, 7) as u16) } else { None };
			let got = said(guarded(|| h.check_delegations(ds.iter().map(|d| DelegatorId(*d)).collect(), ProviderId(p), n, s))?)?;
			let want: Vec<(DelegatorId, bool)> = ds.iter().map(|d| (DelegatorId(*d), valid(*d, p, n, s))).collect();
			check_eq!(got, want, "delegations of {ds:?} to {p} at block {n} (now {now}) for schema {s:?}");
			yes += want.iter().filter(|w| w.1).count();
			no += want.iter().filter(|w| !w.1).count();
		}
		for d in 0..=6u64 {
			let shown = |t: &Terms| -> Vec<SchemaGrant<u16, u32>> {
				t.schemas.iter().map(|(s, e)| SchemaGrant::new(*s, if t.revoked > 0 && (*e == 0 || *e > t.revoked) { t.revoked } else { *e })).collect()
			};
			for p in 0..=6u64 {
				let got = said(guarded(|| h.get_granted_schemas_by_msa_id(DelegatorId(d), ProviderId(p)))?)?;
				let want = all.get(&(d, p)).map(shown).filter(|l| !l.is_empty());
				check_eq!(got, want, "schemas {d} granted {p}");
			}
			let got: BTreeMap<u64, Vec<SchemaGrant<u16, u32>>> =
				{
					let l = said(guarded(|| h.get_all_granted_delegations_by_msa_id(DelegatorId(d)))?)?;
					let n = l.len();
					let m: BTreeMap<_, _> = l.into_iter().map(|x| (x.provider_id.0, x.permissions)).collect();
					check_eq!(n, m.len(), "providers named once each for {d}");
					m
				};
			let want: BTreeMap<u64, _> = all.iter().filter(|(k, _)| k.0 == d).map(|(k, t)| (k.1, shown(t))).collect();
			check_eq!(got, want, "all delegations of {d}");
		}
		let mut asked: BTreeSet<u64> = keys.keys().cloned().collect();
		asked.extend((0..3).map(|_| id(g)));
		for m in asked {
			let got = guarded(|| h.get_keys_by_msa_id(m))?;
			match (on, keys.get(&m)) {
				(true, None) => check_eq!(said(got)?.map(|k| (k.msa_id, k.msa_keys)), None, "keys of {m}, which has none recorded"),
				(true, Some(Some(l))) => check_eq!(said(got)?.map(|k| (k.msa_id, k.msa_keys)), Some((m, l.clone())), "keys of {m}"),
				_ => check!(got.is_err(), "keys of {m} answered from {}", if on { "a value that cannot be decoded" } else { "a node without an index" }),
			}
		}
		check!(state() == at, "queries changed the state");
		g.label_if(yes > 0, "delegation-holds");
		g.label_if(no > 0, "delegation-fails");
		if yes > 0 && no > 0 {
			g.nontrivial();
		}
		Ok(())
	})
}

// ---- Q01: handles -------------------------------------------------------------------------------

fn handles() -> impl HandlesApiServer<<Block as world::sp_runtime::traits::Block>::Hash> {
	HandlesHandler::<Node, Block>::new(rpc::node())
}
fn base(g: &mut Gen) -> String {
	if g.chance(1, 10) {
		let n = g.usize(0, 40);
		return (0..n).map(|_| *g.pick(&['a', 'Z', '漢', '.', ' ', '"', '\u{301}', 'é'])).collect();
	}
	let s: &&str = g.pick(&["alice", "Alice", "AL1CE", "\u{430}lice", "bob", "b0b", "carol-d", "\u{6f22}\u{5b57}xx", "admin", "a", "al@ce", "toolongforahandle-toolongforahandle", "", "éclair", "x.y"]);
	s.to_string()
}
fn q01_handles(g: &mut Gen) -> R {
	reset_knobs();
	// 90 suffixes on the real chain; more than the node ever lists at once in one run out of four
	let range = if g.chance(1, 4) {
		HandleSuffixMin::set(1);
		HandleSuffixMax::set(300);
		300
	} else {
		90
	};
	FilterKind::set(2);
	let k: Vec<Key> = (0..5).map(key).collect();
	chain(&k.iter().map(|k| (k.id.clone(), 1_000_000u128)).collect::<Vec<_>>(), || {
		set_block(g.uint(1, 30) as u32);
		let none: fn(u64) -> world::sp_runtime::DispatchResult = |_| Ok(());
		for (i, k) in k.iter().enumerate().take(4) {
			let m = Msa::create_account(k.id.clone(), none).map_err(|e| format!("{e:?}"))?;
			check_eq!(m.0, i as u64 + 1, "setup");
		}
		let h = handles();
		let mut held: BTreeMap<u64, (String, u16, String)> = BTreeMap::new();
		let mut claims = 0;
		g.steps(8, |g, _| {
			let m = g.uint(1, 4);
			let b = base(g);
			let bytes = b.as_bytes().to_vec();
			// what the node says beforehand
			let valid = said(guarded(|| h.validate_handle(b.clone()))?)?;
			let count = if g.bool() { None } else { Some(*g.pick(&[0u16, 1, 2, 5, 99, 100, 101, 1000, u16::MAX])) };
			let next = guarded(|| h.get_next_suffixes(b.clone(), count))?;
			check_eq!(next.is_ok(), bytes.len() <= 32, "next suffixes of {b:?} ({} bytes) answered", bytes.len());
			if bytes.len() > 32 {
				check!(!valid, "{b:?} is called valid");
			} else {
				check_eq!(valid, Handles::validate_handle(bytes.clone()), "{b:?} called valid");
			}
			let mut first = None;
			if let Ok(n) = next {
				let want = count.unwrap_or(1).min(100);
				check_eq!(n.base_handle, bytes, "base handle echoed");
				check!(n.suffixes.len() <= want as usize, "{} suffixes for {count:?}", n.suffixes.len());
				let few = guarded(|| Handles::get_next_suffixes(bytes.clone().try_into().unwrap_or_default(), want))?;
				check_eq!(&n.suffixes, &few.suffixes, "next suffixes of {b:?}, {count:?} asked for");
				check!(n.suffixes.len() == want as usize || n.suffixes.len() + claims >= range, "only {} suffixes of {want}", n.suffixes.len());
				first = n.suffixes.first().cloned();
			}
			match g.weighted(&[5, 1]) {
				0 => {
					let who = &k[(m - 1) as usize];
					let p = ClaimHandlePayload::<u32>::new(bytes.clone(), block() + 5);
					let sig = who.sign(&p.encode());
					let from = event_count();
					let r = call(&who.id, pallet_handles::Call::<Runtime>::claim_handle { msa_owner_key: who.id.clone(), proof: sig, payload: p });
					g.note(|| format!("account {m} claims {b:?}: {}", why(&r)));
					if ok(&r) {
						check!(valid, "{b:?} was claimed but is called invalid");
						claims += 1;
						let e = events_since(from).into_iter().find_map(|e| match e {
							RuntimeEvent::Handles(pallet_handles::Event::HandleClaimed { msa_id, handle }) => Some((msa_id, handle)),
							_ => None,
						});
						let Some((em, full)) = e else { return Err("no event tells of the claim".into()) };
						check_eq!(em, m, "account of the claim");
						let full = String::from_utf8(full).map_err(|e| e.to_string())?;
						let Some((eb, es)) = full.rsplit_once('.') else { return Err(format!("handle {full:?} without a suffix")) };
						let es: u16 = es.parse().map_err(|_| format!("suffix of {full:?}"))?;
						if let Some(f) = first {
							check_eq!(es, f, "suffix claimed, against the first one announced");
						}
						held.insert(m, (eb.to_string(), es, full.clone()));
					}
				},
				_ => {
					let who = &k[(m - 1) as usize];
					let a = apply(&who.id, System::account_nonce(&who.id), &pallet_handles::Call::<Runtime>::retire_handle {}.into());
					g.note(|| format!("account {m} retires its handle: {}", a.succeeded()));
					if a.succeeded() {
						held.remove(&m);
						g.label("retired");
					}
				},
			}
			let s = state();
			for m in 0..=5u64 {
				let got = said(guarded(|| h.get_handle_for_msa(m))?)?;
				let want = held.get(&m);
				check_eq!(got.as_ref().map(|r| (String::from_utf8_lossy(&r.base_handle).into_owned(), r.suffix)), want.map(|w| (w.0.clone(), w.1)), "handle of account {m}");
				if let (Some(r), Some(w)) = (got, want) {
					check_eq!(String::from_utf8(r.canonical_base.clone()).ok(), Some(converter::convert_to_canonical(&w.0)), "canonical form of {:?}", w.0);
					check_eq!(said(guarded(|| h.get_msa_for_handle(w.2.clone()))?)?, Some(m), "account of {:?}", w.2);
				}
			}
			for _ in 0..3 {
				let q = match g.weighted(&[3, 2, 1]) {
					0 => format!("{}.{}", base(g), g.uint(9, 100)),
					1 => base(g),
					_ => ".".repeat(g.usize(0, 60)),
				};
				let got = guarded(|| h.get_msa_for_handle(q.clone()))?;
				if q.len() <= 64 {
					if let Ok(Some(m)) = &got {
						let canon = |s: &str| converter::convert_to_canonical(s);
						let hit = held.get(m).map_or(false, |w| q.rsplit_once('.').map_or(false, |(b, s)| canon(b) == canon(&w.0) && s == w.1.to_string()));
						check!(hit, "{q:?} is said to be the handle of account {m}, which has {:?}", held.get(m));
						g.label("look-alike");
					}
				}
			}
			check!(state() == s, "queries changed the state");
			Ok(())
		})?;
		if claims >= 2 {
			g.nontrivial();
		}
		Ok(())
	})
}

// ---- Q01: schemas -------------------------------------------------------------------------------

fn schemas() -> impl SchemasApiServer<<Block as world::sp_runtime::traits::Block>::Hash> {
	SchemasHandler::<Node, Block>::new(rpc::node())
}
fn q01_schemas(g: &mut Gen) -> R {
	reset_knobs();
	chain(&[], || {
		set_block(1);
		let h = schemas();
		let mut all: Vec<(Vec<u8>, ModelType, PayloadLocation, Vec<SchemaSetting>)> = vec![];
		let mut names: BTreeMap<(String, String), Vec<u16>> = BTreeMap::new();
		let name = |g: &mut Gen| -> (String, String) {
			let a: &&str = g.pick(&["dsnp", "dsn", "dsnpx", "abc"]);
			let b: &&str = g.pick(&["update", "up", "u", "profile"]);
			(a.to_string(), b.to_string())
		};
		for _ in 0..g.usize(0, 8) {
			let model = format!("{{\"type\":\"record\",\"name\":\"n{}\",\"fields\":[]}}", g.below(50)).into_bytes();
			let kind = if g.bool() { ModelType::AvroBinary } else { ModelType::Parquet };
			let place = [PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated][g.below(4) as usize];
			let settings: Vec<SchemaSetting> = [SchemaSetting::AppendOnly, SchemaSetting::SignatureRequired].into_iter().filter(|_| g.bool()).collect();
			let n = if g.chance(2, 3) { Some(name(g)) } else { None };
			let mut flags = world::common_primitives::schema::SchemaSettings::all_disabled();
			for s in &settings {
				flags.set(*s);
			}
			let full = n.as_ref().map(|n| pallet_schemas::SchemaName { namespace: n.0.clone().into_bytes().try_into().unwrap_or_default(), descriptor: n.1.clone().into_bytes().try_into().unwrap_or_default() });
			let sid = Schemas::add_schema(model.clone().try_into().map_err(|_| "model")?, kind, place, settings.clone().try_into().map_err(|_| "settings")?, full).map_err(|e| format!("{e:?}"))?;
			all.push((model, kind, place, settings));
			check_eq!(sid as usize, all.len(), "number of the schema");
			g.note(|| format!("schema {sid} registered as {n:?}"));
			if let Some(n) = n {
				names.entry(n).or_default().push(sid);
			}
		}
		let s = state();
		for i in (0..all.len() as u16 + 2).chain([u16::MAX]) {
			let got = said(guarded(|| h.get_by_schema_id(i))?)?.map(|r| (r.schema_id, (r.model, r.model_type, r.payload_location, r.settings)));
			let want = (i > 0).then(|| all.get(i as usize - 1)).flatten().map(|e| (i, e.clone()));
			check_eq!(got, want, "schema {i}");
		}
		let mut found = 0;
		for _ in 0..6 {
			let (a, b) = name(g);
			let whole = g.bool();
			let q = match g.weighted(&[6, 2, 1, 1]) {
				0 if whole => format!("{a}.{b}"),
				0 => a.clone(),
				1 if whole => format!("{a}.{b}").to_uppercase(),
				1 => format!(" {a} "),
				2 => format!("{a}."),
				_ => g.pick(&["", ".", "a", "a.b", "abc.", "ab c", "漢", "toolongforaname-toolongforaname", "1abc.x"]).to_string(),
			};
			let got = said(guarded(|| h.get_versions(q.clone()))?)?;
			// the names the query stands for
			let plain = q.to_ascii_lowercase();
			let plain = plain.trim();
			let part = |p: &str, lo: usize, hi: usize| (lo..=hi).contains(&p.len()) && p.bytes().all(|b| b.is_ascii_lowercase() || b == b'-') && !p.starts_with('-') && !p.ends_with('-');
			let (ns, ds) = plain.split_once('.').map_or((plain, None), |(a, b)| (a, Some(b)));
			let known = q.is_ascii() && q.len() <= 32 && part(ns, 3, 30) && ds.map_or(true, |d| part(d, 1, 28));
			let want: Option<BTreeMap<(String, u8), u16>> = known.then(|| {
				let mut m = BTreeMap::new();
				for ((a, b), l) in &names {
					if a == ns && ds.map_or(true, |d| d == b) {
						m.extend(l.iter().enumerate().map(|(i, s)| ((format!("{a}.{b}"), i as u8 + 1), *s)));
					}
				}
				m
			});
			found += want.as_ref().map_or(0, |w| w.len());
			let n = got.as_ref().map(|v| v.len());
			let got = got.map(|v| v.into_iter().map(|r| ((String::from_utf8_lossy(&r.schema_name).into_owned(), r.schema_version), r.schema_id)).collect::<BTreeMap<_, _>>());
			check_eq!(n, got.as_ref().map(|m| m.len()), "versions of {q:?} listed once each");
			check_eq!(got, want, "versions of {q:?}");
		}
		let model = match g.weighted(&[2, 3]) {
			0 => g.bytes(0, 8),
			_ => g.pick(&["{\"type\":\"record\",\"name\":\"n\",\"fields\":[]}", "\"string\"", "{\"type\":\"record\"}", "{}", "", "null", "\"null\"", "{\"type\":\"enum\",\"name\":\"e\",\"symbols\":[\"A\",\"A\"]}"]).as_bytes().to_vec(),
		};
		let got = guarded(|| h.check_schema_validity(model.clone(), None))?;
		let good = rpc::common_helpers::avro::validate_raw_avro_schema(&model).is_ok();
		match &got {
			Ok(v) => check!(*v && good, "schema {:?} answered {v}, while it is {}", String::from_utf8_lossy(&model), if good { "well formed" } else { "not well formed" }),
			Err(RpcError::Call(CallError::Custom(e))) => check!(!good && !e.message.is_empty(), "well-formed schema {:?} refused: {e:?}", String::from_utf8_lossy(&model)),
			Err(e) => return Err(format!("answer to a schema check: {e:?}")),
		}
		check!(state() == s, "queries changed the state");
		g.label_if(good, "well-formed");
		if found > 0 {
			g.nontrivial();
		}
		Ok(())
	})
}
fn main() {
	engine::dict::load(&engine::root(), &["crate"]);
	engine::main(vec![
		Property {
			id: "Q01",
			rule: "states with delegations, keys, handles or schemas, and the node's answers about them; non-trivial: the state answers some question positively (for delegations: and one negatively; for handles: two were claimed)",
			aspects: vec![aspect("accounts", 60_000, 1_500_000, q01_accounts), aspect("handles", 25_000, 400_000, q01_handles), aspect("schemas", 60_000, 1_000_000, q01_schemas)],
			known: vec![],
		},
		Property {
			id: "Q02",
			rule: "pools of transactions of several accounts, and blocks of transactions; non-trivial: at least one number is missing, or the block has events of two transactions",
			aspects: vec![aspect("missing", 40_000, 800_000, node::missing), aspect("events", 40_000, 600_000, node::events)],
			known: vec![],
		},
	]);
}
