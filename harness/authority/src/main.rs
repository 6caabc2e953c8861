//! X03: who may do what. The authority each privileged action demands, and the path of a proposal
//! from its author through the council's votes to its effect.
use engine::{aspect, check, check_eq, Gen, Property, R};
use std::collections::BTreeMap;
use world::calls::{self, KINDS};
use world::common_primitives::node::AccountId;
use world::common_primitives::schema::*;
use world::frame_support::traits::{EnsureOrigin, OriginTrait, UnfilteredDispatchable};
use world::pallet_collective::{self, Instance1, Instance2, RawOrigin as Body};
use world::parity_scale_codec::Encode;
use world::frame_support::BoundedVec;
use world::sp_runtime::traits::{BlakeTwo256, Hash};
use world::*;

const NONE: fn(u64) -> world::sp_runtime::DispatchResult = |_| Ok(());

#[derive(Clone, Copy, Debug, PartialEq)]
enum By {
	Nobody,
	Root,
	Account(u32),
	/// So many of so many members of the council agreed.
	Councillors(u32, u32),
	CouncilMember(u32),
	Committee(u32, u32),
	CommitteeMember(u32),
}
use By::*;

fn origin(f: By) -> RuntimeOrigin {
	match f {
		Nobody => RuntimeOrigin::none(),
		Root => RuntimeOrigin::root(),
		Account(n) => RuntimeOrigin::signed(key(n).id),
		Councillors(n, m) => Body::<AccountId, Instance1>::Members(n, m).into(),
		CouncilMember(n) => Body::<AccountId, Instance1>::Member(key(n).id).into(),
		Committee(n, m) => Body::<AccountId, Instance2>::Members(n, m).into(),
		CommitteeMember(n) => Body::<AccountId, Instance2>::Member(key(n).id).into(),
	}
}

type Rule = fn(By) -> bool;
fn root(f: By) -> bool {
	f == Root
}
fn signed(f: By) -> bool {
	matches!(f, Account(_))
}
fn never(_: By) -> bool {
	false
}
fn member_of_committee(f: By) -> bool {
	matches!(f, CommitteeMember(_))
}
macro_rules! share {
	($body:ident, $op:tt $n:literal / $d:literal) => {
		|f: By| f == Root || matches!(f, $body(n, m) if (n * $d) $op ($n * m))
	};
}
fn one_councillor(f: By) -> bool {
	f == Root || matches!(f, Councillors(n, _) if n >= 1)
}
fn committee_member(f: By) -> bool {
	f == Root || member_of_committee(f)
}

type Entry = (&'static str, fn(RuntimeOrigin) -> bool, Rule);
macro_rules! table {
	($net:ident) => {{
		use world::$net::origins as o;
		let t: Vec<Entry> = table!(@ o:
			pallet_msa::CreateProviderViaGovernanceOrigin => one_councillor,
			pallet_schemas::CreateSchemaViaGovernanceOrigin => share!(Councillors, > 1 / 2),
			pallet_time_release::TransferOrigin => signed,
			pallet_scheduler::ScheduleOrigin => share!(Councillors, >= 1 / 2),
			pallet_preimage::ManagerOrigin => committee_member,
			pallet_collective_councilcollective::SetMembersOrigin => root,
			pallet_collective_technicalcommitteecollective::SetMembersOrigin => root,
			pallet_democracy::ExternalDefaultOrigin => share!(Councillors, >= 1 / 1),
			pallet_democracy::ExternalMajorityOrigin => share!(Councillors, > 1 / 2),
			pallet_democracy::ExternalOrigin => share!(Councillors, >= 1 / 2),
			pallet_democracy::SubmitOrigin => signed,
			pallet_democracy::FastTrackOrigin => share!(Committee, >= 2 / 3),
			pallet_democracy::InstantOrigin => share!(Committee, >= 1 / 1),
			pallet_democracy::CancellationOrigin => share!(Councillors, >= 2 / 3),
			pallet_democracy::CancelProposalOrigin => share!(Committee, >= 1 / 1),
			pallet_democracy::BlacklistOrigin => root,
			pallet_democracy::VetoOrigin => member_of_committee,
			pallet_treasury::ApproveOrigin => share!(Councillors, >= 3 / 5),
			pallet_treasury::RejectOrigin => share!(Councillors, > 1 / 2),
			pallet_treasury::SpendOrigin => never,
			pallet_collator_selection::UpdateOrigin => share!(Councillors, >= 3 / 5),
		);
		t
	}};
	(@ $o:ident: $($p:ident::$t:ident => $r:expr,)*) => {
		vec![$((concat!(stringify!($p), "::", stringify!($t)), (|x: RuntimeOrigin| <$o::$p::$t as EnsureOrigin<RuntimeOrigin>>::try_origin(x).is_ok()) as fn(RuntimeOrigin) -> bool, $r as Rule)),*]
	};
}

fn sources() -> Vec<By> {
	let mut v = vec![Nobody, Root, Account(0), Account(1), CouncilMember(0), CouncilMember(3), CommitteeMember(0), CommitteeMember(3)];
	for m in 1..=13 {
		for n in 0..=m {
			v.push(Councillors(n, m));
			v.push(Committee(n, m));
		}
	}
	v
}
const TABLES: u64 = 42;

fn x03_table(g: &mut Gen) -> R {
	let i = g.below(TABLES);
	let net = if i < TABLES / 2 { "test network" } else { "main network" };
	let all = if i < TABLES / 2 { table!(testnet) } else { table!(mainnet) };
	let (name, real, rule) = all[(i % (TABLES / 2)) as usize];
	g.nontrivial();
	for f in sources() {
		check_eq!(real(origin(f)), rule(f), "whether {f:?} satisfies {name} on the {net}");
	}
	Ok(())
}

/// What the documentation lets each source do, for the calls of Frequency's own pallets.
fn authorised(kind: &str, f: By) -> bool {
	match kind {
		"schemas.set_max_schema_model_bytes" | "capacity.set_epoch_length" | "time_release.update_release_schedules" => root(f),
		"msa.create_provider_via_governance" => one_councillor(f),
		"schemas.create_schema_via_governance" | "schemas.create_schema_via_governance_v2" | "schemas.create_schema_name_via_governance" => share!(Councillors, > 1 / 2)(f),
		"passkey.proxy" => f == Nobody,
		_ => signed(f),
	}
}
fn own(kind: &str) -> bool {
	["msa.", "messages.", "schemas.", "stateful.", "capacity.", "handles.", "time_release.", "frequency_tx_payment.", "passkey."].iter().any(|p| kind.starts_with(p))
}
fn source(g: &mut Gen) -> By {
	let m = g.uint(1, 9) as u32;
	let n = g.uint(0, m as u64) as u32;
	match g.weighted(&[2, 4, 4, 5, 2, 3, 2]) {
		0 => Nobody,
		1 => Root,
		2 => Account(g.below(6) as u32),
		3 => Councillors(n, m),
		4 => CouncilMember(g.below(6) as u32),
		5 => Committee(n, m),
		_ => CommitteeMember(g.below(6) as u32),
	}
}
fn dispatch(c: RuntimeCall, f: By) -> Outcome {
	c.dispatch_bypass_filter(origin(f))
}
fn bad_origin(o: &Outcome) -> bool {
	matches!(o, Err(e) if e.error == world::sp_runtime::DispatchError::BadOrigin)
}
/// Accounts, providers, schemas, stakes, handles and release schedules to act upon.
fn populate(g: &mut Gen) -> R {
	reset_knobs();
	FilterKind::set(2);
	check!(ok(&call_root(pallet_schemas::Call::<Runtime>::set_max_schema_model_bytes { max_size: 1000 })), "the schema limit cannot be set");
	for n in 0..4u32 {
		Msa::create_account(key(n).id, NONE).map_err(|_| "no account")?;
	}
	for p in 1..=2u64 {
		Msa::create_provider_for(p, b"p".to_vec()).map_err(|_| "no provider")?;
	}
	for l in 0..4u8 {
		let model: BoundedVec<u8, MaxSchemaBytesLimit> = short(br#"{"type":"record","name":"r","fields":[]}"#);
		let c = Sc::create_schema_via_governance { creator_key: key(0).id, model, model_type: model_type(0), payload_location: location(l), settings: Default::default() };
		check!(ok(&call_root(c)), "root cannot create a schema");
	}
	for d in 2..4u32 {
		let p = pallet_msa::AddProvider { authorized_msa_id: d as u64 - 1, schema_ids: vec![1, 2, 3, 4], expiration: block() + 40 };
		let c = pallet_msa::Call::<Runtime>::grant_delegation { delegator_key: key(d).id, proof: key(d).sign(&p.encode()), add_provider_payload: p };
		check!(ok(&call(&key(d - 2).id, c)), "a delegation cannot be granted");
	}
	let _ = call(&key(5).id, pallet_capacity::Call::<Runtime>::stake { target: 1, amount: 1_000_000 });
	g.steps(8, |g, _| {
		let k = KINDS.iter().copied().filter(|k| own(k)).collect::<Vec<_>>();
		let kind = *g.pick(&k);
		let f = if authorised(kind, Root) { Root } else { Account(g.below(4) as u32) };
		let c = calls::make(kind, g);
		let _ = world::frame_support::storage::with_storage_layer(|| dispatch(c, f));
		Ok(())
	})
}

fn x03_calls(g: &mut Gen) -> R {
	let balances: Vec<_> = (0..6).map(|i| (key(i).id, 1_000_000_000_000)).collect();
	chain(&balances, || {
		populate(g)?;
		let privileged = g.chance(1, 2);
		let l: Vec<_> = KINDS.iter().copied().filter(|k| own(k) && (authorised(k, Account(0)) != privileged)).collect();
		let kind = *g.pick(&l);
		g.label(kind);
		// Preferably a call that somebody may make successfully.
		let mut c = calls::make(kind, g);
		let mut ripe = false;
		for _ in 0..8 {
			let who = if authorised(kind, Root) { vec![Root] } else { (0..5).map(Account).collect() };
			ripe = who.into_iter().any(|f| frozen(|| ok(&dispatch(c.clone(), f))));
			if ripe {
				break;
			}
			c = calls::make(kind, g);
		}
		let f = source(g);
		let (before, text) = (state(), format!("{c:?}"));
		let may = authorised(kind, f);
		let o = dispatch(c, f);
		if may {
			g.label("authorised");
			if !signed(f) && f != Nobody {
				check!(!bad_origin(&o), "{kind} as {f:?} is refused for lack of authority");
			}
			if ok(&o) {
				g.label("done");
			}
		} else {
			if ripe {
				g.nontrivial();
			}
			check!(!ok(&o), "{kind} was done with the authority of {f:?}\n{text}");
			check_eq!(state(), before, "a refused {kind} as {f:?} left the state changed: {}", why(&o));
		}
		Ok(())
	})
}

#[derive(Clone, Debug)]
enum Wish {
	Provider { name: Vec<u8> },
	Schema { model: Vec<u8>, ty: u8, place: u8, signed: bool, name: Option<Vec<u8>> },
	Name { schema: u16, name: Vec<u8> },
}
#[derive(Clone, Debug)]
struct Motion {
	author: u32,
	wish: Wish,
	act: RuntimeCall,
	index: u32,
	threshold: u32,
	end: u32,
	yes: Vec<u32>,
	no: Vec<u32>,
}
fn model_type(n: u8) -> ModelType {
	if n == 0 { ModelType::AvroBinary } else { ModelType::Parquet }
}
fn location(n: u8) -> PayloadLocation {
	[PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated][n as usize % 4]
}
fn settings<S: world::sp_core::Get<u32>>(w: &Wish) -> BoundedVec<SchemaSetting, S> {
	let signed = matches!(w, Wish::Schema { signed: true, .. });
	BoundedVec::try_from(if signed { vec![SchemaSetting::SignatureRequired] } else { vec![] }).unwrap_or_default()
}
fn wish(g: &mut Gen) -> Wish {
	let name = |g: &mut Gen| -> Vec<u8> {
		if g.chance(1, 8) {
			return g.bytes(0, 8);
		}
		g.pick(&[&b"a.b"[..], b"a.c", b"dsnp.x", b"dsnp.y"]).to_vec()
	};
	match g.weighted(&[3, 4, 2]) {
		0 => Wish::Provider { name: if g.chance(1, 6) { vec![b'n'; g.usize(14, 18)] } else { g.bytes(0, 6) } },
		1 => {
			let model = match g.weighted(&[6, 1]) {
				0 => br#"{"type":"record","name":"r","fields":[]}"#.to_vec(),
				_ => g.bytes(0, 12),
			};
			Wish::Schema { model, ty: g.below(8).min(1) as u8, place: g.below(4) as u8, signed: g.chance(1, 4), name: if g.bool() { Some(name(g)) } else { None } }
		},
		_ => Wish::Name { schema: g.uint(0, 4) as u16, name: name(g) },
	}
}
fn short<S: world::sp_core::Get<u32>>(v: &[u8]) -> BoundedVec<u8, S> {
	BoundedVec::try_from(v.to_vec()).unwrap_or_default()
}
type Sc = pallet_schemas::Call<Runtime>;
/// The proposing call and the act which an approved motion performs.
fn proposal(author: &AccountId, w: &Wish, first_version: bool) -> (RuntimeCall, RuntimeCall) {
	match w.clone() {
		Wish::Provider { name } => (
			pallet_msa::Call::<Runtime>::propose_to_be_provider { provider_name: name.clone() }.into(),
			pallet_msa::Call::<Runtime>::create_provider_via_governance { provider_key: author.clone(), provider_name: name }.into(),
		),
		Wish::Schema { model, ty, place, name, .. } => {
			let (model, model_type, payload_location) = (short(&model), model_type(ty), location(place));
			if first_version {
				return (
					Sc::propose_to_create_schema { model: model.clone(), model_type, payload_location, settings: settings(w) }.into(),
					Sc::create_schema_via_governance { creator_key: author.clone(), model, model_type, payload_location, settings: settings(w) }.into(),
				);
			}
			let schema_name = name.map(|n| short(&n));
			(
				Sc::propose_to_create_schema_v2 { model: model.clone(), model_type, payload_location, settings: settings(w), schema_name: schema_name.clone() }.into(),
				Sc::create_schema_via_governance_v2 { creator_key: author.clone(), model, model_type, payload_location, settings: settings(w), schema_name }.into(),
			)
		},
		Wish::Name { schema, name } => (
			Sc::propose_to_create_schema_name { schema_id: schema, schema_name: short(&name) }.into(),
			Sc::create_schema_name_via_governance { schema_id: schema, schema_name: short(&name) }.into(),
		),
	}
}
fn names() -> Vec<Vec<u8>> {
	let mut v: Vec<_> = [&b"a"[..], b"dsnp"].iter().flat_map(|n| Schemas::get_schema_versions(n.to_vec()).unwrap_or_default()).map(|r| r.encode()).collect();
	v.sort();
	v
}
fn providers() -> Vec<Option<Vec<u8>>> {
	(1..=4).map(|m| Msa::get_provider_registry_entry(common_primitives::msa::ProviderId(m)).map(|e| e.provider_name.to_vec())).collect()
}
fn schemas() -> u16 {
	Schemas::get_current_schema_identifier_maximum()
}

fn x03_motions(g: &mut Gen) -> R {
	let balances: Vec<_> = (0..20).map(|i| (key(i).id, 1_000_000_000_000)).collect();
	chain(&balances, || {
		reset_knobs();
		FilterKind::set(1);
		check!(ok(&call_root(Sc::set_max_schema_model_bytes { max_size: 1000 })), "the schema limit cannot be set");
		for n in 0..3u32 {
			Msa::create_account(key(n).id, NONE).map_err(|_| "no account")?;
		}
		let seats = g.uint(0, 7) as u32;
		let council: Vec<AccountId> = (0..seats).map(|i| key(10 + i).id).collect();
		world::pallet_collective::Members::<Runtime, Instance1>::put(&council);
		let mut open: BTreeMap<Vec<u8>, Motion> = BTreeMap::new();
		let mut count = 0u32;
		let mut done = 0;
		g.steps(40, |g, _| {
			let before = (schemas(), providers(), names());
			let mut quiet = true;
			match g.weighted(&[4, 9, 5, 1, 1]) {
				0 => {
					let author = g.below(4) as u32;
					let w = wish(g);
					let first = g.chance(1, 4) && matches!(&w, Wish::Schema { name: None, .. });
					let id = key(author).id;
					let (c, act) = proposal(&id, &w, first);
					let hash = BlakeTwo256::hash_of(&act);
					let o = call(&id, c);
					let fits = match &w {
						Wish::Provider { name } => author < 3 && name.len() as u32 <= MaxProviderNameSize::get(),
						Wish::Schema { .. } => true,
						// Judged by the same rules as the act itself.
						Wish::Name { .. } => frozen(|| ok(&call_root(act.clone()))),
					} && !open.contains_key(hash.as_bytes())
						&& open.len() < 25;
					check_eq!(ok(&o), fits, "account {author} proposes {w:?} with {} open motions: {}", open.len(), why(&o));
					if fits {
						let m = pallet_collective::Voting::<Runtime, Instance1>::get(hash);
						let m = m.ok_or(format!("{w:?} of account {author} is not before the council"))?;
						let threshold = if matches!(w, Wish::Provider { .. }) { 1 } else { seats / 2 + 1 };
						check_eq!(m.threshold, threshold, "votes needed of {seats} for {w:?}");
						check_eq!(m.index, count, "number of the motion");
						check!(m.ayes.is_empty() && m.nays.is_empty(), "a new motion starts with votes");
						count += 1;
						open.insert(hash.as_bytes().to_vec(), Motion { author, wish: w, act, index: m.index, threshold, end: m.end, yes: vec![], no: vec![] });
					}
				},
				1 | 2 if open.is_empty() => {},
				1 => {
					let h = g.pick(&open.keys().cloned().collect::<Vec<_>>()).clone();
					let m = open.get_mut(&h).unwrap();
					let (voter, yes) = (g.below(seats as u64 + 1) as u32, g.chance(3, 4));
					let hash = world::sp_core::H256::from_slice(&h);
					let o = call(&key(10 + voter).id, pallet_collective::Call::<Runtime, Instance1>::vote { proposal: hash, index: m.index, approve: yes });
					if ok(&o) {
						check!(voter < seats, "somebody outside the council voted");
						m.yes.retain(|v| *v != voter);
						m.no.retain(|v| *v != voter);
						if yes { m.yes.push(voter) } else { m.no.push(voter) }
					}
				},
				2 => {
					let h = g.pick(&open.keys().cloned().collect::<Vec<_>>()).clone();
					let m = open[&h].clone();
					let hash = world::sp_core::H256::from_slice(&h);
					// The act itself, tried by root: what an approved motion must do.
					let (would, want) = frozen(|| (ok(&call_root(m.act.clone())), (schemas(), providers(), names())));
					let approved = m.yes.len() as u32 >= m.threshold;
					let over = approved || seats - (m.no.len() as u32) < m.threshold || block() >= m.end;
					let from = event_count();
					let o = call(&key(g.below(20) as u32).id, pallet_collective::Call::<Runtime, Instance1>::close { proposal_hash: hash, index: m.index, proposal_weight_bound: world::frame_support::weights::Weight::from_parts(u64::MAX, u64::MAX), length_bound: 100_000 });
					check_eq!(ok(&o), over, "closing {m:?} of {seats}: {}", why(&o));
					if over {
						open.remove(&h);
					}
					if over && approved {
						quiet = false;
						done += 1;
						let now = (schemas(), providers(), names());
						check_eq!(now, if would { want } else { before.clone() }, "after {m:?} was approved by {} of {seats}", m.yes.len());
						let id = key(m.author).id;
						if would {
							g.nontrivial();
							let events = events_since(from);
							match &m.wish {
								Wish::Provider { name } => {
									check_eq!(now.1[m.author as usize], Some(name.clone()), "the registered provider");
									check!(events.iter().any(|e| matches!(e, RuntimeEvent::Msa(pallet_msa::Event::ProviderCreated { provider_id }) if provider_id.0 == m.author as u64 + 1)), "no event for the new provider");
									g.label("provider");
								},
								Wish::Schema { model, ty, place, .. } => {
									check_eq!(now.0, before.0 + 1, "number of schemas");
									let s = Schemas::get_schema_by_id(now.0).ok_or("the approved schema is missing")?;
									check_eq!((s.model, s.model_type.encode(), s.payload_location.encode(), s.settings), (model.clone(), model_type(*ty).encode(), location(*place).encode(), settings::<world::sp_core::ConstU32<9>>(&m.wish).to_vec()), "the approved schema");
									check!(events.iter().any(|e| matches!(e, RuntimeEvent::Schemas(pallet_schemas::Event::SchemaCreated { key, schema_id }) if *key == id && *schema_id == now.0)), "no event names the author as the schema's creator");
									g.label("schema");
								},
								Wish::Name { .. } => {
									check_eq!(now.2.len(), before.2.len() + 1, "number of named schemas");
									g.label("name");
								},
							}
						} else {
							g.label("approved but impossible");
						}
					} else if over {
						g.label("rejected");
					}
				},
				3 => next_block(),
				_ => skip_blocks(g.uint(50, 120) as u32),
			}
			if quiet {
				check!((schemas(), providers(), names()) == before, "a provider, a schema or a name appeared without an approved motion");
			}
			Ok(())
		})?;
		g.label_if(done > 1, "several approved");
		Ok(())
	})
}

fn main() {
	engine::dict::load(&engine::root(), &["pallet-schemas", "pallet-msa"]);
	engine::main(vec![Property {
		id: "X03",
		rule: "every kind of authority against every source and share of votes, on both networks: every case counts. Calls on random states; non-trivial: the source lacks the authority for a call which an authorised source could make. Histories of motions; non-trivial: an approved motion took effect",
		aspects: vec![engine::enumerated("table", TABLES, x03_table), aspect("calls", 60_000, 2_000_000, x03_calls), aspect("motions", 30_000, 800_000, x03_motions)],
		known: vec![],
	}]);
}
