//! V01: the storage upgrades of messages, schemas and time release on generated old states.
use engine::{aspect, check, check_eq, guarded, Gen, Property, R};
use std::collections::{BTreeMap, BTreeSet};
use world::common_primitives::schema::{ModelType, PayloadLocation, SchemaId, SchemaSetting};
use world::frame_support::traits::fungible::{InspectFreeze, MutateFreeze};
use world::frame_support::traits::{GetStorageVersion, LockableCurrency, OnRuntimeUpgrade, StorageVersion, WithdrawReasons};
use world::parity_scale_codec::{Decode, Encode};
use world::sp_io::hashing::{twox_128, twox_64};
use world::*;

/// Everything stored, by key.
type Raw = BTreeMap<(Vec<u8>, Vec<u8>), Vec<u8>>;
fn raw() -> Raw {
	entries().into_iter().map(|(c, k, v)| ((c, k), v)).collect()
}
fn item(pallet: &str, name: &str) -> Vec<u8> {
	[twox_128(pallet.as_bytes()), twox_128(name.as_bytes())].concat()
}
fn hashed(x: impl Encode) -> Vec<u8> {
	let e = x.encode();
	[&twox_64(&e)[..], &e].concat()
}
fn under<'a>(r: &'a Raw, prefix: &'a [u8]) -> impl Iterator<Item = (&'a Vec<u8>, &'a Vec<u8>)> + 'a {
	r.iter().filter(move |((c, k), _)| c.is_empty() && k.starts_with(prefix)).map(|((_, k), v)| (k, v))
}
/// The difference of two states outside the given prefixes.
fn differ(a: &Raw, b: &Raw, but: &[Vec<u8>]) -> Option<String> {
	let out = |k: &(Vec<u8>, Vec<u8>)| !but.iter().any(|p| k.1.starts_with(p));
	let x: BTreeMap<_, _> = a.iter().filter(|(k, _)| out(k)).collect();
	let y: BTreeMap<_, _> = b.iter().filter(|(k, _)| out(k)).collect();
	let keys: BTreeSet<_> = x.keys().chain(y.keys()).cloned().collect();
	keys.into_iter().find(|k| x.get(*k) != y.get(*k)).map(|k| format!("{:02x?}: {:02x?} became {:02x?}", k.1, x.get(k), y.get(k)))
}
fn version(pallet: &str) -> Vec<u8> {
	item(pallet, ":__STORAGE_VERSION__:")
}
/// Runs the upgrade a second time and on later versions: nothing happens.
fn settled(up: fn(), what: &str) -> R {
	let a = raw();
	guarded(up)?;
	if let Some(d) = differ(&a, &raw(), &[]) {
		return Err(format!("a second upgrade of {what} changed the state: {d}"));
	}
	Ok(())
}
fn some(g: &mut Gen) -> u128 {
	match g.weighted(&[4, 2, 1]) {
		0 => g.uint(1, 50) as u128,
		1 => g.uint(1, 1_000_000_000) as u128,
		_ => 1u128 << g.below(90),
	}
}

// ---- messages -----------------------------------------------------------------------------------

struct Old {
	payload: Vec<u8>,
	provider: u64,
	msa: Option<u64>,
	index: u16,
}
fn up_messages() {
	pallet_messages::migration::v2::MigrateToV2::<Runtime>::on_runtime_upgrade();
}
fn messages(g: &mut Gen) -> R {
	reset_knobs();
	chain(&[], || {
		set_block(g.uint(2, 1_000_000) as u32);
		let mut want: BTreeMap<(u32, u16, u16), (u64, Option<u64>, Vec<u8>)> = BTreeMap::new();
		let mut left: BTreeMap<(u32, u16), Vec<Old>> = BTreeMap::new();
		let old = g.chance(7, 8);
		for _ in 0..g.usize(0, 4) {
			let b = match g.weighted(&[4, 1, 1]) {
				0 => g.uint(1, 5) as u32,
				1 => g.uint(250, 70_000) as u32,
				_ => 0,
			};
			let mut at = 0u16;
			let many = g.chance(1, 12);
			for _ in 0..g.usize(0, if many { 150 } else { 6 }) {
				let s = *g.pick(&[1u16, 2, 3, 256, u16::MAX]);
				let m = Old { payload: g.bytes(0, 12), provider: g.uint(1, 9), msa: if g.bool() { Some(g.uint(0, 300)) } else { None }, index: at };
				if g.chance(1, 6) {
					at += g.uint(0, 300) as u16;
				}
				at += 1;
				if left.keys().any(|k| k.0 == b && left[k].iter().any(|o| o.index == m.index)) {
					continue;
				}
				left.entry((b, s)).or_default().push(m);
			}
		}
		// a list may be empty
		if g.chance(1, 8) {
			left.entry((9, 9)).or_default();
		}
		let old_prefix = item("Messages", "Messages");
		let new_prefix = item("Messages", "MessagesV2");
		for ((b, s), l) in &left {
			world::sp_io::storage::set(&[old_prefix.clone(), hashed(*b), hashed(*s)].concat(), &l.iter().map(|o| (&o.payload, &o.provider, &o.msa, &o.index)).collect::<Vec<_>>().encode());
			for o in l {
				want.insert((*b, *s, o.index), (o.provider, o.msa, o.payload.clone()));
			}
		}
		g.note(|| format!("lists of {:?} messages", left.iter().map(|(k, v)| (k, v.len())).collect::<Vec<_>>()));
		StorageVersion::new(if old { g.below(2) as u16 } else { g.uint(2, 3) as u16 }).put::<Messages>();
		let before = raw();
		guarded(up_messages)?;
		let after = raw();
		if !old {
			g.label("already-upgraded");
			return differ(&before, &after, &[]).map_or(Ok(()), |d| Err(format!("an upgraded state changed: {d}")));
		}
		if let Some(d) = differ(&before, &after, &[old_prefix.clone(), new_prefix.clone(), version("Messages")]) {
			return Err(format!("something other than messages changed: {d}"));
		}
		check_eq!(under(&after, &old_prefix).count(), 0, "lists of the old form left");
		check!(Messages::on_chain_storage_version() == 2, "version after the upgrade");
		let got: BTreeMap<Vec<u8>, Vec<u8>> = under(&after, &new_prefix).map(|(k, v)| (k[32..].to_vec(), v.clone())).collect();
		let bytes: BTreeMap<Vec<u8>, Vec<u8>> = want.iter().map(|((b, s, i), (p, m, d))| ([hashed(*b), hashed(*s), hashed(*i)].concat(), (d, p, m).encode())).collect();
		check_eq!(got.len(), bytes.len(), "messages after the upgrade");
		for ((b, s, i), (p, m, d)) in &want {
			let msg = Messages::get_messages_v2((*b, *s, *i));
			let msg = msg.map(|x| (x.provider_msa_id, x.msa_id, x.payload.to_vec()));
			check_eq!(msg, Some((*p, *m, d.clone())), "message {i} of schema {s} in block {b}");
			let k = [hashed(*b), hashed(*s), hashed(*i)].concat();
			check_eq!(got.get(&k), bytes.get(&k), "stored form of message {i} of schema {s} in block {b}");
		}
		if want.len() >= 2 {
			g.nontrivial();
		}
		settled(up_messages, "messages")
	})
}

// ---- schemas ------------------------------------------------------------------------------------

const KNOWN: [(u16, &str, &str); 6] =
	[(5, "dsnp", "update"), (6, "dsnp", "profile"), (7, "dsnp", "public-key-key-agreement"), (8, "dsnp", "public-follows"), (9, "dsnp", "private-follows"), (10, "dsnp", "private-connections")];
const MAINNET: &str = "4a587bf17a404e3572747add7aab7bbe56e805a5479c6c436f07f36fcc8d3ae1";

fn up_schemas() {
	pallet_schemas::migration::v4::MigrateToV4::<Runtime>::on_runtime_upgrade();
}
fn schemas(g: &mut Gen) -> R {
	reset_knobs();
	chain(&[], || {
		set_block(g.uint(1, 1_000_000) as u32);
		let mut hash: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&MAINNET[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
		let main = g.chance(2, 3);
		if !main {
			match g.below(3) {
				0 => hash = vec![0; 32],
				1 => hash[g.below(32) as usize] ^= 1 << g.below(8),
				_ => hash = (0..32).map(|_| g.byte()).collect(),
			}
		}
		frame_system::BlockHash::<Runtime>::insert(0u32, world::sp_core::H256::from_slice(&hash));
		let mut names: BTreeMap<(String, String), Vec<u16>> = BTreeMap::new();
		let mut named: BTreeSet<u16> = BTreeSet::new();
		let n = if g.chance(1, 3) { g.usize(0, 9) } else { g.usize(10, 13) };
		for _ in 0..n {
			let name = match g.weighted(&[3, 2, 1]) {
				0 => None,
				1 => {
					let k = g.pick(&KNOWN);
					Some((k.1.to_string(), k.2.to_string()))
				},
				_ => Some(("dsnp".to_string(), g.pick(&["updat", "updates", "profil", "x"]).to_string())),
			};
			let settings: Vec<SchemaSetting> = if g.bool() { vec![SchemaSetting::SignatureRequired] } else { vec![] };
			let place = [PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated][g.below(4) as usize];
			let full = name.as_ref().map(|n| pallet_schemas::SchemaName { namespace: n.0.clone().into_bytes().try_into().unwrap_or_default(), descriptor: n.1.clone().into_bytes().try_into().unwrap_or_default() });
			let id: SchemaId = Schemas::add_schema(b"{\"type\":\"null\"}".to_vec().try_into().unwrap_or_default(), ModelType::AvroBinary, place, settings.try_into().unwrap_or_default(), full).map_err(|e| format!("{e:?}"))?;
			if let Some(n) = name {
				named.insert(id);
				names.entry(n).or_default().push(id);
			}
		}
		g.note(|| format!("{n} schemas, named {names:?}{}", if main { "" } else { ", not the main network" }));
		let old = g.chance(7, 8);
		StorageVersion::new(if old { g.below(4) as u16 } else { g.uint(4, 5) as u16 }).put::<Schemas>();
		let infos: BTreeMap<u16, _> = (1..=n as u16).map(|i| (i, Schemas::get_schema_info(i))).collect();
		let before = raw();
		guarded(up_schemas)?;
		let after = raw();
		if !old {
			g.label("already-upgraded");
			return differ(&before, &after, &[]).map_or(Ok(()), |d| Err(format!("an upgraded state changed: {d}")));
		}
		check!(Schemas::on_chain_storage_version() == 4, "version after the upgrade");
		let touched = [item("Schemas", "SchemaInfos"), item("Schemas", "SchemaNameToIds"), version("Schemas")];
		if let Some(d) = differ(&before, &after, if main { &touched } else { &touched[2..] }) {
			return Err(format!("something else changed: {d}"));
		}
		let mut changed = 0;
		if main {
			for (id, a, b) in KNOWN {
				if id as usize <= n {
					names.insert((a.into(), b.into()), vec![id]);
					named.insert(id);
					changed += 1;
				}
			}
		}
		for (id, was) in &infos {
			let want = was.clone().map(|mut i| {
				i.has_name = named.contains(id);
				i
			});
			check_eq!(Schemas::get_schema_info(*id), want, "schema {id} after the upgrade");
		}
		check_eq!(under(&after, &touched[0]).count(), n, "schemas after the upgrade");
		let mut count = 0;
		for ((a, b), ids) in &names {
			let got = Schemas::get_schema_ids(pallet_schemas::SchemaNamespace::try_from(a.clone().into_bytes()).unwrap_or_default(), pallet_schemas::SchemaDescriptor::try_from(b.clone().into_bytes()).unwrap_or_default());
			check_eq!(got.ids.to_vec(), ids.clone(), "versions of {a}.{b} after the upgrade");
			count += 1;
		}
		check_eq!(under(&after, &touched[1]).count(), count, "names after the upgrade");
		if changed > 0 {
			g.nontrivial();
		}
		settled(up_schemas, "schemas")
	})
}

// ---- locks to freezes ---------------------------------------------------------------------------

const NACC: usize = 5;
type Freeze = RuntimeFreezeReason;
fn freeze_of(f: Freeze, k: &Key) -> u128 {
	<Balances as InspectFreeze<_>>::balance_frozen(&f, &k.id)
}
fn lock_of(id: [u8; 8], k: &Key) -> u128 {
	pallet_balances::Pallet::<Runtime>::locks(&k.id).iter().find(|l| l.id == id).map_or(0, |l| l.amount)
}
fn time_release(g: &mut Gen) -> R {
	reset_knobs();
	let k: Vec<Key> = (0..NACC as u32).map(key).collect();
	let mine: Freeze = Freeze::TimeRelease(pallet_time_release::FreezeReason::TimeReleaseVesting);
	let other: Freeze = Freeze::Capacity(pallet_capacity::FreezeReason::CapacityStaking);
	let id: [u8; 8] = *b"timeRels";
	let other_id: [u8; 8] = *b"netstkng";
	chain(&k.iter().map(|k| (k.id.clone(), 1u128 << 100)).collect::<Vec<_>>(), || {
		set_block(g.uint(1, 200) as u32);
		let mut want = [0u128; NACC];
		for (i, k) in k.iter().enumerate() {
			let mut chunks = 0;
			if g.chance(2, 3) {
				{
					let l: Vec<pallet_time_release::ReleaseSchedule<u32, u128>> = (0..g.usize(1, 4))
						.map(|_| pallet_time_release::ReleaseSchedule { start: g.uint(0, 300) as u32, period: g.uint(1, 50) as u32, period_count: g.uint(1, 9) as u32, per_period: some(g) })
						.collect();
					want[i] = l.iter().map(|s| s.period_count as u128 * s.per_period).sum();
					chunks = l.len();
					pallet_time_release::ReleaseSchedules::<Runtime>::insert(&k.id, frame_support_vec(l)?);
				}
				pallet_balances::Pallet::<Runtime>::set_lock(id, &k.id, want[i], WithdrawReasons::all());
			}
			// what others locked and froze stays
			if g.chance(1, 3) {
				pallet_balances::Pallet::<Runtime>::set_lock(*g.pick(&[other_id, *b"democrac"]), &k.id, some(g), WithdrawReasons::all());
			}
			if g.chance(1, 3) {
				let _ = <Balances as MutateFreeze<_>>::set_freeze(&other, &k.id, some(g));
			}
			g.note(|| format!("account {i}: {} to freeze ({chunks} schedules), lock {}", want[i], lock_of(id, k)));
		}
		let old = g.chance(7, 8);
		StorageVersion::new(if old { g.below(2) as u16 } else { g.uint(2, 3) as u16 }).put::<TimeRelease>();
		let up: fn() = || {
			pallet_time_release::migration::v2::MigrationToV2::<Runtime, pallet_balances::Pallet<Runtime>>::on_runtime_upgrade();
		};
		let kept: Vec<_> = k.iter().map(|k| (lock_of(other_id, k), lock_of(*b"democrac", k), freeze_of(other, k), Balances::free_balance(&k.id), Balances::reserved_balance(&k.id))).collect();
		let before = raw();
		guarded(up)?;
		let after = raw();
		if !old {
			g.label("already-upgraded");
			return differ(&before, &after, &[]).map_or(Ok(()), |d| Err(format!("an upgraded state changed: {d}")));
		}
		let name = "TimeRelease";
		let but = [item("Balances", "Locks"), item("Balances", "Freezes"), item("System", "Account"), item("System", "Events"), version(name)];
		if let Some(d) = differ(&before, &after, &but) {
			return Err(format!("something else changed: {d}"));
		}
		check!(TimeRelease::on_chain_storage_version() == 2, "version after the upgrade");
		let mut moved = 0;
		for (i, k) in k.iter().enumerate() {
			check_eq!(lock_of(id, k), 0, "lock of account {i} left after the upgrade");
			check_eq!(freeze_of(mine, k), want[i], "frozen for account {i} after the upgrade");
			let now = (lock_of(other_id, k), lock_of(*b"democrac", k), freeze_of(other, k), Balances::free_balance(&k.id), Balances::reserved_balance(&k.id));
			check_eq!(now, kept[i], "account {i}: other locks and freezes, balances");
			moved += (want[i] > 0) as u32;
		}
		if moved >= 2 {
			g.nontrivial();
		}
		settled(up, name)?;
		// the tokens can be had back once they are due
		set_block(1_000_000);
		RelayBlock::set(1_000_000);
		for (i, k) in k.iter().enumerate() {
			if want[i] > 0 {
				let o = call(&k.id, pallet_time_release::Call::<Runtime>::claim {});
				check!(ok(&o), "account {i} cannot take back what is due after the upgrade: {}", why(&o));
				check_eq!(freeze_of(mine, k), 0, "still frozen for account {i} when everything is due");
			}
		}
		Ok(())
	})
}
fn frame_support_vec<T, S: world::frame_support::traits::Get<u32>>(l: Vec<T>) -> Result<world::frame_support::BoundedVec<T, S>, String> {
	l.try_into().map_err(|_| "too many".to_string())
}
fn main() {
	engine::dict::load(&engine::root(), &["pallet-schemas"]);
	engine::main(vec![Property {
		id: "V01",
		rule: "states in the old form of one pallet, of any version; non-trivial: at least two messages, a known schema, or two accounts are carried over",
		aspects: vec![aspect("messages", 20_000, 400_000, messages), aspect("schemas", 20_000, 400_000, schemas), aspect("time-release", 20_000, 400_000, time_release)],
		known: vec![],
	}]);
}
