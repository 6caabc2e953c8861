//! Z01: whatever is done in whatever order, the tables of all pallets stay consistent with each other.
//! E01: a listener that sees only the events knows the state.
use engine::{aspect, check, check_eq, Gen, Known, Property, R};
use std::collections::{BTreeMap, BTreeSet};
use world::calls;
use world::common_primitives::{handles::ClaimHandlePayload, msa::*, node::AccountId, schema::*};
use world::frame_support::traits::fungible::{Inspect, InspectFreeze};
use world::frame_support::BoundedVec;
use world::pallet_stateful_storage::types::*;
use world::parity_scale_codec::{Decode, Encode};
use world::*;

const PEOPLE: u32 = 8;
const MODEL: &[u8] = br#"{"type":"record","name":"r","fields":[]}"#;

#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Tables,
	Events,
}
/// What the events alone tell.
#[derive(Default)]
struct Told {
	last_account: u64,
	/// Every account there ever was.
	ever: BTreeSet<u64>,
	keys: BTreeMap<AccountId, u64>,
	grants: BTreeSet<(u64, u64)>,
	/// Those there ever were.
	granted: BTreeSet<(u64, u64)>,
	providers: BTreeSet<u64>,
	handles: BTreeMap<u64, Vec<u8>>,
	schemas: BTreeMap<u16, AccountId>,
	named: BTreeMap<Vec<u8>, Vec<u16>>,
	max_model: Option<u32>,
	items: BTreeMap<(u64, u16), u32>,
	pages: BTreeMap<(u64, u16, u16), u32>,
	stakes: BTreeMap<(AccountId, u64), (u128, u128)>,
	unlocking: BTreeMap<AccountId, u128>,
	spent: BTreeMap<u64, u128>,
	epoch: Option<u32>,
	locked: BTreeMap<AccountId, Vec<pallet_time_release::ReleaseSchedule<u32, u128>>>,
	/// Accounts whose schedules were replaced by governance: what they are now is not in the event.
	replaced: BTreeSet<AccountId>,
	claimed: BTreeSet<AccountId>,
	messages: usize,
}
impl Told {
	/// The account of this key meets the conditions for being retired, or there is none.
	fn retirable(&self, id: &AccountId) -> bool {
		let Some(m) = self.keys.get(id) else { return true };
		self.keys.values().filter(|x| *x == m).count() == 1 && !self.providers.contains(m) && !self.handles.contains_key(m) && !self.grants.iter().any(|x| x.0 == *m)
	}
	fn owns(&self, m: u64) -> bool {
		self.keys.values().any(|x| *x == m)
	}
	fn hear(&mut self, e: RuntimeEvent) -> R {
		match e {
			RuntimeEvent::Msa(e) => self.hear_msa(e),
			RuntimeEvent::Handles(e) => match e {
				pallet_handles::Event::HandleClaimed { msa_id, handle } => {
					check!(self.owns(msa_id), "a handle is claimed by account {msa_id}, which nobody controls");
					check!(!self.handles.values().any(|h| *h == handle), "handle {handle:02x?} is announced twice");
					let old = self.handles.insert(msa_id, handle);
					check!(old.is_none(), "account {msa_id} claims a second handle");
					Ok(())
				},
				pallet_handles::Event::HandleRetired { msa_id, handle } => {
					check_eq!(Some(handle), self.handles.remove(&msa_id), "handle announced as retired by account {msa_id}");
					Ok(())
				},
				_ => Ok(()),
			},
			RuntimeEvent::Schemas(e) => match e {
				pallet_schemas::Event::SchemaCreated { key, schema_id } => {
					check!(self.schemas.keys().all(|s| *s < schema_id), "schema {schema_id} announced after {:?}", self.schemas.keys().last());
					self.schemas.insert(schema_id, key);
					Ok(())
				},
				pallet_schemas::Event::SchemaNameCreated { schema_id, name } => {
					check!(self.schemas.contains_key(&schema_id), "schema {schema_id}, which does not exist, is named");
					check!(self.named.values().all(|v| !v.contains(&schema_id)), "schema {schema_id} is named again");
					self.named.entry(name).or_default().push(schema_id);
					Ok(())
				},
				pallet_schemas::Event::SchemaMaxSizeChanged { max_size } => {
					self.max_model = Some(max_size);
					Ok(())
				},
				_ => Ok(()),
			},
			RuntimeEvent::Messages(e) => {
				if e == pallet_messages::Event::MessagesInBlock {
					self.messages += 1;
				}
				Ok(())
			},
			RuntimeEvent::StatefulStorage(e) => match e {
				pallet_stateful_storage::Event::ItemizedPageUpdated { msa_id, schema_id, prev_content_hash, curr_content_hash } => {
					let old = self.items.insert((msa_id, schema_id), curr_content_hash);
					check_eq!(prev_content_hash, old.unwrap_or(0), "announced former hash of the items of {msa_id} in {schema_id}");
					Ok(())
				},
				pallet_stateful_storage::Event::ItemizedPageDeleted { msa_id, schema_id, prev_content_hash } => {
					let old = self.items.remove(&(msa_id, schema_id));
					check_eq!(prev_content_hash, old.unwrap_or(0), "announced hash of the deleted items of {msa_id} in {schema_id}");
					Ok(())
				},
				pallet_stateful_storage::Event::PaginatedPageUpdated { msa_id, schema_id, page_id, prev_content_hash, curr_content_hash } => {
					let old = self.pages.insert((msa_id, schema_id, page_id), curr_content_hash);
					check_eq!(prev_content_hash, old.unwrap_or(0), "announced former hash of page {page_id} of {msa_id} in {schema_id}");
					Ok(())
				},
				pallet_stateful_storage::Event::PaginatedPageDeleted { msa_id, schema_id, page_id, prev_content_hash } => {
					let old = self.pages.remove(&(msa_id, schema_id, page_id));
					check_eq!(Some(prev_content_hash), old, "announced hash of the deleted page {page_id} of {msa_id} in {schema_id}");
					Ok(())
				},
				_ => Ok(()),
			},
			RuntimeEvent::Capacity(e) => self.hear_capacity(e),
			RuntimeEvent::TimeRelease(e) => match e {
				pallet_time_release::Event::ReleaseScheduleAdded { to, release_schedule, .. } => {
					self.locked.entry(to).or_default().push(release_schedule);
					Ok(())
				},
				pallet_time_release::Event::Claimed { who, .. } => {
					self.claimed.insert(who);
					Ok(())
				},
				pallet_time_release::Event::ReleaseSchedulesUpdated { who } => {
					self.replaced.insert(who);
					Ok(())
				},
				_ => Ok(()),
			},
			_ => Ok(()),
		}
	}
	fn hear_msa(&mut self, e: pallet_msa::Event<Runtime>) -> R {
		use pallet_msa::Event::*;
		match e {
			MsaCreated { msa_id, key } => {
				check!(msa_id > self.last_account, "account {msa_id} is created after account {}", self.last_account);
				self.last_account = msa_id;
				self.ever.insert(msa_id);
				check!(self.keys.insert(key, msa_id).is_none(), "account {msa_id} is created for a key in use");
			},
			PublicKeyAdded { msa_id, key } => {
				check!(self.owns(msa_id), "a key is added to account {msa_id}, which nobody controls");
				check!(self.keys.insert(key, msa_id).is_none(), "a key in use is added to account {msa_id}");
			},
			PublicKeyDeleted { key } => check!(self.keys.remove(&key).is_some(), "a key without an account is deleted"),
			MsaRetired { msa_id } => {
				check!(msa_id <= self.last_account && !self.owns(msa_id), "account {msa_id} is retired with keys left, or never existed");
				check!(!self.handles.contains_key(&msa_id), "account {msa_id} is retired with its handle");
				check!(!self.providers.contains(&msa_id), "provider {msa_id} is retired");
				check!(!self.grants.iter().any(|x| x.0 == msa_id), "account {msa_id} is retired with delegations");
			},
			DelegationGranted { provider_id, delegator_id } => {
				check!(self.providers.contains(&provider_id.0), "account {} delegates to {}, no provider", delegator_id.0, provider_id.0);
				check!(self.owns(delegator_id.0), "account {}, which nobody controls, delegates", delegator_id.0);
				self.grants.insert((delegator_id.0, provider_id.0));
				self.granted.insert((delegator_id.0, provider_id.0));
			},
			// A delegation lasts through the block in which it is revoked, so it may still be changed then.
			DelegationUpdated { provider_id, delegator_id } => check!(self.granted.contains(&(delegator_id.0, provider_id.0)), "no delegation of {} to {} to be updated", delegator_id.0, provider_id.0),
			DelegationRevoked { provider_id, delegator_id } => check!(self.grants.remove(&(delegator_id.0, provider_id.0)), "no delegation of {} to {} to be revoked", delegator_id.0, provider_id.0),
			ProviderCreated { provider_id } => {
				check!(self.owns(provider_id.0), "account {}, which nobody controls, becomes a provider", provider_id.0);
				check!(self.providers.insert(provider_id.0), "account {} becomes a provider twice", provider_id.0);
			},
			_ => {},
		}
		Ok(())
	}
	fn hear_capacity(&mut self, e: pallet_capacity::Event<Runtime>) -> R {
		use pallet_capacity::Event::*;
		match e {
			Staked { account, target, amount, capacity } => {
				check!(self.providers.contains(&target), "tokens staked for {target}, no provider");
				let s = self.stakes.entry((account, target)).or_default();
				*s = (s.0 + amount, s.1 + capacity);
			},
			UnStaked { account, target, amount, capacity } => {
				let s = self.stakes.entry((account.clone(), target)).or_default();
				check!(amount <= s.0 && capacity <= s.1, "announced as unstaked from {target}: {amount} of {} tokens, {capacity} of {} capacity", s.0, s.1);
				*s = (s.0 - amount, s.1 - capacity);
				*self.unlocking.entry(account).or_default() += amount;
			},
			StakeWithdrawn { account, amount } => {
				let u = self.unlocking.entry(account).or_default();
				check!(amount > 0 && amount <= *u, "announced as withdrawn: {amount} of {u}");
				*u -= amount;
			},
			CapacityWithdrawn { msa_id, amount } => *self.spent.entry(msa_id).or_default() += amount,
			EpochLengthUpdated { blocks } => self.epoch = Some(blocks),
			_ => {},
		}
		Ok(())
	}
	/// The state is what the events said.
	fn agrees(&self) -> R {
		let keys: BTreeMap<AccountId, u64> = pallet_msa::PublicKeyToMsaId::<Runtime>::iter().collect();
		check!(keys == self.keys, "{} keys with an account; the events tell of {}", keys.len(), self.keys.len());
		let grants: BTreeSet<(u64, u64)> = pallet_msa::DelegatorAndProviderToDelegation::<Runtime>::iter().filter(|x| x.2.revoked_at == 0).map(|x| (x.0 .0, x.1 .0)).collect();
		check_eq!(&grants, &self.grants, "delegations, and what the events tell of them");
		let providers: BTreeSet<u64> = pallet_msa::ProviderToRegistryEntry::<Runtime>::iter().map(|x| x.0 .0).collect();
		check_eq!(&providers, &self.providers, "providers, and what the events tell of them");
		let handles: BTreeMap<u64, Vec<u8>> = pallet_handles::MSAIdToDisplayName::<Runtime>::iter().map(|(m, (h, _))| (m, h.to_vec())).collect();
		check_eq!(&handles, &self.handles, "handles, and what the events tell of them");
		for s in self.schemas.keys() {
			check!(Schemas::get_schema_info_by_id(*s).is_some(), "schema {s} was announced and does not exist");
		}
		check_eq!(count(b"Schemas", b"SchemaInfos"), self.schemas.len(), "number of schemas, and what the events tell of it");
		for (name, ids) in &self.named {
			let got: Vec<u16> = Schemas::get_schema_versions(name.clone()).map_or(vec![], |v| v.into_iter().map(|x| x.schema_id).collect());
			check_eq!(&got, ids, "versions of {:?}, and what the events tell of them", String::from_utf8_lossy(name));
		}
		check_eq!(count(b"Schemas", b"SchemaNameToIds"), self.named.len(), "number of schema names, and what the events tell of it");
		if let Some(max) = self.max_model {
			check_eq!(Schemas::get_schema_model_max_bytes(), max, "largest schema, and what the events tell of it");
		}
		let owners: BTreeSet<u64> = self.keys.values().copied().chain(self.items.keys().map(|k| k.0)).chain(self.pages.keys().map(|k| k.0)).collect();
		for s in self.schemas.keys() {
			let place = Schemas::get_schema_info_by_id(*s).map(|i| i.payload_location);
			for m in &owners {
				match place {
					Some(PayloadLocation::Itemized) => {
						let got = StatefulStorage::get_itemized_storage(*m, *s).map_err(|_| format!("the items of {m} in {s} cannot be read"))?;
						check_eq!(got.content_hash, self.items.get(&(*m, *s)).copied().unwrap_or(0), "hash of the items of {m} in {s}, and what the events tell of it");
					},
					Some(PayloadLocation::Paginated) => {
						let got: BTreeMap<u16, u32> = StatefulStorage::get_paginated_storage(*m, *s).map_err(|_| format!("the pages of {m} in {s} cannot be read"))?.into_iter().map(|p| (p.page_id, p.content_hash)).collect();
						let want: BTreeMap<u16, u32> = self.pages.iter().filter(|(k, _)| k.0 == *m && k.1 == *s).map(|(k, v)| (k.2, *v)).collect();
						check_eq!(got, want, "hashes of the pages of {m} in {s}, and what the events tell of them");
					},
					_ => {},
				}
			}
		}
		for n in 0..PEOPLE {
			let id = key(n).id;
			let mut sum = 0;
			for t in &self.providers {
				let got = Capacity::get_target_for(&id, t).map_or((0, 0), |x| (x.amount, x.capacity));
				let want = self.stakes.get(&(id.clone(), *t)).copied().unwrap_or_default();
				check_eq!(got, want, "stake of {n} for {t}, and what the events tell of it");
				sum += want.0;
			}
			check_eq!(Capacity::get_staking_account_for(&id).map_or(0, |x| x.active), sum, "active stake of {n}, and what the events tell of it");
			let waiting: u128 = Capacity::get_unstake_unlocking_for(&id).map_or(0, |l| l.iter().map(|c| c.value).sum());
			check_eq!(waiting, self.unlocking.get(&id).copied().unwrap_or(0), "unlocking tokens of {n}, and what the events tell of them");
			if !self.replaced.contains(&id) {
				let now = block();
				let told: u128 = self.locked.get(&id).map_or(0, |l| l.iter().map(|s| s.frozen_amount(now)).sum());
				let have: u128 = pallet_time_release::ReleaseSchedules::<Runtime>::get(&id).iter().map(|s| s.frozen_amount(now)).sum();
				check_eq!(have, told, "tokens of {n} still to be released, and what the events tell of them");
			}
		}
		if let Some(e) = self.epoch {
			check_eq!(Capacity::get_epoch_length(), e, "epoch length, and what the events tell of it");
		}
		Ok(())
	}
}
/// Number of entries of a table.
fn count(pallet: &[u8], item: &[u8]) -> usize {
	let prefix = [world::sp_core::hashing::twox_128(pallet), world::sp_core::hashing::twox_128(item)].concat();
	entries().iter().filter(|(c, k, _)| c.is_empty() && k.starts_with(&prefix)).count()
}
fn ledgers() -> BTreeMap<u64, (u128, u128, u128, u32)> {
	pallet_capacity::CapacityLedger::<Runtime>::iter().map(|(m, d)| (m, (d.remaining_capacity, d.total_tokens_staked, d.total_capacity_issued, d.last_replenished_epoch))).collect()
}
fn money() -> u128 {
	(0..PEOPLE).map(|n| <Balances as Inspect<_>>::total_balance(&key(n).id)).sum()
}

/// What must hold of the tables together, at any time.
fn consistent(t: &Told) -> R {
	// accounts and keys
	let last = pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::get();
	let mut of: BTreeMap<u64, usize> = BTreeMap::new();
	for (_, m) in pallet_msa::PublicKeyToMsaId::<Runtime>::iter() {
		check!(m >= 1 && m <= last, "a key controls account {m}; the latest is {last}");
		*of.entry(m).or_default() += 1;
	}
	for (m, n) in &of {
		check_eq!(Msa::get_public_key_count_by_msa_id(*m) as usize, *n, "recorded number of keys of account {m}");
		check!(*n <= MaxPublicKeysPerMsa::get() as usize, "account {m} has {n} keys, limit {}", MaxPublicKeysPerMsa::get());
	}
	for m in t.ever.iter().copied().filter(|m| !of.contains_key(m)) {
		check_eq!(Msa::get_public_key_count_by_msa_id(m), 0, "recorded number of keys of account {m}, which nobody controls");
	}
	let newest = Schemas::get_current_schema_identifier_maximum();
	// providers and delegations
	let mut providers = BTreeSet::new();
	for (p, e) in pallet_msa::ProviderToRegistryEntry::<Runtime>::iter() {
		check!(of.contains_key(&p.0), "provider {} is an account nobody controls", p.0);
		check!(e.provider_name.len() <= MaxProviderNameSize::get() as usize, "the name of provider {} has {} bytes", p.0, e.provider_name.len());
		providers.insert(p.0);
	}
	for (d, p, g) in pallet_msa::DelegatorAndProviderToDelegation::<Runtime>::iter() {
		check!(providers.contains(&p.0), "account {} delegates to {}, no provider", d.0, p.0);
		check!(d.0 != p.0, "account {} delegates to itself", d.0);
		check!(g.revoked_at <= block(), "the delegation of {} to {} ended in the future", d.0, p.0);
		if g.revoked_at == 0 {
			check!(of.contains_key(&d.0), "account {}, which nobody controls, has a delegation", d.0);
		}
		check!(g.schema_permissions.len() <= MaxSchemaGrants::get() as usize, "a delegation with {} permissions", g.schema_permissions.len());
		for (s, at) in g.schema_permissions.iter() {
			check!(*s >= 1 && *s <= newest, "a permission for schema {s}; the latest is {newest}");
			check!(*at <= block(), "a permission that ended in the future, at {at}");
		}
	}
	// handles
	let (mut shown, mut canon) = (BTreeMap::new(), BTreeSet::new());
	for (m, (h, _)) in pallet_handles::MSAIdToDisplayName::<Runtime>::iter() {
		check!(of.contains_key(&m), "handle {:?} belongs to account {m}, which nobody controls", String::from_utf8_lossy(&h));
		let text = core::str::from_utf8(&h).map_err(|_| "a handle that is no text")?.to_string();
		let (_, suffix) = text.rsplit_once('.').ok_or("a handle without a suffix")?;
		let suffix: u16 = suffix.parse().map_err(|_| "a handle whose suffix is no number")?;
		check!((HandleSuffixMin::get()..=HandleSuffixMax::get()).contains(&suffix), "suffix {suffix} of {text}");
		check_eq!(Handles::get_msa_id_for_handle(h.clone()), Some(m), "owner of {text}");
		check!(shown.insert(m, suffix).is_none(), "account {m} is listed twice");
	}
	for (base, suffix, m) in pallet_handles::CanonicalBaseHandleAndSuffixToMSAId::<Runtime>::iter() {
		check_eq!(shown.get(&m), Some(&suffix), "suffix of the handle of account {m}, which is listed as owner of {:?}.{suffix}", String::from_utf8_lossy(&base));
		check!(canon.insert(m), "account {m} owns two handles");
		check!(pallet_handles::CanonicalBaseHandleToSuffixIndex::<Runtime>::contains_key(&base), "handle {:?}.{suffix} is owned and its sequence was never begun", String::from_utf8_lossy(&base));
	}
	check_eq!(canon.len(), shown.len(), "handles owned, and handles shown");
	// schemas
	for s in t.schemas.keys() {
		check!(*s <= newest, "schema {s}; the latest is {newest}");
		let (a, b) = (Schemas::get_schema_by_id(*s), Schemas::get_schema_info_by_id(*s));
		check!(a.is_some() && b.is_some(), "schema {s} has {} and {}", if a.is_some() { "a model" } else { "no model" }, if b.is_some() { "a record" } else { "no record" });
	}
	check_eq!(count(b"Schemas", b"SchemaInfos"), count(b"Schemas", b"SchemaPayloads"), "numbers of schema records and of schema models");
	// what is stored for accounts
	let place = |s: u16| Schemas::get_schema_info_by_id(s).map(|i| i.payload_location);
	for (m, s) in t.items.keys() {
		check_eq!(place(*s), Some(PayloadLocation::Itemized), "place of schema {s}, in which {m} has items");
		let page = StatefulStorage::get_itemized_storage(*m, *s).map_err(|_| format!("the items of {m} in {s} cannot be read"))?;
		let bytes: usize = page.items.iter().map(|i| i.payload.len() + 2).sum();
		check!(!page.items.is_empty() && bytes <= MaxItemizedPageBytes::get() as usize, "{} items of {bytes} bytes", page.items.len());
	}
	for (m, s, p) in t.pages.keys() {
		check_eq!(place(*s), Some(PayloadLocation::Paginated), "place of schema {s}, in which {m} has pages");
		check!(*p <= MaxPaginatedPageId::get(), "page {p}");
	}
	// money
	let mut per: BTreeMap<u64, (u128, u128)> = BTreeMap::new();
	for n in 0..PEOPLE {
		let id = key(n).id;
		let (mut amount, mut targets) = (0, 0);
		for (m, x) in pallet_capacity::StakingTargetLedger::<Runtime>::iter_prefix(&id) {
			amount += x.amount;
			targets += 1;
			check!(x.amount > 0, "a stake of nothing for {m}");
			check!(providers.contains(&m), "tokens staked for {m}, no provider");
			let e = per.entry(m).or_default();
			*e = (e.0 + x.amount, e.1 + x.capacity);
		}
		let active = Capacity::get_staking_account_for(&id).map(|x| x.active);
		check_eq!(active.unwrap_or(0), amount, "active stake of {n} and sum of its {targets} stakes");
		let waiting: u128 = Capacity::get_unstake_unlocking_for(&id).map_or(0, |l| l.iter().map(|c| c.value).sum());
		let frozen = <Balances as InspectFreeze<_>>::balance_frozen(&RuntimeFreezeReason::Capacity(pallet_capacity::FreezeReason::CapacityStaking), &id);
		check_eq!(frozen, amount + waiting, "tokens of {n} frozen for staking, {amount} staked and {waiting} unlocking");
		let held = <Balances as InspectFreeze<_>>::balance_frozen(&RuntimeFreezeReason::TimeRelease(pallet_time_release::FreezeReason::TimeReleaseVesting), &id);
		let due: u128 = pallet_time_release::ReleaseSchedules::<Runtime>::get(&id).iter().map(|s| s.frozen_amount(block())).sum();
		check!(held >= due, "{due} tokens of {n} are not yet released, and {held} are frozen");
		let have = <Balances as Inspect<_>>::total_balance(&id);
		check!(have >= frozen.max(held), "{n} has {have} tokens, {frozen} frozen for staking and {held} to be released");
	}
	for (m, (left, tokens, issued, epoch)) in ledgers() {
		check_eq!((tokens, issued), per.get(&m).copied().unwrap_or_default(), "tokens staked for {m} and capacity issued for them");
		check!(left <= issued, "provider {m} has {left} capacity of {issued}");
		check!(epoch <= Capacity::get_current_epoch(), "capacity of {m} was last refilled in epoch {epoch}");
	}
	check!(per.keys().all(|m| ledgers().contains_key(m)), "a provider with stakes and no capacity");
	Ok(())
}

/// Hears what was announced since the last time.
struct Ear {
	t: Told,
	heard: usize,
}
impl Ear {
	fn listen(&mut self) -> R {
		for e in events_since(self.heard) {
			self.t.hear(e)?;
		}
		self.heard = event_count();
		Ok(())
	}
	fn next_block(&mut self, n: u32) -> R {
		let now = block();
		let stored: usize = self.t.schemas.keys().map(|s| Messages::get_messages_by_schema_and_block(*s, PayloadLocation::OnChain, now).len() + Messages::get_messages_by_schema_and_block(*s, PayloadLocation::IPFS, now).len()).sum();
		check_eq!(self.t.messages, (stored > 0) as usize, "announcements of messages in a block with {}", if stored > 0 { "some" } else { "none" });
		self.t.messages = 0;
		if n == 1 {
			next_block();
		} else {
			skip_blocks(n);
		}
		self.heard = 0;
		self.listen()
	}
}
fn one<T: Clone>(g: &mut Gen, v: impl IntoIterator<Item = T>) -> Option<T> {
	let v: Vec<T> = v.into_iter().collect();
	if v.is_empty() {
		return None;
	}
	Some(g.pick(&v).clone())
}
/// Whose key this is.
fn number(id: &AccountId) -> u32 {
	(0..PEOPLE).find(|n| key(*n).id == *id).unwrap_or(0)
}
fn short<S: world::sp_core::Get<u32>>(g: &mut Gen) -> BoundedVec<u8, S> {
	let v = if g.bool() { b"i".to_vec() } else { {
		let n = g.usize(1, 6);
		vec![g.byte(); n]
	}};
	BoundedVec::try_from(v).unwrap_or_default()
}
fn schema_name(g: &mut Gen) -> BoundedVec<u8, world::sp_core::ConstU32<32>> {
	BoundedVec::try_from(g.pick(&["abc.one", "abc.two", "xyz.one"]).as_bytes().to_vec()).unwrap_or_default()
}
fn spot(g: &mut Gen) -> PayloadLocation {
	g.pick(&[PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated]).clone()
}
enum Who {
	Signed(u32),
	Root,
}
/// A call likely to be possible, and who would make it.
const NAMES: [&str; 28] = ["create", "create-provider", "grant", "sponsor", "add-key", "delete-key", "revoke-by-delegator", "revoke-by-provider", "revoke-schema", "retire", "claim-handle", "retire-handle", "schema", "schema-by-root", "name-by-root", "items", "pages", "message", "address", "stake", "unstake", "withdraw", "epoch-length", "release-schedule", "claim", "claim-for", "send", "other"];
fn aimed(g: &mut Gen, t: &Told) -> Option<(&'static str, RuntimeCall, Who)> {
	let kind = g.weighted(&[6, 4, 6, 4, 4, 3, 3, 3, 3, 4, 5, 2, 3, 4, 3, 6, 5, 4, 4, 4, 4, 2, 2, 3, 2, 2, 2, 6]);
	let (c, who) = of_kind(kind, g, t)?;
	Some((NAMES[kind], c, who))
}
fn of_kind(kind: usize, g: &mut Gen, t: &Told) -> Option<(RuntimeCall, Who)> {
	use Who::*;
	let people: Vec<u32> = (0..PEOPLE).collect();
	let settled: Vec<u32> = people.iter().copied().filter(|n| t.keys.contains_key(&key(*n).id)).collect();
	let loose: Vec<u32> = people.iter().copied().filter(|n| !settled.contains(n)).collect();
	let msa = |n: u32| t.keys.get(&key(n).id).copied().unwrap_or(0);
	let key_of = |g: &mut Gen, m: u64| one(g, people.iter().copied().filter(|n| msa(*n) == m && m > 0));
	let until = block() + g.uint(1, 20) as u32;
	let schemas: Vec<u16> = t.schemas.keys().copied().collect();
	let placed = |g: &mut Gen, l: PayloadLocation| one(g, schemas.iter().copied().filter(|s| Schemas::get_schema_info_by_id(*s).map_or(false, |i| i.payload_location == l)));
	let anyone = g.below(PEOPLE as u64) as u32;
	Some(match kind {
		0 => (pallet_msa::Call::<Runtime>::create {}.into(), Signed(one(g, loose)?)),
		1 => (pallet_msa::Call::<Runtime>::create_provider { provider_name: b"prov".to_vec() }.into(), Signed(one(g, settled)?)),
		2 | 3 => {
			let p = one(g, t.providers.iter().copied())?;
			let sponsored = g.chance(1, 3);
			let d = key(one(g, if sponsored { loose } else { settled })?);
			let mut ids: Vec<u16> = schemas.iter().copied().filter(|_| g.bool()).collect();
			ids.truncate(MaxSchemaGrants::get() as usize + g.chance(1, 10) as usize);
			let payload = pallet_msa::AddProvider { authorized_msa_id: p, schema_ids: ids, expiration: until };
			let proof = d.sign(&payload.encode());
			let (delegator_key, add_provider_payload) = (d.id.clone(), payload);
			let by = Signed(key_of(g, p)?);
			if sponsored {
				(pallet_msa::Call::<Runtime>::create_sponsored_account_with_delegation { delegator_key, proof, add_provider_payload }.into(), by)
			} else {
				(pallet_msa::Call::<Runtime>::grant_delegation { delegator_key, proof, add_provider_payload }.into(), by)
			}
		},
		4 => {
			let (a, b) = (key(one(g, settled)?), key(one(g, loose)?));
			let p = pallet_msa::AddKeyData::<Runtime> { msa_id: t.keys.get(&a.id).copied()?, expiration: until, new_public_key: b.id.clone() };
			let e = p.encode();
			(pallet_msa::Call::<Runtime>::add_public_key_to_msa { msa_owner_public_key: a.id.clone(), msa_owner_proof: a.sign(&e), new_key_owner_proof: b.sign(&e), add_key_payload: p }.into(), Signed(anyone))
		},
		5 => {
			let a = one(g, settled.iter().copied())?;
			let b = one(g, settled.iter().copied().filter(|b| msa(*b) == msa(a)))?;
			(pallet_msa::Call::<Runtime>::delete_msa_public_key { public_key_to_delete: key(b).id }.into(), Signed(a))
		},
		6 => {
			let (d, p) = one(g, t.grants.iter().copied())?;
			(pallet_msa::Call::<Runtime>::revoke_delegation_by_delegator { provider_msa_id: p }.into(), Signed(key_of(g, d)?))
		},
		7 => {
			let (d, p) = one(g, t.grants.iter().copied())?;
			(pallet_msa::Call::<Runtime>::revoke_delegation_by_provider { delegator: d }.into(), Signed(key_of(g, p)?))
		},
		8 => {
			let (d, p) = one(g, t.grants.iter().copied())?;
			(pallet_msa::Call::<Runtime>::revoke_schema_permissions { provider_msa_id: p, schema_ids: vec![one(g, schemas)?] }.into(), Signed(key_of(g, d)?))
		},
		9 => (pallet_msa::Call::<Runtime>::retire_msa {}.into(), Signed(one(g, settled)?)),
		10 => {
			let k = one(g, settled)?;
			let p = ClaimHandlePayload { base_handle: g.pick(&["abc", "ABC", "bcde", "äbc"]).as_bytes().to_vec(), expiration: until };
			let (msa_owner_key, proof, payload) = (key(k).id, key(k).sign(&p.encode()), p);
			if t.handles.contains_key(&msa(k)) && g.chance(9, 10) {
				(pallet_handles::Call::<Runtime>::change_handle { msa_owner_key, proof, payload }.into(), Signed(anyone))
			} else {
				(pallet_handles::Call::<Runtime>::claim_handle { msa_owner_key, proof, payload }.into(), Signed(anyone))
			}
		},
		11 => {
			let m = one(g, t.handles.keys().copied())?;
			(pallet_handles::Call::<Runtime>::retire_handle {}.into(), Signed(key_of(g, m)?))
		},
		12 => (pallet_schemas::Call::<Runtime>::create_schema_v3 { model: BoundedVec::try_from(MODEL.to_vec()).ok()?, model_type: ModelType::AvroBinary, payload_location: spot(g), settings: Default::default(), schema_name: if g.bool() { Some(schema_name(g)) } else { None } }.into(), Signed(anyone)),
		13 => (pallet_schemas::Call::<Runtime>::create_schema_via_governance_v2 { creator_key: key(anyone).id, model: BoundedVec::try_from(MODEL.to_vec()).ok()?, model_type: ModelType::AvroBinary, payload_location: spot(g), settings: Default::default(), schema_name: if g.bool() { Some(schema_name(g)) } else { None } }.into(), Root),
		14 => (pallet_schemas::Call::<Runtime>::create_schema_name_via_governance { schema_id: one(g, schemas)?, schema_name: schema_name(g) }.into(), Root),
		15 => {
			let s = placed(g, PayloadLocation::Itemized)?;
			let k = one(g, settled)?;
			let m = one(g, t.keys.values().copied())?;
			let target_hash = t.items.get(&(m, s)).copied().unwrap_or(0);
			let have = StatefulStorage::get_itemized_storage(m, s).map_or(0, |x| x.items.len());
			let n = g.usize(1, 3);
			let v: Vec<_> = if have > 0 && g.chance(1, 4) {
				// an item is exchanged, perhaps for the same
				vec![ItemAction::Delete { index: (have - 1) as u16 }, ItemAction::Add { data: short(g) }]
			} else {
				(0..n).map(|_| if g.chance(2, 3) { ItemAction::Add { data: short(g) } } else { ItemAction::Delete { index: g.usize(0, have.min(3)) as u16 } }).collect()
			};
			let actions: BoundedVec<_, _> = BoundedVec::try_from(v).ok()?;
			if g.bool() {
				(pallet_stateful_storage::Call::<Runtime>::apply_item_actions { state_owner_msa_id: m, schema_id: s, target_hash, actions }.into(), Signed(if g.bool() { key_of(g, m)? } else { k }))
			} else {
				let payload = ItemizedSignaturePayloadV2 { schema_id: s, target_hash, expiration: until, actions };
				let o = key(key_of(g, m)?);
				(pallet_stateful_storage::Call::<Runtime>::apply_item_actions_with_signature_v2 { delegator_key: o.id.clone(), proof: o.sign(&payload.encode()), payload }.into(), Signed(k))
			}
		},
		16 => {
			let s = placed(g, PayloadLocation::Paginated)?;
			let m = one(g, t.keys.values().copied())?;
			let page_id = g.uint(0, 3) as u16;
			let target_hash = t.pages.get(&(m, s, page_id)).copied().unwrap_or(0);
			let by = if g.bool() { key_of(g, m)? } else { one(g, settled)? };
			if g.chance(1, 3) {
				(pallet_stateful_storage::Call::<Runtime>::delete_page { state_owner_msa_id: m, schema_id: s, page_id, target_hash }.into(), Signed(by))
			} else {
				(pallet_stateful_storage::Call::<Runtime>::upsert_page { state_owner_msa_id: m, schema_id: s, page_id, target_hash, payload: short(g) }.into(), Signed(by))
			}
		},
		17 => (pallet_messages::Call::<Runtime>::add_onchain_message { on_behalf_of: if g.bool() { one(g, t.keys.values().copied()) } else { None }, schema_id: placed(g, PayloadLocation::OnChain)?, payload: g.bytes(0, 5) }.into(), Signed(one(g, settled)?)),
		18 => (pallet_messages::Call::<Runtime>::add_ipfs_message { schema_id: placed(g, PayloadLocation::IPFS)?, cid: b"bafkreidgvpkjawlxz6sffxzwgooowe5yt7i6wsyg236mfoks77nywkptdq".to_vec(), payload_length: g.uint(0, 50) as u32 }.into(), Signed(one(g, settled)?)),
		19 => (pallet_capacity::Call::<Runtime>::stake { target: one(g, t.providers.iter().copied())?, amount: g.uint(1, 50_000) as u128 }.into(), Signed(anyone)),
		20 => {
			let ((who, target), (amount, _)) = one(g, t.stakes.iter().map(|(k, v)| (k.clone(), *v)))?;
			(pallet_capacity::Call::<Runtime>::unstake { target, requested_amount: g.int_u128(amount + 1) }.into(), Signed(number(&who)))
		},
		21 => (pallet_capacity::Call::<Runtime>::withdraw_unstaked {}.into(), Signed(number(&one(g, t.unlocking.keys().cloned())?))),
		22 => (pallet_capacity::Call::<Runtime>::set_epoch_length { length: g.uint(1, 12) as u32 }.into(), Root),
		23 => {
			let schedule = pallet_time_release::ReleaseSchedule { start: block() + g.uint(0, 5) as u32, period: g.uint(1, 5) as u32, period_count: g.uint(1, 4) as u32, per_period: g.uint(1, 20_000) as u128 };
			(pallet_time_release::Call::<Runtime>::transfer { dest: key(g.below(PEOPLE as u64) as u32).id.into(), schedule }.into(), Signed(anyone))
		},
		24 => (pallet_time_release::Call::<Runtime>::claim {}.into(), Signed(anyone)),
		25 => (pallet_time_release::Call::<Runtime>::claim_for { dest: key(g.below(PEOPLE as u64) as u32).id.into() }.into(), Signed(anyone)),
		26 => (pallet_balances::Call::<Runtime>::transfer_allow_death { dest: key(g.below(PEOPLE as u64) as u32).id.into(), value: g.uint(0, 100_000) as u128 }.into(), Signed(anyone)),
		_ => {
			// Whatever; the powers of root over balances are not of interest here.
			let (kind, c) = calls::any(g);
			if kind.starts_with("balances.force") || kind.starts_with("system.") {
				return None;
			}
			let root = kind.contains("governance") || kind.ends_with("set_max_schema_model_bytes") || kind.ends_with("update_release_schedules");
			(c, if root { Root } else { Signed(anyone) })
		},
	})
}
fn history(g: &mut Gen, focus: Focus) -> R {
	reset_knobs();
	FilterKind::set(*g.pick(&[0, 0, 1]));
	ExistentialDeposit::set(*g.pick(&[1, 10, 1_000]));
	MaxPublicKeysPerMsa::set(g.uint(1, 4) as u8);
	MaxSchemaGrants::set(g.uint(1, 4) as u32);
	MaxUnlockingChunks::set(g.uint(1, 3) as u32);
	UnstakingThawPeriod::set(g.uint(1, 3) as u16);
	MinimumStakingAmount::set(*g.pick(&[1, 1_000]));
	MaxReleaseSchedules::set(g.uint(1, 4) as u32);
	FeePerByte::set(*g.pick(&[0, 0, 1, 3]));
	if g.chance(1, 3) {
		MaxItemizedPageBytes::set(20);
	}
	if g.chance(1, 3) {
		HandleSuffixMin::set(10);
		HandleSuffixMax::set(10 + g.uint(0, 3) as u16);
	}
	let rich = *g.pick(&[20_000u64, 200_000, 1_000_000]);
	let balances: Vec<_> = (0..PEOPLE).map(|i| (key(i).id, 1_000 + g.uint(0, rich) as u128)).collect();
	chain(&balances, || {
		let mut ear = Ear { t: Told::default(), heard: 0 };
		check!(ok(&call_root(pallet_schemas::Call::<Runtime>::set_max_schema_model_bytes { max_size: 1000 })), "the schema limit cannot be set");
		let mut done: BTreeSet<&'static str> = BTreeSet::new();
		let mut all = money();
		let long = if g.thorough() { 120 } else { 60 };
		g.steps(long, |g, i| {
			if i < 6 && g.chance(2, 3) {
				// a start: accounts, providers, schemas
				let n = i as u32;
				let c: RuntimeCall = pallet_msa::Call::<Runtime>::create {}.into();
				let _ = apply(&key(n).id, System::account_nonce(&key(n).id), &c);
				if i < 2 {
					let _ = call(&key(n).id, pallet_msa::Call::<Runtime>::create_provider { provider_name: b"p".to_vec() });
				}
				let c = pallet_schemas::Call::<Runtime>::create_schema_via_governance { creator_key: key(0).id, model: BoundedVec::try_from(MODEL.to_vec()).map_err(|_| "model")?, model_type: ModelType::AvroBinary, payload_location: spot(g), settings: Default::default() };
				let _ = call_root(c);
			} else if g.chance(1, 8) {
				scatter_accounts(g);
				let n = *g.pick(&[1, 1, 2, 5, 30]);
				g.note(|| format!("{n} blocks pass"));
				ear.next_block(n)?;
			} else if let Some((kind, c, who)) = aimed(g, &ear.t) {
				let (before, from, capacity) = (state(), event_count(), ledgers());
				let label = format!("{:?}", c).chars().take(120).collect::<String>();
				match who {
					Who::Root => {
						let o = call_root(c);
						g.note(|| format!("root: {label}: {}", why(&o)));
						check!(ok(&o) || state() == before, "a refused {label} changed the state");
						if ok(&o) {
							done.insert(kind);
						}
					},
					Who::Signed(n) => {
						let id = key(n).id;
						let retires = |c: &RuntimeCall| matches!(c, RuntimeCall::Msa(pallet_msa::Call::retire_msa {}));
						// the recorded finding: made so that the checks on transactions do not see the call itself
						let alone = retires(&c) && !ear.t.retirable(&id);
						let mut c = c;
						if g.chance(1, 10) {
							let more: Vec<RuntimeCall> = (0..2).filter_map(|_| aimed(g, &ear.t).map(|x| x.1)).collect();
							let list: Vec<RuntimeCall> = [c].into_iter().chain(more).collect();
							c = match g.below(3) {
								0 => pallet_utility::Call::<Runtime>::batch { calls: list }.into(),
								1 => pallet_utility::Call::<Runtime>::batch_all { calls: list }.into(),
								_ => pallet_frequency_tx_payment::Call::<Runtime>::pay_with_capacity_batch_all { calls: list }.into(),
							};
						} else if g.chance(1, 6) {
							c = pallet_frequency_tx_payment::Call::<Runtime>::pay_with_capacity { call: Box::new(c) }.into();
						}
						let hidden = !retires(&c) && format!("{c:?}").contains("retire_msa");
						let indirect = g.chance(1, 4);
						if indirect && (hidden || alone) {
							g.exclude();
						} else if indirect {
							// as a proxy, a multisig or the scheduler would make it: without the transaction's checks
							let o = call(&id, c);
							g.note(|| format!("for {n}, indirectly: {label}: {}", why(&o)));
							check!(ok(&o) || state() == before, "a refused {label} changed the state");
							if ok(&o) {
								g.label("indirect");
								done.insert(kind);
							}
						} else {
							let a = apply(&id, System::account_nonce(&id), &c);
							g.note(|| format!("{n}: {label}: {}", match &a { Applied::Refused(e) => format!("{e:?}"), Applied::Included(o) => why(o) }));
							match &a {
								Applied::Refused(_) => check_eq!(state(), before, "a transaction with {label} that was not included changed the state"),
								Applied::Included(o) => {
									if ok(o) {
										done.insert(kind);
									}
								},
							}
						}
					},
				}
				if focus == Focus::Events {
					// spent capacity is announced
					let evs = events_since(from);
					let moved = evs.iter().any(|e| matches!(e, RuntimeEvent::Capacity(pallet_capacity::Event::Staked { .. } | pallet_capacity::Event::UnStaked { .. })));
					for (m, l) in ledgers() {
						let Some(old) = capacity.get(&m) else { continue };
						let told: u128 = evs.iter().map(|e| match e { RuntimeEvent::Capacity(pallet_capacity::Event::CapacityWithdrawn { msa_id, amount }) if *msa_id == m => *amount, _ => 0 }).sum();
						if !moved {
							let had = if old.3 == l.3 { old.0 } else { l.2 };
							check_eq!(had as i128 - l.0 as i128, told as i128, "capacity of {m} spent, and what the events tell of it");
						}
					}
				}
			}
			ear.listen()?;
			let now = money();
			check!(now <= all, "{now} tokens where there were {all}");
			all = now;
			match focus {
				Focus::Events => ear.t.agrees(),
				Focus::Tables => consistent(&ear.t),
			}
		})?;
		for d in &done {
			g.label(d);
		}
		if done.len() >= 4 {
			g.nontrivial();
		}
		Ok(())
	})
}
fn z01(g: &mut Gen) -> R {
	history(g, Focus::Tables)
}
fn e01(g: &mut Gen) -> R {
	history(g, Focus::Events)
}
/// A provider retires through a proxy, multisig or derived account: what is left of it?
fn probe_retire() -> Option<String> {
	reset_knobs();
	let broken = chain(&[], || {
		let k = key(0);
		let Ok((m, _)) = Msa::create_account(k.id.clone(), |_| Ok(())) else { return false };
		Msa::create_provider_for(m, b"p".to_vec()).is_ok() && call(&k.id, pallet_msa::Call::<Runtime>::retire_msa {}).is_ok() && Msa::get_owner_of(&k.id).is_none() && Msa::is_registered_provider(m)
	});
	broken.then(|| "a provider that retires its account through a proxy, multisig or derived account stays registered, without a key".to_string())
}
fn main() {
	engine::dict::load(&engine::root(), &["pallet-msa", "pallet-handles"]);
	let rule = "histories of up to 60 (thorough 120) calls of all kinds by 8 people, in transactions, batches, paid with capacity or made indirectly, over several blocks and epochs; non-trivial: at least four kinds of call succeeded";
	engine::main(vec![
		Property { id: "Z01", rule, aspects: vec![aspect("histories", 12_000, 150_000, z01)], known: vec![Known { signature: "unchecked-indirect-retirement", probe: probe_retire }] },
		Property { id: "E01", rule, aspects: vec![aspect("histories", 12_000, 150_000, e01)], known: vec![Known { signature: "unchecked-indirect-retirement", probe: probe_retire }] },
	]);
}
