//! Calls of every pallet, by name, with small random arguments. Signatures inside are real.
use super::stubs::*;
use super::*;
use common_primitives::{handles::ClaimHandlePayload, schema::*};
use engine::Gen;
use pallet_stateful_storage::{types::*, Call};

macro_rules! kinds {
	($g:ident; $($name:literal => $e:expr),* $(,)?) => {
		pub const KINDS: &[&str] = &[$($name),*];
		/// A call of this kind.
		pub fn make(kind: &str, $g: &mut Gen) -> RuntimeCall {
			match kind {
				$($name => RuntimeCall::from($e),)*
				_ => panic!("no such kind of call: {kind}"),
			}
		}
	};
}
fn who(g: &mut Gen) -> AccountId {
	key(g.below(6) as u32).id
}
fn lookup(g: &mut Gen) -> MultiAddress<AccountId, ()> {
	who(g).into()
}
fn bytes(g: &mut Gen, max: usize) -> Vec<u8> {
	let n = if g.chance(1, 10) { g.usize(0, max) } else { g.usize(0, 12.min(max)) };
	vec![g.byte(); n]
}
fn text(g: &mut Gen) -> Vec<u8> {
	let n = g.usize(0, 9);
	(0..n).map(|i| b'a' + ((g.below(3) as usize + i) % 26) as u8).collect()
}
fn msa(g: &mut Gen) -> u64 {
	g.uint(0, 6)
}
fn schema(g: &mut Gen) -> u16 {
	g.uint(0, 4) as u16
}
fn until(g: &mut Gen) -> u32 {
	block() + g.uint(0, 60) as u32
}
fn model<S: sp_core::Get<u32>>(g: &mut Gen) -> BoundedVec<u8, S> {
	let v = if g.bool() { br#"{"type":"record","name":"r","fields":[]}"#.to_vec() } else { bytes(g, 100) };
	BoundedVec::try_from(v).unwrap_or_default()
}
fn bounded<S: sp_core::Get<u32>>(g: &mut Gen) -> BoundedVec<u8, S> {
	let v = bytes(g, 1000);
	BoundedVec::try_from(v).unwrap_or_default()
}
fn actions(g: &mut Gen) -> BoundedVec<ItemAction<MaxItemizedBlobBytes>, MaxItemizedActions> {
	let n = g.usize(0, 4);
	let v: Vec<_> = (0..n).map(|_| if g.chance(3, 4) { ItemAction::Add { data: bounded(g) } } else { ItemAction::Delete { index: g.uint(0, 3) as u16 } }).collect();
	BoundedVec::try_from(v).unwrap_or_default()
}
fn name(g: &mut Gen) -> BoundedVec<u8, ConstU32<32>> {
	let mut v = text(g);
	v.push(b'.');
	v.extend(text(g));
	BoundedVec::try_from(v).unwrap_or_default()
}
fn place(g: &mut Gen) -> PayloadLocation {
	g.pick(&[PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated]).clone()
}
fn kind_of(g: &mut Gen) -> ModelType {
	g.pick(&[ModelType::AvroBinary, ModelType::Parquet]).clone()
}
fn add_provider(g: &mut Gen) -> (AccountId, MultiSignature, pallet_msa::AddProvider) {
	let k = key(g.below(6) as u32);
	let n = g.usize(0, 3);
	let p = pallet_msa::AddProvider { authorized_msa_id: msa(g), schema_ids: (0..n).map(|_| schema(g)).collect(), expiration: until(g) };
	(k.id.clone(), k.sign(&p.encode()), p)
}
fn claim(g: &mut Gen) -> (AccountId, MultiSignature, ClaimHandlePayload<u32>) {
	let k = key(g.below(6) as u32);
	let p = ClaimHandlePayload { base_handle: text(g), expiration: until(g) };
	(k.id.clone(), k.sign(&p.encode()), p)
}
fn schedule(g: &mut Gen) -> pallet_time_release::ReleaseSchedule<u32, Balance> {
	pallet_time_release::ReleaseSchedule { start: g.uint(0, 50) as u32, period: g.uint(0, 5) as u32, period_count: g.uint(0, 4) as u32, per_period: g.uint(0, 100) as u128 }
}
fn signed<P: Encode>(g: &mut Gen, p: P) -> (AccountId, MultiSignature, P) {
	let k = key(g.below(6) as u32);
	(k.id.clone(), k.sign(&p.encode()), p)
}
kinds! { g;
	"system.remark_with_event" => frame_system::Call::<Runtime>::remark_with_event { remark: bytes(g, 200) },
	"system.set_heap_pages" => frame_system::Call::<Runtime>::set_heap_pages { pages: g.uint(0, 9) },
	"system.set_code" => frame_system::Call::<Runtime>::set_code { code: bytes(g, 20) },
	"balances.transfer_allow_death" => pallet_balances::Call::<Runtime>::transfer_allow_death { dest: lookup(g), value: g.uint(0, 1000) as u128 },
	"balances.transfer_keep_alive" => pallet_balances::Call::<Runtime>::transfer_keep_alive { dest: lookup(g), value: g.uint(0, 1000) as u128 },
	"balances.transfer_all" => pallet_balances::Call::<Runtime>::transfer_all { dest: lookup(g), keep_alive: g.bool() },
	"balances.force_transfer" => pallet_balances::Call::<Runtime>::force_transfer { source: lookup(g), dest: lookup(g), value: g.uint(0, 1000) as u128 },
	"balances.force_unreserve" => pallet_balances::Call::<Runtime>::force_unreserve { who: lookup(g), amount: g.uint(0, 9) as u128 },
	"balances.force_set_balance" => pallet_balances::Call::<Runtime>::force_set_balance { who: lookup(g), new_free: g.uint(0, 9) as u128 },
	"msa.create" => pallet_msa::Call::<Runtime>::create {},
	"msa.create_sponsored_account_with_delegation" => { let (delegator_key, proof, add_provider_payload) = add_provider(g); pallet_msa::Call::<Runtime>::create_sponsored_account_with_delegation { delegator_key, proof, add_provider_payload } },
	"msa.create_provider" => pallet_msa::Call::<Runtime>::create_provider { provider_name: text(g) },
	"msa.grant_delegation" => { let (delegator_key, proof, add_provider_payload) = add_provider(g); pallet_msa::Call::<Runtime>::grant_delegation { delegator_key, proof, add_provider_payload } },
	"msa.revoke_delegation_by_delegator" => pallet_msa::Call::<Runtime>::revoke_delegation_by_delegator { provider_msa_id: msa(g) },
	"msa.add_public_key_to_msa" => {
		let (a, b) = (key(g.below(6) as u32), key(g.below(8) as u32));
		let p = pallet_msa::AddKeyData::<Runtime> { msa_id: msa(g), expiration: until(g), new_public_key: b.id.clone() };
		let e = p.encode();
		pallet_msa::Call::<Runtime>::add_public_key_to_msa { msa_owner_public_key: a.id.clone(), msa_owner_proof: a.sign(&e), new_key_owner_proof: b.sign(&e), add_key_payload: p }
	},
	"msa.delete_msa_public_key" => pallet_msa::Call::<Runtime>::delete_msa_public_key { public_key_to_delete: who(g) },
	"msa.revoke_delegation_by_provider" => pallet_msa::Call::<Runtime>::revoke_delegation_by_provider { delegator: msa(g) },
	"msa.revoke_schema_permissions" => pallet_msa::Call::<Runtime>::revoke_schema_permissions { provider_msa_id: msa(g), schema_ids: vec![schema(g)] },
	"msa.retire_msa" => pallet_msa::Call::<Runtime>::retire_msa {},
	"msa.propose_to_be_provider" => pallet_msa::Call::<Runtime>::propose_to_be_provider { provider_name: text(g) },
	"msa.create_provider_via_governance" => pallet_msa::Call::<Runtime>::create_provider_via_governance { provider_key: who(g), provider_name: text(g) },
	"messages.add_ipfs_message" => pallet_messages::Call::<Runtime>::add_ipfs_message { schema_id: schema(g), cid: bytes(g, 60), payload_length: g.uint(0, 5000) as u32 },
	"messages.add_onchain_message" => { let on_behalf_of = if g.bool() { Some(msa(g)) } else { None }; pallet_messages::Call::<Runtime>::add_onchain_message { on_behalf_of, schema_id: schema(g), payload: bytes(g, 4000) } },
	"schemas.create_schema" => pallet_schemas::Call::<Runtime>::create_schema { model: model(g), model_type: kind_of(g), payload_location: place(g) },
	"schemas.set_max_schema_model_bytes" => pallet_schemas::Call::<Runtime>::set_max_schema_model_bytes { max_size: g.uint(0, 5000) as u32 },
	"schemas.propose_to_create_schema" => pallet_schemas::Call::<Runtime>::propose_to_create_schema { model: model(g), model_type: kind_of(g), payload_location: place(g), settings: Default::default() },
	"schemas.create_schema_via_governance" => pallet_schemas::Call::<Runtime>::create_schema_via_governance { creator_key: who(g), model: model(g), model_type: kind_of(g), payload_location: place(g), settings: Default::default() },
	"schemas.create_schema_v2" => pallet_schemas::Call::<Runtime>::create_schema_v2 { model: model(g), model_type: kind_of(g), payload_location: place(g), settings: Default::default() },
	"schemas.propose_to_create_schema_v2" => pallet_schemas::Call::<Runtime>::propose_to_create_schema_v2 { model: model(g), model_type: kind_of(g), payload_location: place(g), settings: Default::default(), schema_name: None },
	"schemas.create_schema_via_governance_v2" => pallet_schemas::Call::<Runtime>::create_schema_via_governance_v2 { creator_key: who(g), model: model(g), model_type: kind_of(g), payload_location: place(g), settings: Default::default(), schema_name: Some(name(g)) },
	"schemas.create_schema_v3" => pallet_schemas::Call::<Runtime>::create_schema_v3 { model: model(g), model_type: kind_of(g), payload_location: place(g), settings: Default::default(), schema_name: Some(name(g)) },
	"schemas.propose_to_create_schema_name" => pallet_schemas::Call::<Runtime>::propose_to_create_schema_name { schema_id: schema(g), schema_name: name(g) },
	"schemas.create_schema_name_via_governance" => pallet_schemas::Call::<Runtime>::create_schema_name_via_governance { schema_id: schema(g), schema_name: name(g) },
	"stateful.apply_item_actions" => Call::<Runtime>::apply_item_actions { state_owner_msa_id: msa(g), schema_id: schema(g), target_hash: g.uint(0, 3) as u32, actions: actions(g) },
	"stateful.upsert_page" => Call::<Runtime>::upsert_page { state_owner_msa_id: msa(g), schema_id: schema(g), page_id: g.uint(0, 4) as u16, target_hash: g.uint(0, 1) as u32, payload: bounded(g) },
	"stateful.delete_page" => Call::<Runtime>::delete_page { state_owner_msa_id: msa(g), schema_id: schema(g), page_id: g.uint(0, 4) as u16, target_hash: g.uint(0, 1) as u32 },
	"stateful.apply_item_actions_with_signature" => { let p = ItemizedSignaturePayload { msa_id: msa(g), schema_id: schema(g), target_hash: g.uint(0, 1) as u32, expiration: until(g), actions: actions(g) }; let (delegator_key, proof, payload) = signed(g, p); Call::<Runtime>::apply_item_actions_with_signature { delegator_key, proof, payload } },
	"stateful.upsert_page_with_signature" => { let p = PaginatedUpsertSignaturePayload { msa_id: msa(g), schema_id: schema(g), page_id: g.uint(0, 4) as u16, target_hash: 0, expiration: until(g), payload: bounded(g) }; let (delegator_key, proof, payload) = signed(g, p); Call::<Runtime>::upsert_page_with_signature { delegator_key, proof, payload } },
	"stateful.delete_page_with_signature" => { let p = PaginatedDeleteSignaturePayload { msa_id: msa(g), schema_id: schema(g), page_id: g.uint(0, 4) as u16, target_hash: 0, expiration: until(g) }; let (delegator_key, proof, payload) = signed(g, p); Call::<Runtime>::delete_page_with_signature { delegator_key, proof, payload } },
	"stateful.apply_item_actions_with_signature_v2" => { let p = ItemizedSignaturePayloadV2 { schema_id: schema(g), target_hash: g.uint(0, 1) as u32, expiration: until(g), actions: actions(g) }; let (delegator_key, proof, payload) = signed(g, p); Call::<Runtime>::apply_item_actions_with_signature_v2 { delegator_key, proof, payload } },
	"stateful.upsert_page_with_signature_v2" => { let p = PaginatedUpsertSignaturePayloadV2 { schema_id: schema(g), page_id: g.uint(0, 4) as u16, target_hash: 0, expiration: until(g), payload: bounded(g) }; let (delegator_key, proof, payload) = signed(g, p); Call::<Runtime>::upsert_page_with_signature_v2 { delegator_key, proof, payload } },
	"stateful.delete_page_with_signature_v2" => { let p = PaginatedDeleteSignaturePayloadV2 { schema_id: schema(g), page_id: g.uint(0, 4) as u16, target_hash: 0, expiration: until(g) }; let (delegator_key, proof, payload) = signed(g, p); Call::<Runtime>::delete_page_with_signature_v2 { delegator_key, proof, payload } },
	"capacity.stake" => pallet_capacity::Call::<Runtime>::stake { target: msa(g), amount: g.uint(0, 1000) as u128 },
	"capacity.withdraw_unstaked" => pallet_capacity::Call::<Runtime>::withdraw_unstaked {},
	"capacity.unstake" => pallet_capacity::Call::<Runtime>::unstake { target: msa(g), requested_amount: g.uint(0, 100) as u128 },
	"capacity.set_epoch_length" => pallet_capacity::Call::<Runtime>::set_epoch_length { length: g.uint(0, 200) as u32 },
	"handles.claim_handle" => { let (msa_owner_key, proof, payload) = claim(g); pallet_handles::Call::<Runtime>::claim_handle { msa_owner_key, proof, payload } },
	"handles.retire_handle" => pallet_handles::Call::<Runtime>::retire_handle {},
	"handles.change_handle" => { let (msa_owner_key, proof, payload) = claim(g); pallet_handles::Call::<Runtime>::change_handle { msa_owner_key, proof, payload } },
	"time_release.claim" => pallet_time_release::Call::<Runtime>::claim {},
	"time_release.transfer" => pallet_time_release::Call::<Runtime>::transfer { dest: lookup(g), schedule: schedule(g) },
	"time_release.update_release_schedules" => pallet_time_release::Call::<Runtime>::update_release_schedules { who: lookup(g), release_schedules: vec![schedule(g)] },
	"time_release.claim_for" => pallet_time_release::Call::<Runtime>::claim_for { dest: lookup(g) },
	"council.propose" => pallet_collective::Call::<Runtime, Instance1>::propose { threshold: 1, proposal: Box::new(small(g)), length_bound: 1000 },
	"council.vote" => pallet_collective::Call::<Runtime, Instance1>::vote { proposal: H256::zero(), index: g.uint(0, 3) as u32, approve: g.bool() },
	"technical_committee.propose" => pallet_collective::Call::<Runtime, Instance2>::propose { threshold: 1, proposal: Box::new(small(g)), length_bound: 1000 },
	"technical_committee.vote" => pallet_collective::Call::<Runtime, Instance2>::vote { proposal: H256::zero(), index: g.uint(0, 3) as u32, approve: g.bool() },
	"timestamp.set" => pallet_timestamp::Call::<Runtime>::set { arg: bytes(g, 4) },
	"preimage.note_preimage" => pallet_preimage::Call::<Runtime>::note_preimage { arg: bytes(g, 4) },
	"democracy.propose" => pallet_democracy::Call::<Runtime>::propose { arg: bytes(g, 4) },
	"democracy.vote" => pallet_democracy::Call::<Runtime>::vote { arg: bytes(g, 4) },
	"scheduler.schedule" => pallet_scheduler::Call::<Runtime>::schedule { arg: bytes(g, 4) },
	"treasury.propose_spend" => pallet_treasury::Call::<Runtime>::propose_spend { arg: bytes(g, 4) },
	"treasury.approve_proposal" => pallet_treasury::Call::<Runtime>::approve_proposal { arg: bytes(g, 4) },
	"collator_selection.set_candidacy_bond" => pallet_collator_selection::Call::<Runtime>::set_candidacy_bond { arg: bytes(g, 4) },
	"collator_selection.register_as_candidate" => pallet_collator_selection::Call::<Runtime>::register_as_candidate { arg: bytes(g, 4) },
	"collator_selection.leave_intent" => pallet_collator_selection::Call::<Runtime>::leave_intent { arg: bytes(g, 4) },
	"session.set_keys" => pallet_session::Call::<Runtime>::set_keys { arg: bytes(g, 4) },
	"multisig.as_multi" => pallet_multisig::Call::<Runtime>::as_multi { arg: bytes(g, 4) },
	"proxy.proxy" => pallet_proxy::Call::<Runtime>::proxy { arg: bytes(g, 4) },
	"proxy.add_proxy" => pallet_proxy::Call::<Runtime>::add_proxy { arg: bytes(g, 4) },
	"proxy.remove_proxies" => pallet_proxy::Call::<Runtime>::remove_proxies { arg: bytes(g, 4) },
	"proxy.announce" => pallet_proxy::Call::<Runtime>::announce { arg: bytes(g, 4) },
	"proxy.reject_announcement" => pallet_proxy::Call::<Runtime>::reject_announcement { arg: bytes(g, 4) },
	"proxy.proxy_announced" => pallet_proxy::Call::<Runtime>::proxy_announced { arg: bytes(g, 4) },
	"sudo.sudo" => pallet_sudo::Call::<Runtime>::sudo { arg: bytes(g, 4) },
	"parachain_system.set_validation_data" => pallet_parachain_system::Call::<Runtime>::set_validation_data { arg: bytes(g, 4) },
	"parachain_system.enact_authorized_upgrade" => pallet_parachain_system::Call::<Runtime>::enact_authorized_upgrade { arg: bytes(g, 4) },
	// calls containing calls
	"passkey.proxy" => {
		let k = key(g.below(6) as u32);
		let pk = [g.byte(); 33];
		let inner = if g.bool() { make("balances.transfer_keep_alive", g) } else { small(g) };
		pallet_passkey::Call::<Runtime>::proxy {
			payload: pallet_passkey::types::PasskeyPayload {
				passkey_public_key: pk,
				verifiable_passkey_signature: pallet_passkey::types::VerifiablePasskeySignature { signature: bounded(g), authenticator_data: bounded(g), client_data_json: bounded(g) },
				passkey_call: pallet_passkey::types::PasskeyCall { account_id: k.id.clone(), account_nonce: System::account_nonce(&k.id), account_ownership_proof: k.sign(&pk), call: Box::new(inner) },
			},
		}
	},
	"utility.batch" => pallet_utility::Call::<Runtime>::batch { calls: some(g) },
	"utility.batch_all" => pallet_utility::Call::<Runtime>::batch_all { calls: some(g) },
	"utility.force_batch" => pallet_utility::Call::<Runtime>::force_batch { calls: some(g) },
	"frequency_tx_payment.pay_with_capacity" => pallet_frequency_tx_payment::Call::<Runtime>::pay_with_capacity { call: Box::new(small(g)) },
	"frequency_tx_payment.pay_with_capacity_batch_all" => pallet_frequency_tx_payment::Call::<Runtime>::pay_with_capacity_batch_all { calls: some(g) },
}
/// A call that contains no other.
pub fn small(g: &mut Gen) -> RuntimeCall {
	let n = KINDS.len() - 6;
	let kind = KINDS[g.below(n as u64) as usize];
	if kind.ends_with(".propose") {
		return make("msa.create", g)
	}
	make(kind, g)
}
fn some(g: &mut Gen) -> Vec<RuntimeCall> {
	let n = g.usize(0, 3);
	(0..n).map(|_| small(g)).collect()
}
/// Any call, with its kind.
pub fn any(g: &mut Gen) -> (&'static str, RuntimeCall) {
	let kind = KINDS[g.below(KINDS.len() as u64) as usize];
	let c = make(kind, g);
	(kind, c)
}
/// What can be paid for with capacity.
pub const CAPACITY_KINDS: &[&str] = &[
	"msa.create_sponsored_account_with_delegation",
	"msa.grant_delegation",
	"msa.add_public_key_to_msa",
	"messages.add_ipfs_message",
	"messages.add_onchain_message",
	"stateful.apply_item_actions",
	"stateful.upsert_page",
	"stateful.delete_page",
	"stateful.apply_item_actions_with_signature",
	"stateful.upsert_page_with_signature",
	"stateful.delete_page_with_signature",
	"stateful.apply_item_actions_with_signature_v2",
	"stateful.upsert_page_with_signature_v2",
	"stateful.delete_page_with_signature_v2",
	"handles.claim_handle",
	"handles.change_handle",
];
