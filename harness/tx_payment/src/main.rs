//! F01: what a transaction costs, and to whom. F02: quoted and charged capacity fees against a
//! reference table. F03: nonces.
use engine::{aspect, check, check_eq, guarded, Gen, Known, Property, R};
use rpc::fee_rpc::{CapacityPaymentApiServer, CapacityPaymentHandler};
use std::collections::BTreeMap;
use world::common_primitives::node::AccountId;
use world::calls::{self, CAPACITY_KINDS};
use world::frame_support::dispatch::{GetDispatchInfo, Pays};
use world::frame_support::traits::fungible::Inspect;
use world::frame_support::weights::{Weight, WeightToFee};
use world::pallet_capacity::CapacityDetails;
use world::pallet_stateful_storage::types::ItemAction;
use world::parity_scale_codec::Encode;
use world::sp_core::H256;
use world::sp_runtime::traits::SignedExtension;
use world::sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
use world::sp_runtime::{DispatchError, Perbill};
use world::*;

type Pay = pallet_frequency_tx_payment::Call<Runtime>;
type Tokens = world::pallet_balances::Call<Runtime>;
const NONE: fn(u64) -> world::sp_runtime::DispatchResult = |_| Ok(());

// ---------------------------------------------------------------- reference fees
const READ: u64 = 25_000_000;
const WRITE: u64 = 100_000_000;
const BASE: u64 = 105_455_000;
/// The fixed price list of calls that can be paid for with capacity, in units of computation time.
fn price(c: &RuntimeCall) -> Option<u64> {
	use world::{pallet_handles::Call as H, pallet_messages::Call as G, pallet_msa::Call as M, pallet_stateful_storage::Call as S};
	fn added<N: world::sp_core::Get<u32> + Clone + std::fmt::Debug + PartialEq>(a: &[ItemAction<N>]) -> u64 {
		a.iter().map(|x| if let ItemAction::Add { data } = x { data.len() as u64 } else { 0 }).sum()
	}
	let p = |fixed: u64, each: u64, n: u64, reads: u64, writes: u64| Some(fixed + each * n + READ * reads + WRITE * writes);
	match c {
		RuntimeCall::Msa(M::create_sponsored_account_with_delegation { add_provider_payload: a, .. }) => p(123_084_817, 138_668, a.schema_ids.len() as u64, 10, 7),
		RuntimeCall::Msa(M::add_public_key_to_msa { .. }) => p(177_629_000, 0, 0, 8, 7),
		RuntimeCall::Msa(M::grant_delegation { add_provider_payload: a, .. }) => p(115_947_313, 192_710, a.schema_ids.len() as u64, 8, 4),
		RuntimeCall::Messages(G::add_onchain_message { payload, .. }) => p(174_064_230, 1_527, payload.len() as u64, 4, 1),
		RuntimeCall::Messages(G::add_ipfs_message { .. }) => p(159_242_000, 0, 0, 3, 1),
		RuntimeCall::StatefulStorage(S::apply_item_actions { actions, .. }) => p(104_137_090, 7_325, added(actions), 4, 1),
		RuntimeCall::StatefulStorage(S::upsert_page { payload, .. }) => p(32_297_181, 594, payload.len() as u64, 4, 1),
		RuntimeCall::StatefulStorage(S::delete_page { .. }) => p(37_792_000, 0, 0, 4, 1),
		RuntimeCall::StatefulStorage(S::apply_item_actions_with_signature { payload, .. }) => p(158_947_612, 13_664, added(&payload.actions), 3, 1),
		RuntimeCall::StatefulStorage(S::apply_item_actions_with_signature_v2 { payload, .. }) => p(158_947_612, 13_664, added(&payload.actions), 3, 1),
		RuntimeCall::StatefulStorage(S::upsert_page_with_signature { payload, .. }) => p(87_768_259, 6_648, payload.payload.len() as u64, 3, 1),
		RuntimeCall::StatefulStorage(S::upsert_page_with_signature_v2 { payload, .. }) => p(87_768_259, 6_648, payload.payload.len() as u64, 3, 1),
		RuntimeCall::StatefulStorage(S::delete_page_with_signature { .. }) => p(90_631_000, 0, 0, 3, 1),
		RuntimeCall::StatefulStorage(S::delete_page_with_signature_v2 { .. }) => p(90_631_000, 0, 0, 3, 1),
		RuntimeCall::Handles(H::claim_handle { payload, .. }) => p(85_480_476, 107_272, payload.base_handle.len() as u64, 3, 3),
		RuntimeCall::Handles(H::change_handle { payload, .. }) => p(95_748_064, 212_118, payload.base_handle.len() as u64, 3, 4),
		_ => None,
	}
}
/// Fee for computation time, as configured.
fn time_fee(t: u64) -> u128 {
	let most = <Runtime as world::frame_system::Config>::BlockWeights::get().max_block.ref_time();
	let t = t.min(most) as u128;
	if RealFees::get() == 1 {
		// a tenth of a cent for the base weight of an extrinsic
		let q = 10 * common_runtime::weights::extrinsic_weights::ExtrinsicBaseWeight::get().ref_time() as u128;
		let cents = common_runtime::constants::currency::CENTS;
		let parts = Perbill::from_rational(cents % q, q).deconstruct() as u128;
		return t * (cents / q) + t * parts / 1_000_000_000;
	}
	t.saturating_mul(FeePerWeight::get()) / 1_000_000
}
fn length_fee(len: usize) -> u128 {
	let each = if RealFees::get() == 1 { 10 * common_runtime::constants::currency::MILLICENTS } else { FeePerByte::get() };
	each.saturating_mul(len as u128)
}
use world::frame_support::traits::Get;

/// The calls a capacity transaction wraps.
fn wrapped_calls(c: &RuntimeCall) -> Option<Vec<RuntimeCall>> {
	match c {
		RuntimeCall::FrequencyTxPayment(Pay::pay_with_capacity { call }) => Some(vec![(**call).clone()]),
		RuntimeCall::FrequencyTxPayment(Pay::pay_with_capacity_batch_all { calls }) => Some(calls.clone()),
		_ => None,
	}
}
/// The fee of a capacity transaction, if all it wraps is eligible.
fn capacity_fee(calls: &[RuntimeCall], len: usize) -> Option<u128> {
	let mut sum = 0u64;
	for c in calls {
		sum = sum.saturating_add(price(c)?);
	}
	Some(time_fee(BASE).saturating_add(time_fee(sum)).saturating_add(length_fee(len)))
}

// ---------------------------------------------------------------- common
fn tokens(a: &AccountId) -> u128 {
	<Balances as Inspect<_>>::total_balance(a)
}
fn ledgers() -> Vec<Option<CapacityDetails<u128, u32>>> {
	(0..8).map(Capacity::get_capacity_for).collect()
}
/// Everything stored but accounts, events and capacity.
fn rest() -> Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> {
	let skip: Vec<[u8; 16]> = ["System", "Capacity", "Balances", "TransactionPayment"].iter().map(|p| world::sp_io::hashing::twox_128(p.as_bytes())).collect();
	entries().into_iter().filter(|(child, k, _)| !child.is_empty() || !skip.iter().any(|s| k.starts_with(s))).collect()
}
fn eligible_call(g: &mut Gen) -> RuntimeCall {
	let kind = *g.pick(CAPACITY_KINDS);
	if g.chance(1, 100) {
		// longer than any message the chain stores, but a transaction all the same
		return pallet_messages::Call::<Runtime>::add_onchain_message { on_behalf_of: None, schema_id: 1, payload: vec![b'x'; g.int(3_000, 300_000) as usize] }.into();
	}
	calls::make(kind, g)
}
/// A call that succeeds for a provider with an account, most of the time.
fn good_call(g: &mut Gen, who: &Key) -> RuntimeCall {
	let mine = Msa::ensure_valid_msa_key(&who.id).unwrap_or(1);
	match g.below(4) {
		0 => pallet_messages::Call::<Runtime>::add_onchain_message { on_behalf_of: None, schema_id: 1, payload: b"{}".to_vec() }.into(),
		1 => {
			let h = pallet_stateful_storage::Call::<Runtime>::upsert_page { state_owner_msa_id: mine, schema_id: 2, page_id: g.uint(0, 3) as u16, target_hash: 0, payload: vec![1; g.usize(1, 30)].try_into().unwrap_or_default() };
			h.into()
		},
		2 => {
			let k = key(300 + g.below(40) as u32);
			let p = pallet_msa::AddProvider { authorized_msa_id: mine, schema_ids: vec![], expiration: block() + 20 };
			pallet_msa::Call::<Runtime>::create_sponsored_account_with_delegation { delegator_key: k.id.clone(), proof: k.sign(&p.encode()), add_provider_payload: p }.into()
		},
		_ => {
			let p = common_primitives::handles::ClaimHandlePayload { base_handle: b"name".to_vec(), expiration: block() + 20 };
			pallet_handles::Call::<Runtime>::claim_handle { msa_owner_key: who.id.clone(), proof: who.sign(&p.encode()), payload: p }.into()
		},
	}
}
fn some_fees(g: &mut Gen) {
	match g.weighted(&[4, 2, 2, 1]) {
		3 => {
			FeePerByte::set(0);
			FeePerWeight::set(g.uint(0, 1) as u128);
		},
		0 => {
			FeePerByte::set(g.uint(1, 20) as u128);
			FeePerWeight::set(g.uint(0, 3) as u128);
		},
		1 => RealFees::set(1),
		_ => {
			FeePerByte::set(1);
			FeePerWeight::set(0);
		},
	}
	BaseWeight::set(*g.pick(&[0, 0, 1_000_000, 98_297_000]));
}
fn populate() -> R {
	for i in [0u32, 2, 4, 5] {
		Msa::create_account(key(i).id, NONE).map_err(|_| "no account")?;
	}
	// accounts 1-4; 1, 3 and 4 are providers; account 1 has the keys 0 and 1
	for m in [1u64, 3, 4] {
		Msa::create_provider_for(m, b"p".to_vec()).map_err(|_| "no provider")?;
	}
	Msa::add_key(1, &key(1).id, NONE).map_err(|_| "no key")?;
	use common_primitives::schema::{ModelType, PayloadLocation};
	for l in [PayloadLocation::OnChain, PayloadLocation::Paginated, PayloadLocation::IPFS] {
		Schemas::add_schema(b"{}".to_vec().try_into().unwrap_or_default(), ModelType::AvroBinary, l, Default::default(), None).map_err(|_| "no schema")?;
	}
	Ok(())
}

// ---------------------------------------------------------------- F01
#[derive(Default)]
struct Seen {
	charged: u32,
	refused: u32,
	ineligible: u32,
	refilled: u32,
	tokens: u32,
	failed: u32,
	refunded: u32,
}
fn capacity_tx(g: &mut Gen, who: &Key, seen: &mut Seen) -> R {
	let c: RuntimeCall = match g.weighted(&[6, 5]) {
		0 => {
			let c = match g.weighted(&[6, 4, 2]) {
				0 => good_call(g, who),
				1 => eligible_call(g),
				_ => calls::any(g).1,
			};
			Pay::pay_with_capacity { call: Box::new(c) }.into()
		},
		_ => {
			let n = match g.weighted(&[8, 2, 1]) {
				0 => g.usize(1, 4),
				1 => g.usize(0, MaximumBatch::get() as usize),
				_ => MaximumBatch::get() as usize + g.usize(0, 2),
			};
			let bad = g.chance(1, 6);
			let calls = (0..n)
				.map(|_| match g.weighted(&[6, 1, bad as u64]) {
					0 => good_call(g, who),
					1 => eligible_call(g),
					_ => calls::any(g).1,
				})
				.collect();
			Pay::pay_with_capacity_batch_all { calls }.into()
		},
	};
	let inner = wrapped_calls(&c).unwrap_or_default();
	let fee = capacity_fee(&inner, tx_len(&c));
	let epoch = Capacity::get_current_epoch();
	let account = Msa::ensure_valid_msa_key(&who.id).ok();
	let ledger = account.and_then(Capacity::get_capacity_for);
	let after = ledger.clone().map(|mut l| {
		if l.last_replenished_epoch < epoch {
			l.remaining_capacity = l.total_capacity_issued;
			l.last_replenished_epoch = epoch;
		}
		l
	});
	let enough = match (&after, fee) {
		(Some(l), Some(f)) => l.remaining_capacity >= f,
		_ => false,
	};
	let want = tokens(&who.id) >= ExistentialDeposit::get() && enough;
	// what the wrapped calls do when the signer makes them directly
	let batch = matches!(c, RuntimeCall::FrequencyTxPayment(Pay::pay_with_capacity_batch_all { .. }));
	let too_many = batch && inner.len() > MaximumBatch::get() as usize;
	let direct = frozen(|| {
		if too_many {
			return (Err("too many calls".to_string()), rest());
		}
		let start = rest();
		for c in &inner {
			let o = call(&who.id, c.clone());
			if o.is_err() {
				return (Err(why(&o)), start);
			}
		}
		(Ok(()), rest())
	});
	let nonce = System::account_nonce(&who.id);
	let tip = if g.chance(1, 4) { g.uint(1, 1000) as u128 } else { 0 };
	let (all, before, events) = (ledgers(), state(), event_count());
	let money: Vec<u128> = (0..8).map(|i| tokens(&key(i).id)).collect();
	let supply = <Balances as Inspect<_>>::total_issuance();
	let pooled = pool(&who.id, nonce, &c).is_ok();
	check_eq!(state(), before, "state after the pool's validation");
	let a = apply_tip(&who.id, nonce, tip, &c);
	g.note(|| format!("{} pays with capacity for {} calls, fee {fee:?}, account {account:?}, tokens {}, ledger {ledger:?} in epoch {epoch}: {}", who.n, inner.len(), tokens(&who.id), match &a {
		Applied::Refused(e) => format!("refused {e:?}"),
		Applied::Included(o) => why(o),
	}));
	check_eq!(a.included(), want, "admission of a transaction of {} with fee {fee:?} for {inner:?}, account {account:?}, {} tokens, capacity {ledger:?} in epoch {epoch}: {a:?}", who.n, tokens(&who.id));
	check_eq!(pooled, want, "the pool's answer for a transaction of {} with fee {fee:?} for {inner:?}, capacity {ledger:?} in epoch {epoch}", who.n);
	let Applied::Included(o) = a else {
		seen.refused += 1;
		if fee.is_none() {
			seen.ineligible += 1;
		}
		check_eq!(state(), before, "state after a refused transaction");
		return Ok(());
	};
	let fee = fee.unwrap_or(0);
	let mut l = after.ok_or("no capacity")?;
	if ledger.map_or(false, |x| x.last_replenished_epoch != l.last_replenished_epoch) {
		seen.refilled += 1;
	}
	l.remaining_capacity -= fee;
	let mut want_all = all;
	want_all[account.unwrap_or(0) as usize] = Some(l);
	check_eq!(ledgers(), want_all, "capacity of all providers after a transaction with fee {fee} of account {account:?}");
	let now: Vec<u128> = (0..8).map(|i| tokens(&key(i).id)).collect();
	check_eq!(now, money, "tokens of all accounts after a transaction of {} paid with capacity (tip {tip})", who.n);
	check_eq!(<Balances as Inspect<_>>::total_issuance(), supply, "total supply after a transaction paid with capacity");
	let spent: Vec<String> = events_since(events).iter().filter(|e| matches!(e, RuntimeEvent::Capacity(_))).map(|e| format!("{e:?}")).collect();
	let want = vec![format!("{:?}", RuntimeEvent::from(pallet_capacity::Event::CapacityWithdrawn { msa_id: account.unwrap_or(0), amount: fee }))];
	check_eq!(spent, want, "capacity events");
	// the wrapped calls do what they do when made directly, all or none
	check_eq!(o.is_ok(), direct.0.is_ok(), "outcome of {inner:?} paid with capacity ({}), made directly: {:?}", why(&o), direct.0);
	if let (Err(w), false) = (&direct.0, too_many) {
		check_eq!(&why(&o), w, "failure of {inner:?} paid with capacity");
	}
	check!(rest() == direct.1, "the stored state after {inner:?} paid with capacity differs from that after the calls themselves");
	seen.charged += 1;
	if o.is_err() {
		seen.failed += 1;
	}
	Ok(())
}
fn token_tx(g: &mut Gen, who: &Key, seen: &mut Seen) -> R {
	let (kind, c): (&str, RuntimeCall) = match g.weighted(&[3, 6, 2]) {
		0 => ("an eligible call", eligible_call(g)),
		1 => calls::any(g),
		_ => {
			// calls that move no tokens; the batch may stop at one that fails and then costs less
			let calls: Vec<RuntimeCall> = g.list(5, 3, eligible_call);
			let call: RuntimeCall = match g.below(3) {
				0 => world::pallet_utility::Call::<Runtime>::batch { calls }.into(),
				1 => world::pallet_utility::Call::<Runtime>::batch_all { calls }.into(),
				_ => world::pallet_utility::Call::<Runtime>::force_batch { calls }.into(),
			};
			("a batch of eligible calls", call)
		},
	};
	if wrapped_calls(&c).is_some() {
		return Ok(());
	}
	let info = c.get_dispatch_info();
	let tip = if g.chance(1, 4) { g.uint(1, 1000) as u128 } else { 0 };
	let fee = if info.pays_fee == Pays::No { tip } else { time_fee(BaseWeight::get()).saturating_add(time_fee(info.weight.ref_time())).saturating_add(length_fee(tx_len(&c))).saturating_add(tip) };
	let (all, before, have) = (ledgers(), state(), tokens(&who.id));
	let others: Vec<u128> = (0..8).filter(|i| *i != who.n).map(|i| tokens(&key(i).id)).collect();
	let a = apply_tip(&who.id, System::account_nonce(&who.id), tip, &c);
	g.note(|| format!("{} makes {kind} (tip {tip}): {}", who.n, match &a {
		Applied::Refused(e) => format!("refused {e:?}"),
		Applied::Included(o) => why(o),
	}));
	let Applied::Included(o) = a else {
		check_eq!(state(), before, "state after a refused transaction");
		// nothing but payment and the checks of free calls stands against it
		let checked = info.pays_fee == Pays::No || kind.starts_with("utility") || kind.starts_with("a batch");
		check!(checked || have < fee + ExistentialDeposit::get() || Capacity::get_staking_account_for(&who.id).is_some() || !TimeRelease::release_schedules(&who.id).is_empty(), "a transaction of {} with {have} tokens for {kind} with fee {fee} was refused: {a:?}", who.n);
		return Ok(());
	};
	seen.tokens += 1;
	// what the call turned out to weigh is paid for, never more than announced
	let post = match &o {
		Ok(p) => *p,
		Err(e) => e.post_info,
	};
	let (announced, weight) = (fee, post.actual_weight.map_or(info.weight, |w| w.min(info.weight)));
	let fee = if info.pays_fee == Pays::No || post.pays_fee == Pays::No { tip } else { time_fee(BaseWeight::get()).saturating_add(time_fee(weight.ref_time())).saturating_add(length_fee(tx_len(&c))).saturating_add(tip) };
	if fee < announced {
		seen.refunded += 1;
	}
	let moves = ["balances", "utility", "time_release", "council", "technical"].iter().any(|p| kind.starts_with(p));
	if !moves {
		check_eq!(have - tokens(&who.id), fee, "tokens paid by {} for {kind} (tip {tip}, {info:?}): {}", who.n, why(&o));
		let now: Vec<u128> = (0..8).filter(|i| *i != who.n).map(|i| tokens(&key(i).id)).collect();
		check_eq!(now, others, "tokens of the others after {kind} of {}", who.n);
	}
	if !kind.starts_with("capacity") && !kind.starts_with("utility") {
		check_eq!(ledgers(), all, "capacity after {kind} paid with tokens");
	}
	Ok(())
}
fn f01(g: &mut Gen) -> R {
	reset_knobs();
	some_fees(g);
	MaximumBatch::set(*g.pick(&[10, 1, 3]));
	ExistentialDeposit::set(*g.pick(&[1, 10]));
	CapacityPerToken::set(Perbill::from_parts(*g.pick(&[1_000_000_000, 500_000_000])));
	MinimumStakingAmount::set(1);
	let rich = 1_000_000_000_000_000_000u128;
	let mut genesis = vec![(key(50).id, rich * 1000)];
	for i in 0..6 {
		let b = match g.weighted(&[6, 2, 1]) {
			0 => rich,
			1 => 0,
			_ => ExistentialDeposit::get(),
		};
		if b > 0 {
			genesis.push((key(i).id, b));
		}
	}
	let mut seen = Seen::default();
	let r = chain(&genesis, || -> R {
		populate()?;
		let length = g.uint(1, 5) as u32;
		check!(call_root(pallet_capacity::Call::<Runtime>::set_epoch_length { length }).is_ok(), "no epoch length");
		let one = capacity_fee(&[good_call(g, &key(0))], 400).unwrap_or(1);
		g.steps(30, |g, _| {
			match g.weighted(&[30, 10, 8, 3, 8, 2]) {
				0 => {
					let i = if g.bool() { 0 } else { g.below(6) as u32 };
					capacity_tx(g, &key(i), &mut seen)
				},
				1 => {
					let i = g.below(6) as u32;
					token_tx(g, &key(i), &mut seen)
				},
				2 => {
					let target = *g.pick(&[1, 1, 3]);
					let amount = (one / 2).saturating_mul(g.uint(1, 12) as u128) + g.uint(0, 200) as u128;
					let o = call(&key(50).id, pallet_capacity::Call::<Runtime>::stake { target, amount });
					g.note(|| format!("{amount} staked to {target}: {}", why(&o)));
					Ok(())
				},
				3 => {
					let target = *g.pick(&[1, 1, 3]);
					let amount = one.saturating_mul(g.uint(1, 4) as u128);
					let o = call(&key(50).id, pallet_capacity::Call::<Runtime>::unstake { target, requested_amount: amount });
					g.note(|| format!("{amount} unstaked from {target}: {}", why(&o)));
					Ok(())
				},
				4 => {
					next_block();
					g.note(|| format!("block {}, epoch {}", block(), Capacity::get_current_epoch()));
					Ok(())
				},
				_ => {
					let i = g.below(6) as u32;
					let o = match g.below(3) {
						0 => call(&key(0).id, pallet_msa::Call::<Runtime>::delete_msa_public_key { public_key_to_delete: key(1).id }),
						1 => call(&key(i).id, pallet_msa::Call::<Runtime>::retire_msa {}),
						_ => call(&key(i).id, Tokens::transfer_all { dest: key(60).id.into(), keep_alive: false }),
					};
					g.note(|| format!("key 1 removed, account of {i} retired or emptied: {}", why(&o)));
					Ok(())
				},
			}
		})
	});
	g.label_if(seen.refused > 0, "refused");
	g.label_if(seen.ineligible > 0, "refused as ineligible");
	g.label_if(seen.refilled > 0, "refilled");
	g.label_if(seen.failed > 0, "charged for a failing call");
	g.label_if(seen.tokens > 0, "paid with tokens");
	g.label_if(seen.refunded > 0, "paid less than announced");
	if seen.charged > 0 && seen.refused > 0 {
		g.nontrivial();
	}
	r
}
/// Exactly the listed kinds of call can be paid for with capacity.
fn f01_kinds(g: &mut Gen) -> R {
	use pallet_frequency_tx_payment::GetStableWeight;
	reset_knobs();
	let i = g.below(calls::KINDS.len() as u64) as usize;
	let kind = calls::KINDS[i];
	chain(&[], || -> R {
		for _ in 0..5 {
			let c = calls::make(kind, g);
			let want = CAPACITY_KINDS.contains(&kind);
			for (net, got) in [("test", testnet::CapacityEligibleCalls::get_stable_weight(&c)), ("main", mainnet::CapacityEligibleCalls::get_stable_weight(&c))] {
				check_eq!(got.is_some(), want, "{kind} can be paid for with capacity on the {net} network");
				check_eq!(got.map(|w| w.ref_time()), price(&c), "price of {c:?} on the {net} network");
			}
		}
		g.nontrivial();
		Ok(())
	})
}

// ---------------------------------------------------------------- F02
const QUOTE: &str = "quote-adds-dispatch-weight";
fn bare(c: &RuntimeCall) -> Vec<u8> {
	<Block as world::sp_runtime::traits::Block>::Extrinsic::new_unsigned(c.clone()).encode()
}
type Quote = Option<(u128, u128, u128)>;
/// What a node answers when asked for the fee of a transaction: base, length and computation.
fn quote(xt: &[u8]) -> Result<Quote, String> {
	let api = CapacityPaymentHandler::<_, Block>::new(rpc::node());
	let d = CapacityPaymentApiServer::<H256, u128>::compute_capacity_fee_details(&api, xt.to_vec().into(), None).map_err(|e| format!("{e:?}"))?;
	let n = |x: rpc::sp_rpc::number::NumberOrHex| x.value();
	if n(d.tip) != 0 {
		return Err("a tip is quoted".to_string());
	}
	Ok(match d.inclusion_fee {
		None => None,
		Some(i) => Some((n(i.base_fee), n(i.len_fee), n(i.adjusted_weight_fee))),
	})
}
/// What the transaction with these calls costs, by making it.
fn charged(who: &Key, c: &RuntimeCall, len: usize) -> Result<u128, TransactionValidityError> {
	let issued = u128::MAX / 4;
	Capacity::set_capacity_for(1, CapacityDetails { remaining_capacity: issued, total_tokens_staked: issued, total_capacity_issued: issued, last_replenished_epoch: Capacity::get_current_epoch() });
	let info = c.get_dispatch_info();
	frozen(|| {
		extra(System::account_nonce(&who.id)).pre_dispatch(&who.id, c, &info, len)?;
		Ok(issued - Capacity::get_capacity_for(1).map_or(0, |x| x.remaining_capacity))
	})
}
fn f02_quote(g: &mut Gen) -> R {
	reset_knobs();
	some_fees(g);
	let k = key(0);
	chain(&[(k.id.clone(), 1_000_000)], || -> R {
		populate()?;
		let n = g.usize(1, 12);
		let inner: Vec<RuntimeCall> = (0..n).map(|_| eligible_call(g)).collect();
		let one = n == 1 && g.bool();
		let c: RuntimeCall = if one { Pay::pay_with_capacity { call: Box::new(inner[0].clone()) }.into() } else { Pay::pay_with_capacity_batch_all { calls: inner.clone() }.into() };
		let xt = bare(&c);
		let len = xt.len();
		let sum: u64 = inner.iter().filter_map(price).sum();
		let want = (time_fee(BASE), length_fee(len), time_fee(sum));
		let cost = charged(&k, &c, len).map_err(|e| format!("{c:?} refused: {e:?}"))?;
		g.note(|| format!("{n} calls of length {len}: charged {cost}, expected {want:?}"));
		check_eq!(cost, want.0 + want.1 + want.2, "charge for {n} calls {inner:?} of length {len}: base, length and computation {want:?}");
		let q = quote(&xt)?.ok_or_else(|| format!("no fee quoted for {c:?}"))?;
		if q.2 != want.2 {
			// recorded finding: the dispatch weight of the wrapping call is added to the computation
			let more = time_fee(sum.saturating_add(c.get_dispatch_info().weight.ref_time()));
			check_eq!(q, (want.0, want.1, more), "quote for {inner:?} of length {len}; charged are {want:?}");
			g.exclude();
		} else {
			check_eq!(q, want, "quote for {inner:?} of length {len}");
		}
		// the call without wrapping
		let xt = bare(&inner[0]);
		let want = (time_fee(BASE), length_fee(xt.len()), time_fee(price(&inner[0]).unwrap_or(0)));
		check_eq!(quote(&xt)?, Some(want), "quote for {:?} by itself, of length {}", inner[0], xt.len());
		// longer, or with one more call: not cheaper
		let longer = charged(&k, &c, len + g.usize(1, 1000)).map_err(|e| format!("longer: {e:?}"))?;
		check!(longer >= cost, "{n} calls cost {cost}, and {longer} when the transaction is longer");
		if !one {
			let mut more = inner.clone();
			more.insert(g.usize(0, n), eligible_call(g));
			let m: RuntimeCall = Pay::pay_with_capacity_batch_all { calls: more }.into();
			let x = charged(&k, &m, len).map_err(|e| format!("one more call: {e:?}"))?;
			check!(x >= cost, "{n} calls cost {cost}, one more {x}");
		}
		// a call which capacity cannot pay for is not quoted
		let (kind, other) = calls::any(g);
		if price(&other).is_none() && wrapped_calls(&other).is_none() {
			check_eq!(quote(&bare(&other))?, None, "quote for {kind}");
			let w: RuntimeCall = Pay::pay_with_capacity { call: Box::new(other) }.into();
			check_eq!(quote(&bare(&w))?, None, "quote for {kind} paid with capacity");
		}
		let mut cut = xt.clone();
		cut.truncate(g.usize(0, xt.len() - 1));
		check!(quote(&cut).is_err() , "a fee was quoted for a transaction cut off at {} of {} bytes", cut.len(), xt.len());
		g.nontrivial();
		Ok(())
	})
}
fn probe_quote() -> Option<String> {
	reset_knobs();
	FeePerWeight::set(1);
	chain(&[(key(0).id, 1_000_000)], || {
		populate().ok()?;
		let c: RuntimeCall = Pay::pay_with_capacity { call: Box::new(pallet_messages::Call::<Runtime>::add_onchain_message { on_behalf_of: None, schema_id: 1, payload: vec![] }.into()) }.into();
		let xt = bare(&c);
		let q = quote(&xt).ok()??;
		let cost = charged(&key(0), &c, xt.len()).ok()?;
		(q.0 + q.1 + q.2 > cost).then(|| "the fee quoted for a transaction paid with capacity contains the dispatch weight of the wrapping call, which is not charged".to_string())
	})
}
/// The formula over the whole ranges of its inputs.
fn f02_ranges(g: &mut Gen) -> R {
	reset_knobs();
	match g.below(3) {
		0 => {
			FeePerByte::set(g.int_u128(u128::MAX));
			FeePerWeight::set(g.int_u128(u128::MAX));
		},
		1 => RealFees::set(1),
		_ => some_fees(g),
	}
	let w = |g: &mut Gen| match g.weighted(&[3, 3, 1]) {
		0 => g.uint(0, 1_000_000_000),
		1 => g.int(0, u64::MAX),
		_ => u64::MAX - g.below(2),
	};
	let (a, b) = (w(g), w(g));
	let (l, m) = (g.int(0, u32::MAX as u64) as u32, g.int(0, u32::MAX as u64) as u32);
	let proof = w(g);
	chain(&[], || -> R {
		let fee = |len: u32, t: u64| guarded(|| FrequencyTxPayment::compute_capacity_fee(len, Weight::from_parts(t, proof)));
		let x = fee(l, a).map_err(|e| format!("fee of length {l}, computation {a}: {e}"))?;
		let want = time_fee(BASE).saturating_add(time_fee(a)).saturating_add(length_fee(l as usize));
		check_eq!(x, want, "fee of length {l} and computation {a} (proof size {proof})");
		let y = fee(l.max(m), a.max(b)).map_err(|e| format!("fee: {e}"))?;
		check!(x <= y, "length {l} and computation {a} cost {x}, length {} and computation {} only {y}", l.max(m), a.max(b));
		check_eq!(FrequencyTxPayment::length_to_fee(l), length_fee(l as usize), "fee of length {l}");
		check_eq!(FrequencyTxPayment::weight_to_fee(Weight::from_parts(a, proof)), time_fee(a), "fee of computation {a}");
		// the main network's price of computation
		let real = |t: u64| testnet::WeightToFee::weight_to_fee(&Weight::from_parts(t, 0));
		let base = common_runtime::weights::extrinsic_weights::ExtrinsicBaseWeight::get().ref_time();
		let tenth = common_runtime::constants::currency::CENTS / 10;
		check!(real(base).abs_diff(tenth) <= 1, "the base weight costs {} units, a tenth of a cent is {tenth}", real(base));
		check!(real(a.min(b)) <= real(a.max(b)), "computation {} costs {}, {} only {}", a.min(b), real(a.min(b)), a.max(b), real(a.max(b)));
		if a != b && l != m {
			g.nontrivial();
		}
		Ok(())
	})
}

// ---------------------------------------------------------------- F03
fn f03(g: &mut Gen) -> R {
	reset_knobs();
	ExistentialDeposit::set(10);
	FeePerByte::set(*g.pick(&[1, 3]));
	let mut genesis = vec![];
	for i in 0..6 {
		if g.chance(3, 5) {
			genesis.push((key(i).id, *g.pick(&[1_000_000, 100_000, 700])));
		}
	}
	let (mut done, mut refused, mut absent, mut free) = (0, 0, 0, 0);
	let r = chain(&genesis, || -> R {
		populate()?;
		// delegations, so that some free calls are valid
		for (d, p) in [(2u64, 1u64), (2, 3), (3, 1), (4, 1)] {
			let _ = Msa::add_provider(common_primitives::msa::ProviderId(p), common_primitives::msa::DelegatorId(d), vec![]);
		}
		let mut nonces: BTreeMap<AccountId, u32> = BTreeMap::new();
		for i in 0..6 {
			let id = key(i).id;
			// a record that something other than tokens keeps
			if tokens(&id) == 0 && g.chance(1, 5) {
				System::inc_sufficients(&id);
				g.label("record without tokens");
			}
			// an account with a past
			if world::frame_system::Account::<Runtime>::contains_key(&id) && g.chance(1, 4) {
				let n = *g.pick(&[1u32, 3, 254, 255, 256, 999, 1_000, 5_000, 65_534, 65_535, u32::MAX - 40]);
				world::frame_system::Account::<Runtime>::mutate(&id, |a| a.nonce = n);
				nonces.insert(id, n);
			}
		}
		let mut made: Vec<(u32, u32, RuntimeCall)> = vec![];
		g.steps(30, |g, _| {
			let (i, n, c) = if !made.is_empty() && g.chance(1, 6) {
				let x = g.pick(&made).clone();
				g.label("replayed");
				x
			} else {
				let i = g.below(6) as u32;
				let now = System::account_nonce(&key(i).id);
				let n = match g.weighted(&[12, 2, 2, 1, 1]) {
					0 => now,
					1 => now + g.uint(1, 3) as u32,
					2 => now.saturating_sub(g.uint(1, 3) as u32),
					4 => g.int(0, now as u64) as u32,
					_ => u32::MAX,
				};
				let c: RuntimeCall = match g.weighted(&[5, 2, 2, 2, 3, 1, 1]) {
					0 => world::frame_system::Call::<Runtime>::remark_with_event { remark: vec![1; g.usize(0, 9)] }.into(),
					1 => pallet_msa::Call::<Runtime>::revoke_delegation_by_delegator { provider_msa_id: g.uint(1, 4) }.into(),
					2 => pallet_msa::Call::<Runtime>::revoke_delegation_by_provider { delegator: g.uint(1, 5) }.into(),
					3 => match g.below(3) {
						0 => pallet_msa::Call::<Runtime>::retire_msa {}.into(),
						1 => pallet_msa::Call::<Runtime>::delete_msa_public_key { public_key_to_delete: key(g.below(2) as u32).id }.into(),
						_ => pallet_handles::Call::<Runtime>::retire_handle {}.into(),
					},
					4 => Tokens::transfer_allow_death { dest: key(g.below(6) as u32).id.into(), value: g.uint(1, 2000) as u128 }.into(),
					5 => Tokens::transfer_all { dest: key(g.below(6) as u32).id.into(), keep_alive: false }.into(),
					_ => calls::any(g).1,
				};
				(i, n, c)
			};
			let who = key(i);
			let had = tokens(&who.id) > 0;
			let known = world::frame_system::Account::<Runtime>::contains_key(&who.id);
			let now = System::account_nonce(&who.id);
			check_eq!(now, nonces.get(&who.id).cloned().unwrap_or(0), "nonce of {i} before its next transaction");
			let before = state();
			let info = c.get_dispatch_info();
			// the pool
			match pool(&who.id, n, &c) {
				Ok(v) => {
					check!(n >= now, "the pool takes nonce {n} of {i}, whose next is {now}");
					check!(v.provides.contains(&(&who.id, n).encode()), "nonce {n} of {i} does not provide its tag, but {:?}", v.provides);
					let want = if n > now { vec![(&who.id, n - 1).encode()] } else { vec![] };
					check_eq!(v.requires, want, "tags required by nonce {n} of {i}, whose next is {now}");
				},
				Err(e) => {
					let stale = matches!(e, TransactionValidityError::Invalid(InvalidTransaction::Stale));
					check_eq!(stale, n < now, "the pool answers {e:?} to nonce {n} of {i}, whose next is {now}");
				},
			}
			check_eq!(state(), before, "state after the pool's validation");
			let a = apply(&who.id, n, &c);
			g.note(|| format!("{i} (tokens: {had}) with nonce {n}, next {now}, {:?}: {}", info.pays_fee, match &a {
				Applied::Refused(e) => format!("refused {e:?}"),
				Applied::Included(o) => why(o),
			}));
			match a {
				Applied::Refused(e) => {
					refused += 1;
					check_eq!(state(), before, "state after the refused transaction");
					let kind = match e {
						TransactionValidityError::Invalid(InvalidTransaction::Stale) => "stale",
						TransactionValidityError::Invalid(InvalidTransaction::Future) => "future",
						_ => "other",
					};
					let want = if n < now { "stale" } else if n > now { "future" } else { "other" };
					check_eq!(kind, want, "refusal {e:?} of nonce {n} of {i}, whose next is {now}");
				},
				Applied::Included(_) => {
					done += 1;
					check_eq!(n, now, "nonce of an executed transaction of {i}");
					if info.pays_fee == Pays::No && !known {
						absent += 1;
						check!(!world::frame_system::Account::<Runtime>::contains_key(&who.id), "a free call of {i}, which has no account record, made one");
						nonces.remove(&who.id);
					} else {
						check!(had || info.pays_fee == Pays::No, "{i} has no tokens and made a call that is not free");
						if info.pays_fee == Pays::No {
							free += 1;
						}
						nonces.insert(who.id.clone(), n + 1);
						made.push((i, n, c.clone()));
					}
					// emptied accounts are forgotten, with their nonces
					for j in 0..6 {
						let id = key(j).id;
						if tokens(&id) == 0 && !world::frame_system::Account::<Runtime>::contains_key(&id) {
							nonces.remove(&id);
						}
					}
					check_eq!(System::account_nonce(&who.id), nonces.get(&who.id).cloned().unwrap_or(0), "nonce of {i} after its transaction with nonce {n}");
				},
			}
			for j in 0..6 {
				let id = key(j).id;
				check_eq!(System::account_nonce(&id), nonces.get(&id).cloned().unwrap_or(0), "nonce of {j} after a transaction of {i}");
			}
			Ok(())
		})
	});
	g.label_if(absent > 0, "free call without an account record");
	g.label_if(free > 0, "free call with one");
	if done >= 2 && refused >= 1 {
		g.nontrivial();
	}
	r
}
// ---------------------------------------------------------------- F04
fn wrapper(g: &mut Gen, calls: Vec<RuntimeCall>) -> RuntimeCall {
	if calls.len() == 1 && g.bool() {
		Pay::pay_with_capacity { call: Box::new(calls[0].clone()) }.into()
	} else {
		Pay::pay_with_capacity_batch_all { calls }.into()
	}
}
/// The place in the pool: what a tip, the size and the weight of a transaction do to it.
fn f04_priority(g: &mut Gen) -> R {
	reset_knobs();
	some_fees(g);
	let balances: Vec<_> = (0..3).map(|i| (key(i).id, u128::MAX / 8)).collect();
	chain(&balances, || -> R {
		populate()?;
		let full = u128::MAX / 4;
		Capacity::set_capacity_for(1, CapacityDetails { remaining_capacity: full, total_tokens_staked: full, total_capacity_issued: full, last_replenished_epoch: Capacity::get_current_epoch() });
		let who = key(g.below(3) as u32);
		let wrapped = g.chance(1, 2);
		let (kind, c) = if wrapped {
			let calls: Vec<RuntimeCall> = g.list(6, 4, eligible_call);
			("paid with capacity", wrapper(g, calls))
		} else if g.chance(1, 4) {
			("capacity.set_epoch_length", calls::make("capacity.set_epoch_length", g))
		} else {
			calls::any(g)
		};
		if !wrapped && wrapped_calls(&c).is_some() {
			return Ok(());
		}
		let info = c.get_dispatch_info();
		let nonce = System::account_nonce(&who.id);
		let place = |tip: u128| frozen(|| extra_tip(nonce, tip).validate(&who.id, &c, &info, tx_len(&c))).map(|v| v.priority);
		let tips = [0, g.uint(1, 1_000) as u128, g.int_u128(1 << 80)];
		let got: Vec<_> = tips.iter().map(|t| place(*t)).collect();
		g.note(|| format!("{kind} ({info:?}), {} bytes, tips {tips:?}: {got:?}", tx_len(&c)));
		for (tip, got) in tips.iter().zip(&got) {
			let Ok(got) = got else {
				check_eq!(*got, place(0), "the answer for {kind} depends on the tip {tip}, though there are tokens for it");
				continue;
			};
			let (counted, fee) = if wrapped {
				(0, FrequencyTxPayment::compute_capacity_fee(tx_len(&c) as u32, wrapped_calls(&c).unwrap_or_default().iter().fold(Weight::zero(), |w, c| w.saturating_add(Weight::from_parts(price(c).unwrap_or(0), 0)))))
			} else if info.pays_fee == Pays::No {
				(*tip, *tip)
			} else {
				(*tip, time_fee(BaseWeight::get()).saturating_add(time_fee(info.weight.ref_time())).saturating_add(length_fee(tx_len(&c))).saturating_add(*tip))
			};
			let want = world::pallet_transaction_payment::ChargeTransactionPayment::<Runtime>::get_priority(&info, tx_len(&c), counted, fee);
			check_eq!(*got, want, "priority of {kind} ({info:?}, {} bytes) with a tip of {tip}", tx_len(&c));
			g.label_if(wrapped, "paid with capacity");
			g.label_if(info.class == world::frame_support::dispatch::DispatchClass::Operational, "operational");
			g.nontrivial();
		}
		Ok(())
	})
}
/// The weight a wrapping call declares, and what it says it used.
fn f04_weight(g: &mut Gen) -> R {
	reset_knobs();
	let balances: Vec<_> = (0..3).map(|i| (key(i).id, 1_000_000)).collect();
	chain(&balances, || -> R {
		populate()?;
		let who = key(0);
		let calls: Vec<RuntimeCall> = g.list(14, 6, |g| match g.weighted(&[4, 2, 1]) {
			0 => good_call(g, &key(0)),
			1 => eligible_call(g),
			_ => calls::any(g).1,
		});
		let sum = calls.iter().fold(Weight::zero(), |w, c| w.saturating_add(c.get_dispatch_info().weight));
		let c = wrapper(g, calls.clone());
		let info = c.get_dispatch_info();
		let nothing = Pay::pay_with_capacity_batch_all { calls: vec![] }.get_dispatch_info().weight;
		g.note(|| format!("{} calls of {sum:?} in {}", calls.len(), format!("{info:?}")));
		check!(sum.all_lte(info.weight), "{} calls weigh {sum:?}, wrapped {:?}", calls.len(), info.weight);
		check!(info.weight.ref_time() >= sum.ref_time().saturating_add(FrequencyTxPayment::get_capacity_overhead_weight().ref_time()), "{} calls weigh {sum:?}, wrapped {:?}: nothing is declared for charging capacity ({nothing:?})", calls.len(), info.weight);
		check_eq!(info.pays_fee, Pays::Yes, "a call paid with capacity pays");
		if let RuntimeCall::FrequencyTxPayment(Pay::pay_with_capacity { call }) = &c {
			check_eq!(info.class, call.get_dispatch_info().class, "class of {call:?} paid with capacity");
		}
		// what was used, call by call and wrapped
		let mut used = Weight::zero();
		let mut through = true;
		let free = |r: &world::frame_support::dispatch::DispatchResultWithPostInfo, w: Weight| match r {
			Ok(p) => p.actual_weight.unwrap_or(w),
			Err(e) => e.post_info.actual_weight.unwrap_or(w),
		};
		let whole = frozen(|| call(&who.id, c.clone()));
		frozen(|| {
			for c in &calls {
				let r = call(&who.id, c.clone());
				used = used.saturating_add(free(&r, c.get_dispatch_info().weight));
				if !ok(&r) {
					through = false;
					break;
				}
			}
		});
		let said = free(&whole, info.weight);
		if ok(&whole) {
			check!(through, "the {} calls succeed wrapped, not one by one", calls.len());
			check!(used.all_lte(said), "the {} calls used {used:?}, wrapped {said:?}", calls.len());
			check!(said.all_lte(info.weight), "{said:?} used of {:?} declared", info.weight);
			if let Ok(p) = &whole {
				check_eq!(p.pays_fee, Pays::Yes, "a call paid with capacity that succeeded pays");
			}
			g.label("executed");
		} else if said.ref_time() != 0 {
			g.label("failed");
		}
		g.label_if(calls.len() > 5, "more than five");
		if calls.len() > 1 {
			g.nontrivial();
		}
		Ok(())
	})
}

/// The weight a call run with a passkey declares, and what it says it used.
fn f04_passkey(g: &mut Gen) -> R {
	use world::pallet_passkey::types::{PasskeyCall, PasskeyPayload, VerifiablePasskeySignature};
	reset_knobs();
	some_fees(g);
	let balances: Vec<_> = (0..3).map(|i| (key(i).id, if i == 0 { 1_000_000 } else { u128::MAX / 8 })).collect();
	chain(&balances, || -> R {
		populate()?;
		let who = key(g.below(3) as u32).id;
		let inner: RuntimeCall = match g.weighted(&[3, 2, 2]) {
			0 => pallet_balances::Call::<Runtime>::transfer_allow_death { dest: world::sp_runtime::MultiAddress::Id(key(g.below(4) as u32).id), value: g.uint(0, 2_000_000) as u128 }.into(),
			1 => good_call(g, &key(0)),
			_ => calls::any(g).1,
		};
		let alone = inner.get_dispatch_info();
		let payload = PasskeyPayload::<Runtime> {
			passkey_public_key: [2; 33],
			verifiable_passkey_signature: VerifiablePasskeySignature { signature: Default::default(), authenticator_data: Default::default(), client_data_json: Default::default() },
			passkey_call: PasskeyCall { account_id: who.clone(), account_nonce: 0, account_ownership_proof: key(0).sign(b"x"), call: Box::new(inner.clone()) },
		};
		let outer: RuntimeCall = pallet_passkey::Call::<Runtime>::proxy { payload }.into();
		let info = outer.get_dispatch_info();
		g.note(|| format!("{inner:?} declares {alone:?}, with a passkey {info:?}"));
		check!(alone.weight.all_lte(info.weight), "{inner:?} weighs {:?}, with a passkey {:?}", alone.weight, info.weight);
		check!(info.weight.ref_time() > alone.weight.ref_time() || alone.weight.ref_time() == u64::MAX, "{inner:?} weighs {:?}, with a passkey {:?}: nothing is declared for its checks", alone.weight, info.weight);
		check_eq!(info.class, alone.class, "class of {inner:?} run with a passkey");
		check_eq!(info.pays_fee, Pays::Yes, "a passkey transaction pays");
		// its place in the pool is that of any transaction without a tip; it is charged by the length of the account or by its own
		if let RuntimeCall::Passkey(inside) = &outer {
			let place = frozen(|| pallet_passkey::ChargeTransactionPayment::<Runtime>(who.clone(), inside.clone()).validate()).map(|v| v.priority);
			if let Ok(p) = place {
				let lens = [who.encode().len(), tx_len(&outer)];
				let want = lens.map(|len| world::pallet_transaction_payment::ChargeTransactionPayment::<Runtime>::get_priority(&info, len, 0, time_fee(BaseWeight::get()).saturating_add(time_fee(info.weight.ref_time())).saturating_add(length_fee(len))));
				check!(want.contains(&p), "priority {p} of {inner:?} run with a passkey, by the standard rule {want:?}");
				g.label("placed in the pool");
			}
		}
		let used = |r: &world::frame_support::dispatch::DispatchResultWithPostInfo, w: Weight| match r {
			Ok(p) => p.actual_weight.unwrap_or(w),
			Err(e) => e.post_info.actual_weight.unwrap_or(w),
		};
		let direct = frozen(|| call(&who, inner.clone()));
		let with = frozen(|| world::sp_runtime::traits::Dispatchable::dispatch(outer.clone(), RuntimeOrigin::none()));
		check_eq!(ok(&with), ok(&direct), "{inner:?} with a passkey ({}) and directly ({})", why(&with), why(&direct));
		check!(used(&direct, alone.weight).all_lte(used(&with, info.weight)), "{inner:?} used {:?}, with a passkey {:?}", used(&direct, alone.weight), used(&with, info.weight));
		g.label(if ok(&direct) { "executed" } else { "failed" });
		g.label_if(alone.class != world::frame_support::dispatch::DispatchClass::Normal, "not of the normal class");
		g.nontrivial();
		Ok(())
	})
}

fn main() {
	let _ = DispatchError::Other("");
	engine::dict::load(&engine::root(), &["pallet-frequency-tx-payment", "common-runtime"]);
	engine::main(vec![
		Property {
			id: "F01",
			rule: "histories of transactions of 6 keys paid with capacity or tokens over epochs; non-trivial: one charged to capacity and one refused. Kinds of call: every kind counts",
			aspects: vec![aspect("history", 24_000, 400_000, f01), engine::enumerated("kinds", calls::KINDS.len() as u64, f01_kinds)],
			known: vec![],
		},
		Property {
			id: "F02",
			rule: "batches of eligible calls, quoted through the node's query layer and charged, every one counts; lengths and weights over their ranges, non-trivial if two differ",
			aspects: vec![aspect("quote", 60_000, 400_000, f02_quote), aspect("ranges", 600_000, 5_000_000, f02_ranges)],
			known: vec![Known { signature: QUOTE, probe: probe_quote }],
		},
		Property { id: "F03", rule: "histories of transactions of 6 keys, some without tokens; non-trivial: two executed and one refused", aspects: vec![aspect("history", 24_000, 500_000, f03)], known: vec![] },
		Property {
			id: "F04",
			rule: "transactions of all kinds, each with three tips, every admitted one counts; lists of up to 14 calls wrapped, non-trivial: two or more; calls of all kinds run with a passkey, every one counts",
			aspects: vec![aspect("priority", 150_000, 600_000, f04_priority), aspect("weight", 100_000, 400_000, f04_weight), aspect("passkey", 100_000, 400_000, f04_passkey)],
			known: vec![],
		},
	]);
}
