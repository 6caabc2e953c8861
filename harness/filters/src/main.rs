//! X01: what batches may contain. X02: what proxies may do.
use engine::{aspect, check, check_eq, Gen, Property, R};
use world::calls::{self, KINDS};
use world::common_runtime::proxy::ProxyType;
use world::frame_support::dispatch::{GetDispatchInfo, Pays};
use world::frame_support::traits::{Contains, InstanceFilter, OriginTrait};
use world::frame_support::traits::fungible::Inspect;
use world::parity_scale_codec::{Decode, Encode};
use world::sp_runtime::traits::Dispatchable;
use world::*;

type Batches = world::pallet_utility::Call<Runtime>;
type Pay = pallet_frequency_tx_payment::Call<Runtime>;
const NONE: fn(u64) -> world::sp_runtime::DispatchResult = |_| Ok(());

/// Calls nobody pays for; in a batch nobody would pay for the batch either.
const FREE: &[&str] = &[
	"handles.retire_handle",
	"msa.revoke_delegation_by_delegator",
	"msa.delete_msa_public_key",
	"msa.revoke_delegation_by_provider",
	"msa.retire_msa",
];
/// Calls made through governance on the main network.
const CREATING: &[&str] = &["msa.create_provider", "schemas.create_schema", "schemas.create_schema_v2", "schemas.create_schema_v3"];

fn forbidden_in_batch(kind: &str) -> bool {
	FREE.contains(&kind) || CREATING.contains(&kind) || kind.starts_with("frequency_tx_payment.") || kind.starts_with("utility.batch") || kind == "utility.force_batch"
}
fn permitted_directly(kind: &str, network: u8) -> bool {
	network == 0 || !CREATING.contains(&kind)
}
fn batch(how: u64, calls: Vec<RuntimeCall>) -> RuntimeCall {
	match how {
		0 => Batches::batch { calls },
		1 => Batches::batch_all { calls },
		_ => Batches::force_batch { calls },
	}
	.into()
}
fn filter(c: &RuntimeCall) -> bool {
	<Runtime as world::frame_system::Config>::BaseCallFilter::contains(c)
}
fn filtered(o: &Outcome) -> bool {
	matches!(o, Err(e) if why_err(&e.error).starts_with("CallFiltered"))
}
fn populate() -> R {
	for i in [0u32, 2, 4] {
		Msa::create_account(key(i).id, NONE).map_err(|_| "no account")?;
	}
	Msa::create_provider_for(1, b"p".to_vec()).map_err(|_| "no provider")?;
	Ok(())
}
fn rich() -> Vec<(AccountId, u128)> {
	(0..4).map(|i| (key(i).id, 1_000_000_000_000)).collect()
}
use world::common_primitives::node::AccountId;

fn pick_kind(g: &mut Gen, forbidden: bool) -> &'static str {
	let l: Vec<&'static str> = KINDS.iter().copied().filter(|k| forbidden_in_batch(k) == forbidden).collect();
	*g.pick(&l)
}
fn x01_lists(g: &mut Gen) -> R {
	reset_knobs();
	let network = g.below(2) as u8;
	FilterKind::set(network);
	ExistentialDeposit::set(1);
	let n = match g.weighted(&[6, 3, 1]) {
		0 => g.usize(0, 4),
		1 => g.usize(4, 12),
		_ => g.usize(12, 60),
	};
	let bad = match g.weighted(&[3, 4, 1]) {
		0 => 0,
		1 => 1.min(n),
		_ => g.usize(0, n),
	};
	let how = g.below(3);
	chain(&rich(), || -> R {
		populate()?;
		let mut kinds: Vec<&'static str> = (0..n).map(|_| pick_kind(g, false)).collect();
		let mut at = vec![];
		for _ in 0..bad {
			let i = g.usize(0, n - 1);
			kinds[i] = pick_kind(g, true);
			at.push(i);
		}
		let list: Vec<RuntimeCall> = kinds.iter().map(|k| calls::make(k, g)).collect();
		let want = kinds.iter().all(|k| !forbidden_in_batch(k));
		let c = batch(how, list.clone());
		let tell = || format!("a batch of kind {how} of {kinds:?} on the {} network", ["test", "main"][network as usize]);
		g.note(|| tell());
		check_eq!(filter(&c), want, "whether {} is allowed", tell());
		let before = state();
		let who = key(g.below(4) as u32);
		let o = frozen(|| {
			let o = call(&who.id, c.clone());
			(filtered(&o), o.is_err(), state())
		});
		if want {
			check!(!o.0 || how == 1, "{} was filtered when it was made", tell());
		} else {
			check!(o.0 && o.2 == before, "{} was not filtered when it was made, or left something behind", tell());
		}
		// with the forbidden calls taken out, it is allowed
		if !want {
			let rest: Vec<RuntimeCall> = list.iter().zip(&kinds).filter(|(_, k)| !forbidden_in_batch(k)).map(|x| x.0.clone()).collect();
			check!(filter(&batch(how, rest)), "{} without its forbidden calls is not allowed", tell());
			g.label_if(at.iter().any(|i| *i > 0), "not at the front");
			// and in another order it is not
			let mut turned = list.clone();
			turned.rotate_left(g.usize(0, n));
			check!(!filter(&batch(how, turned)), "{} in another order is allowed", tell());
		}
		// it makes no difference to a transaction
		if g.chance(1, 4) {
			let nonce = System::account_nonce(&who.id);
			let a = apply(&who.id, nonce, &c);
			match a {
				Applied::Included(o) => check!(want || filtered(&o), "{} in a transaction answers {}", tell(), why(&o)),
				Applied::Refused(_) => {},
			}
		}
		if n >= 2 {
			g.nontrivial();
		}
		Ok(())
	})
}
fn x01_kinds(g: &mut Gen) -> R {
	reset_knobs();
	let i = g.below(KINDS.len() as u64 * 2) as usize;
	let (k, network) = (KINDS[i / 2], (i % 2) as u8);
	FilterKind::set(network);
	chain(&rich(), || -> R {
		populate()?;
		for _ in 0..4 {
			let c = calls::make(k, g);
			let inner: Vec<RuntimeCall> = match &c {
				RuntimeCall::Utility(Batches::batch { calls } | Batches::batch_all { calls } | Batches::force_batch { calls }) => calls.clone(),
				_ => vec![],
			};
			let free = c.get_dispatch_info().pays_fee == Pays::No;
			check_eq!(free, FREE.contains(&k), "whether {k} is free");
			if inner.is_empty() {
				check_eq!(filter(&c), permitted_directly(k, network), "whether {k} is allowed on network {network}");
				let o = frozen(|| call(&key(0).id, c.clone()));
				if !permitted_directly(k, network) {
					check!(filtered(&o), "{k} answers {} on network {network}", why(&o));
				}
			}
			for how in 0..3 {
				check_eq!(filter(&batch(how, vec![c.clone()])), !forbidden_in_batch(k), "whether a batch of kind {how} of one {k} is allowed on network {network}");
			}
		}
		g.nontrivial();
		Ok(())
	})
}
/// A tree of calls of signed users: whatever it is, on the main network it creates no provider and
/// no schema, and a forbidden call inside a batch has no effect anywhere.
fn tree(g: &mut Gen, depth: u32) -> RuntimeCall {
	if depth == 0 {
		return match g.weighted(&[3, 2, 2]) {
			0 => calls::small(g),
			1 => {
				let k = *g.pick(CREATING);
				calls::make(k, g)
			},
			_ => {
				let k = *g.pick(&["balances.transfer_allow_death", "balances.transfer_keep_alive", "balances.transfer_all", "time_release.transfer", "msa.retire_msa"]);
				calls::make(k, g)
			},
		};
	}
	let n = g.usize(1, 3);
	let list: Vec<RuntimeCall> = (0..n).map(|_| { let d = g.below(depth as u64) as u32; tree(g, d) }).collect();
	match g.below(5) {
		0 => Pay::pay_with_capacity { call: Box::new(list[0].clone()) }.into(),
		1 => Pay::pay_with_capacity_batch_all { calls: list }.into(),
		k => batch(k - 2, list),
	}
}
fn made_by_governance() -> (usize, u16) {
	(pallet_msa::ProviderToRegistryEntry::<Runtime>::iter().count(), Schemas::get_current_schema_identifier_maximum())
}
fn x01_trees(g: &mut Gen) -> R {
	reset_knobs();
	FilterKind::set(1);
	chain(&rich(), || -> R {
		populate()?;
		Schemas::set_max_schema_model_bytes(RuntimeOrigin::root(), 1000).map_err(|_| "no limit")?;
		let before = made_by_governance();
		let mut worked = 0;
		g.steps(4, |g, _| {
			let d = g.below(4) as u32;
			let c = tree(g, d);
			let who = key(*g.pick(&[0u32, 2, 1]));
			let o = call(&who.id, c.clone());
			worked += o.is_ok() as u32;
			g.note(|| format!("{c:?}: {}", why(&o)));
			check_eq!(made_by_governance(), before, "providers and the last schema of the main network after the call {c:?}");
			Ok(())
		})?;
		// while on the test network it may
		FilterKind::set(0);
		let id = Schemas::get_current_schema_identifier_maximum();
		let c = calls::make("schemas.create_schema_v3", g);
		if call(&key(0).id, c).is_ok() {
			check_eq!(Schemas::get_current_schema_identifier_maximum(), id + 1, "last schema of the test network");
			g.label("created on the test network");
		}
		if worked > 0 {
			g.nontrivial();
		}
		Ok(())
	})
}

// ---------------------------------------------------------------- X02
const TYPES: [ProxyType; 5] = [ProxyType::Any, ProxyType::NonTransfer, ProxyType::Governance, ProxyType::Staking, ProxyType::CancelProxy];
const NON_TRANSFER: &[&str] = &[
	"capacity.", "collator_selection.", "council.", "democracy.", "frequency_tx_payment.", "handles.", "messages.", "msa.", "multisig.", "preimage.", "scheduler.",
	"schemas.", "session.", "stateful.", "technical_committee.", "time_release.claim", "treasury.", "utility.",
];
const GOVERNANCE: &[&str] = &["treasury.", "democracy.", "technical_committee.", "council.", "utility."];
fn documented(t: ProxyType, kind: &str) -> bool {
	let any = |l: &[&str]| l.iter().any(|p| kind.starts_with(p));
	match t {
		ProxyType::Any => true,
		ProxyType::NonTransfer => any(NON_TRANSFER),
		ProxyType::Governance => any(GOVERNANCE),
		ProxyType::Staking => kind == "capacity.stake" || kind == "collator_selection.set_candidacy_bond",
		ProxyType::CancelProxy => kind == "proxy.reject_announcement",
	}
}
fn x02_kinds(g: &mut Gen) -> R {
	reset_knobs();
	let i = g.below(KINDS.len() as u64 * 5) as usize;
	let (k, t) = (KINDS[i / 5], TYPES[i % 5]);
	chain(&[], || -> R {
		for _ in 0..4 {
			let c = calls::make(k, g);
			check_eq!(t.filter(&c), documented(t, k), "whether a proxy of kind {t:?} may make the call {k}: {c:?}");
			for o in TYPES {
				if t.is_superset(&o) {
					check!(!o.filter(&c) || t.filter(&c), "{t:?} is declared to include {o:?}, which allows {k} and {t:?} does not");
				}
			}
		}
		g.nontrivial();
		Ok(())
	})
}
fn x02_order(g: &mut Gen) -> R {
	let i = g.below(125) as usize;
	let (a, b, c) = (TYPES[i / 25], TYPES[i / 5 % 5], TYPES[i % 5]);
	check!(a.is_superset(&a), "{a:?} does not include itself");
	check!(ProxyType::Any.is_superset(&a), "Any does not include {a:?}");
	check!(a == b || !(a.is_superset(&b) && b.is_superset(&a)), "{a:?} and {b:?} include each other");
	check!(!(a.is_superset(&b) && b.is_superset(&c)) || a.is_superset(&c), "{a:?} includes {b:?}, which includes {c:?}, but {a:?} does not include {c:?}");
	check_eq!(ProxyType::default(), ProxyType::Any, "the usual kind of proxy");
	check_eq!(ProxyType::decode(&mut &a.encode()[..]).ok(), Some(a), "kind {a:?} read back");
	check_eq!(a.encode(), vec![[0u8, 1, 2, 3, 6][i / 25]], "encoding of {a:?}");
	g.nontrivial();
	Ok(())
}
/// What the proxy pallet does: the call of the account, with the proxy's filter on top.
fn proxied(real: &AccountId, t: ProxyType, c: RuntimeCall) -> Outcome {
	let mut o = RuntimeOrigin::signed(real.clone());
	o.add_filter(move |c: &RuntimeCall| t.filter(c));
	c.dispatch(o)
}
fn x02_effects(g: &mut Gen) -> R {
	reset_knobs();
	FilterKind::set(g.below(2) as u8);
	ExistentialDeposit::set(1);
	chain(&rich(), || -> R {
		populate()?;
		let (mut allowed, mut denied) = (0, 0);
		g.steps(8, |g, _| {
			let t = *g.pick(&TYPES);
			let d = g.below(4) as u32;
			let c = tree(g, d);
			let real = key(*g.pick(&[0u32, 2, 1]));
			let before = <Balances as Inspect<AccountId>>::total_balance(&real.id);
			let signed = frozen(|| (call(&real.id, c.clone()).map_err(|e| why_err(&e.error)).is_ok(), state()));
			let s = state();
			let o = proxied(&real.id, t, c.clone());
			let after = <Balances as Inspect<AccountId>>::total_balance(&real.id);
			g.note(|| format!("{t:?} makes {c:?}: {}", why(&o)));
			if !t.filter(&c) {
				denied += 1;
				check!(filtered(&o), "a proxy of kind {t:?} makes {c:?}, which answers {}", why(&o));
				check_eq!(state(), s, "state after the filtered call {c:?}");
			} else {
				allowed += 1;
			}
			if t == ProxyType::Any {
				check_eq!((o.is_ok(), state()), signed, "a proxy of kind Any makes the call {c:?}, compared with the account itself");
			} else {
				check!(after >= before, "a proxy of kind {t:?} took {} tokens from the account by {c:?}", before - after);
			}
			Ok(())
		})?;
		if allowed > 0 && denied > 0 {
			g.nontrivial();
		}
		Ok(())
	})
}
fn main() {
	engine::dict::load(&engine::root(), &["frequency-runtime", "common-runtime"]);
	let n = KINDS.len() as u64;
	engine::main(vec![
		Property {
			id: "X01",
			rule: "lists of 0 to 60 calls of all kinds; non-trivial: at least two calls. Kinds on both networks: every case counts. Trees of nested calls on the main network; non-trivial: one of them was accepted",
			aspects: vec![aspect("lists", 100_000, 500_000, x01_lists), engine::enumerated("kinds", n * 2, x01_kinds), aspect("trees", 50_000, 300_000, x01_trees)],
			known: vec![],
		},
		Property {
			id: "X02",
			rule: "every kind of call with every kind of proxy, every triple of proxy kinds: every case counts. Histories of trees of calls made by proxies; non-trivial: one passed the filter and one did not",
			aspects: vec![engine::enumerated("kinds", n * 5, x02_kinds), engine::enumerated("order", 125, x02_order), aspect("effects", 50_000, 300_000, x02_effects)],
			known: vec![],
		},
	]);
}
