//! P01: what a passkey transaction may do, judged against the same transfer made by hand.
use engine::{aspect, check, check_eq, Gen, Property, R};
use std::collections::BTreeMap;
use world::calls;
use world::common_primitives::node::AccountId;
use world::frame_support::dispatch::GetDispatchInfo;
use world::frame_support::traits::{Currency, ExistenceRequirement, WithdrawReasons};
use world::frame_support::weights::{Weight, WeightToFee};
use world::pallet_passkey::types::{PasskeyCall, PasskeyPayload, VerifiablePasskeySignature};
use world::parity_scale_codec::Encode;
use world::sp_runtime::transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidityError};
use world::sp_runtime::traits::ValidateUnsigned;
use world::sp_core::{ed25519, sr25519};
use world::sp_runtime::MultiSignature;
use world::*;

type Tokens = world::pallet_balances::Call<Runtime>;
const KEYS: u64 = 6;

fn transfer(g: &mut Gen) -> RuntimeCall {
	let dest = key(g.below(KEYS) as u32).id;
	let value = match g.weighted(&[4, 2, 1]) {
		0 => g.uint(0, 3_000) as u128,
		1 => g.uint(0, 40) as u128,
		_ => g.int_u128(u128::MAX),
	};
	match g.below(4) {
		0 => Tokens::transfer_keep_alive { dest: dest.into(), value }.into(),
		1 | 2 => Tokens::transfer_allow_death { dest: dest.into(), value }.into(),
		_ => Tokens::transfer_all { dest: dest.into(), keep_alive: g.bool() }.into(),
	}
}
/// The three kinds of call a passkey may make.
fn permitted(c: &RuntimeCall) -> bool {
	matches!(
		c,
		RuntimeCall::Balances(Tokens::transfer_keep_alive { .. } | Tokens::transfer_allow_death { .. } | Tokens::transfer_all { .. })
	)
}
fn flipped(s: &MultiSignature, at: usize) -> MultiSignature {
	let mut s = s.clone();
	let b: &mut [u8] = match &mut s {
		MultiSignature::Ed25519(x) => x.as_mut(),
		MultiSignature::Sr25519(x) => x.as_mut(),
		MultiSignature::Ecdsa(x) => x.as_mut(),
	};
	let n = b.len();
	b[at % n] ^= 1;
	s
}
/// The same bytes presented as a signature of another scheme.
fn relabelled(s: &MultiSignature) -> MultiSignature {
	match s {
		MultiSignature::Ed25519(x) => MultiSignature::Sr25519(sr25519::Signature(x.0)),
		MultiSignature::Sr25519(x) => MultiSignature::Ed25519(ed25519::Signature(x.0)),
		MultiSignature::Ecdsa(x) => {
			let mut b = [0u8; 64];
			b.copy_from_slice(&x.0[..64]);
			MultiSignature::Ed25519(ed25519::Signature(b))
		},
	}
}
fn payload(who: &AccountId, nonce: u32, pk: [u8; 33], proof: MultiSignature, c: RuntimeCall, g: &mut Gen) -> PasskeyPayload<Runtime> {
	PasskeyPayload {
		passkey_public_key: pk,
		verifiable_passkey_signature: VerifiablePasskeySignature {
			signature: g.bytes(0, 3).try_into().unwrap_or_default(),
			authenticator_data: g.bytes(0, 3).try_into().unwrap_or_default(),
			client_data_json: g.bytes(0, 3).try_into().unwrap_or_default(),
		},
		passkey_call: PasskeyCall { account_id: who.clone(), account_nonce: nonce, account_ownership_proof: proof, call: Box::new(c) },
	}
}
fn kind(e: &TransactionValidityError) -> &'static str {
	match e {
		TransactionValidityError::Invalid(InvalidTransaction::Call) => "call",
		TransactionValidityError::Invalid(InvalidTransaction::BadSigner) => "signer",
		TransactionValidityError::Invalid(InvalidTransaction::Stale) => "stale",
		TransactionValidityError::Invalid(InvalidTransaction::Future) => "future",
		TransactionValidityError::Invalid(InvalidTransaction::Payment) => "payment",
		_ => "other",
	}
}
/// Everything stored except the events.
fn stored() -> BTreeMap<(Vec<u8>, Vec<u8>), Vec<u8>> {
	let from = event_count();
	let _ = from;
	frozen(|| {
		System::reset_events();
		entries().into_iter().map(|(c, k, v)| ((c, k), v)).collect()
	})
}
#[derive(Clone)]
struct Made {
	p: PasskeyPayload<Runtime>,
	/// The account that signed, and the passkey's public key it signed, if one did.
	signer: Option<(AccountId, [u8; 33])>,
}
fn p01(g: &mut Gen) -> R {
	reset_knobs();
	ExistentialDeposit::set(10);
	match g.weighted(&[3, 1, 1]) {
		0 => FeePerByte::set(g.uint(1, 5) as u128),
		1 => RealFees::set(1),
		_ => {
			FeePerByte::set(1);
			FeePerWeight::set(g.uint(0, 2) as u128);
		},
	}
	BaseWeight::set(*g.pick(&[0, 1_000_000, 98_297_000]));
	let mut genesis = vec![];
	for i in 0..KEYS as u32 {
		if g.chance(4, 5) {
			genesis.push((key(i).id, *g.pick(&[1_000_000_000_000, 100_000, 5_000, 500, 100])));
		}
	}
	let (mut done, mut refused, mut failed) = (0, 0, 0);
	let r = chain(&genesis, || -> R {
		let mut made: Vec<Made> = vec![];
		g.steps(20, |g, _| {
			// some funds are not for spending
			if g.chance(1, 12) {
				let i = g.below(KEYS) as u32;
				let _ = call(&key(i).id, pallet_time_release::Call::<Runtime>::transfer {
					dest: key(g.below(KEYS) as u32).id.into(),
					schedule: pallet_time_release::ReleaseSchedule { start: 1, period: 10, period_count: 1, per_period: g.uint(50, 3_000) as u128 },
				});
			}
			let m = if !made.is_empty() && g.chance(1, 4) {
				// an earlier payload: as it was, or with a part of it in a new one
				let mut m = g.pick(&made).clone();
				let who = m.p.passkey_call.account_id.clone();
				match g.weighted(&[3, 3, 1, 1]) {
					0 => {},
					1 => {
						// one proof of ownership serves any number of transactions
						m.p.passkey_call.account_nonce = System::account_nonce(&who);
						m.p.passkey_call.call = Box::new(transfer(g));
					},
					2 => {
						let i = g.byte() as usize % 33;
						m.p.passkey_public_key[i] ^= 1 << g.below(8);
						m.p.passkey_call.account_nonce = System::account_nonce(&who);
					},
					_ => {
						let other = key(g.below(KEYS) as u32).id;
						m.p.passkey_call.account_nonce = System::account_nonce(&other);
						m.p.passkey_call.account_id = other;
					},
				}
				g.label("from an earlier payload");
				m
			} else {
				let i = g.below(KEYS) as u32;
				let who = key(i);
				let now = System::account_nonce(&who.id);
				let nonce = match g.weighted(&[14, 1, 1, 1]) {
					0 => now,
					1 => now + g.uint(1, 3) as u32,
					2 => now.saturating_sub(g.uint(1, 3) as u32),
					_ => u32::MAX,
				};
				let c = match g.weighted(&[12, 1, 1, 1]) {
					0 => transfer(g),
					1 => calls::any(g).1,
					2 => pallet_utility::Call::<Runtime>::batch { calls: vec![transfer(g)] }.into(),
					_ => {
						let mut pk = [3; 33];
						pk[0] = g.byte();
						let inner = payload(&who.id, now, pk, who.sign(&pk), transfer(g), g);
						pallet_passkey::Call::<Runtime>::proxy { payload: inner }.into()
					},
				};
				let mut pk = [0u8; 33];
				for b in pk.iter_mut().take(4) {
					*b = g.byte();
				}
				let right = who.sign(&pk);
				let (proof, signer) = match g.weighted(&[14, 1, 1, 1, 1, 1, 1, 1]) {
					0 => (right, Some((who.id.clone(), pk))),
					1 => {
						let j = g.below(KEYS + 1) as u32;
						(key(j).sign(&pk), Some((key(j).id, pk)))
					},
					2 => (who.sign_raw(&pk), None),
					3 => (flipped(&right, g.usize(0, 64)), None),
					4 => (relabelled(&right), None),
					5 => (who.sign(&c.encode()), None),
					6 => (who.sign(&pk[..32]), None),
					_ => (who.sign(&[&pk[..], b"\0"].concat()), None),
				};
				Made { p: payload(&who.id, nonce, pk, proof, c, g), signer }
			};
			let who = m.p.passkey_call.account_id.clone();
			let signed_right = m.signer == Some((who.clone(), m.p.passkey_public_key));
			let (nonce, now) = (m.p.passkey_call.account_nonce, System::account_nonce(&who));
			let c: RuntimeCall = pallet_passkey::Call::<Runtime>::proxy { payload: m.p.clone() }.into();
			let inner = (*m.p.passkey_call.call).clone();
			let info = c.get_dispatch_info();
			// the fee is taken for the call's weight and the length of an account id
			let fee = WFee::weight_to_fee(&Weight::from_parts(BaseWeight::get(), 0)) + WFee::weight_to_fee(&info.weight) + LFee::weight_to_fee(&Weight::from_parts(32, 0));
			let pays = |who: &AccountId| Balances::withdraw(who, fee, WithdrawReasons::TRANSACTION_PAYMENT, ExistenceRequirement::KeepAlive).is_ok();
			let can_pay = frozen(|| pays(&who));
			let refusal = if !permitted(&inner) {
				"call"
			} else if !signed_right {
				"signer"
			} else if nonce < now {
				"stale"
			} else if nonce > now {
				"future"
			} else if !can_pay {
				"payment"
			} else {
				""
			};
			let describe = || format!("{} with nonce {nonce}, next {now}, proof {}, able to pay {fee}: {can_pay}, call {inner:?}", who_is(&who), if signed_right { "right" } else { "wrong" });
			let before = state();
			// the transaction pool: from any source, transactions with a later nonce wait for their turn
			let v = pool_unsigned(&c);
			for s in [TransactionSource::External, TransactionSource::Local, TransactionSource::InBlock] {
				let x = frozen(|| Runtime::validate_unsigned(s, &c));
				check_eq!(x.is_ok(), v.is_ok(), "validation for another source of a passkey transaction of {}", describe());
			}
			match &v {
				Ok(v) => {
					check!(refusal.is_empty() || refusal == "future" && can_pay, "the pool takes a passkey transaction of {}", describe());
					check!(v.provides.contains(&(&who, nonce).encode()), "tags {:?} provided by a passkey transaction of {}", v.provides, describe());
					let want = if nonce > now { vec![(&who, nonce - 1).encode()] } else { vec![] };
					check_eq!(v.requires, want, "tags required by a passkey transaction of {}", describe());
				},
				Err(e) => {
					let want = if refusal == "future" && !can_pay { "payment" } else { refusal };
					check_eq!(kind(e), want, "the pool's refusal of a passkey transaction of {}", describe());
				},
			}
			check_eq!(state(), before, "state after validation");
			// the same by hand
			let expected = frozen(|| {
				world::frame_system::Account::<Runtime>::mutate(&who, |a| a.nonce += 1);
				let paid = pays(&who);
				let o = call(&who, inner.clone());
				(paid, o.is_ok(), why(&o), stored())
			});
			let issued = Balances::total_issuance();
			let from = event_count();
			match apply_unsigned(&c) {
				Applied::Refused(e) => {
					refused += 1;
					g.note(|| format!("{}: refused {e:?}", describe()));
					check_eq!(kind(&e), refusal, "refusal in the block of a passkey transaction of {}", describe());
					check_eq!(state(), before, "state after the refused passkey transaction");
				},
				Applied::Included(o) => {
					g.note(|| format!("{}: {}", describe(), why(&o)));
					check_eq!("", refusal, "a passkey transaction was executed, of {}", describe());
					check_eq!((true, o.is_ok(), why(&o)), (expected.0, expected.1, expected.2), "outcome of a passkey transaction of {}", describe());
					let got = stored();
					if got != expected.3 {
						let keys: Vec<_> = got.keys().chain(expected.3.keys()).filter(|k| got.get(*k) != expected.3.get(*k)).map(|k| format!("{:?}: {:?}, expected {:?}", String::from_utf8_lossy(&k.1), got.get(k), expected.3.get(k))).collect();
						return Err(format!("a passkey transaction of {} leaves another state than the fee, the nonce and the transfer: {keys:?}", describe()));
					}
					check_eq!(System::account_nonce(&who), if gone(&who) { 0 } else { now + 1 }, "nonce after a passkey transaction of {}", describe());
					check!(Balances::total_issuance() <= issued, "a passkey transaction made tokens");
					let told = events_since(from).iter().filter(|e| matches!(e, RuntimeEvent::Passkey(pallet_passkey::Event::TransactionExecutionSuccess { account_id }) if *account_id == who)).count();
					check_eq!(told, o.is_ok() as usize, "successes reported for a passkey transaction of {}", describe());
					if o.is_ok() {
						done += 1;
					} else {
						failed += 1;
					}
					// at once a second time
					if !gone(&who) {
						let after = state();
						check!(matches!(apply_unsigned(&c), Applied::Refused(_)), "a passkey transaction was executed twice, of {}", describe());
						check!(pool_unsigned(&c).is_err(), "the pool takes an executed passkey transaction, of {}", describe());
						check_eq!(state(), after, "state after a replay");
					}
				},
			}
			// sent in any other way it does nothing
			let before = state();
			let o = if g.bool() { frozen(|| (call(&who, c.clone()), state())) } else { frozen(|| (call_root(c.clone()), state())) };
			check!(o.0.is_err() && o.1 == before, "a passkey call made with an origin answers {}", why(&o.0));
			if g.chance(1, 3) {
				made.push(m);
			}
			if g.chance(1, 3) {
				next_block();
			}
			Ok(())
		})
	});
	g.label_if(failed > 0, "executed and failed");
	g.label_if(done > 1, "two succeeded");
	if done >= 1 && refused >= 1 {
		g.nontrivial();
	}
	r
}
fn gone(who: &AccountId) -> bool {
	!world::frame_system::Account::<Runtime>::contains_key(who)
}
fn who_is(who: &AccountId) -> String {
	(0..KEYS as u32).find(|i| key(*i).id == *who).map_or_else(|| format!("{who:?}"), |i| format!("key {i}"))
}
/// Every other kind of call is refused, whatever else is right.
fn p01_kinds(g: &mut Gen) -> R {
	reset_knobs();
	let k = calls::KINDS[g.below(calls::KINDS.len() as u64) as usize];
	let who = key(0);
	chain(&[(who.id.clone(), u128::MAX / 4)], || -> R {
		let c = calls::make(k, g);
		let pk = [2u8; 33];
		let p = payload(&who.id, 0, pk, who.sign(&pk), c.clone(), g);
		let x: RuntimeCall = pallet_passkey::Call::<Runtime>::proxy { payload: p }.into();
		check_eq!(pool_unsigned(&x).is_ok(), permitted(&c), "whether the pool takes {k} from a passkey");
		check_eq!(matches!(apply_unsigned(&x), Applied::Included(_)), permitted(&c), "whether a block takes {k} from a passkey");
		g.nontrivial();
		Ok(())
	})
}
fn main() {
	engine::dict::load(&engine::root(), &["pallet-passkey", "common-runtime"]);
	engine::main(vec![Property {
		id: "P01",
		rule: "histories of passkey transactions of 6 keys of three schemes; non-trivial: one executed successfully and one refused. Kinds of call: every kind counts",
		aspects: vec![aspect("history", 16_000, 400_000, p01), engine::enumerated("kinds", calls::KINDS.len() as u64, p01_kinds)],
		known: vec![],
	}]);
}
