//! N01, N02, N03: histories of handle claims, changes and retirements against a reference model.
use engine::{aspect, check, check_eq, guarded, Gen, Known, Property, R};
use std::collections::{BTreeMap, BTreeSet};
use world::common_primitives::handles::ClaimHandlePayload;
use world::common_primitives::node::AccountId;
use world::handles_utils::{converter, suffix, validator};
use world::parity_scale_codec::Encode;
use world::sp_runtime::MultiSignature;
use world::*;

type Base = Vec<u8>;
const NONE: fn(u64) -> world::sp_runtime::DispatchResult = |_| Ok(());

/// What the documentation of `claim_handle` requires of a base handle; Ok holds its canonical form.
fn judge(base: &[u8]) -> Result<String, &'static str> {
	if base.len() > 32 {
		return Err("bytes");
	}
	let s = std::str::from_utf8(base).map_err(|_| "encoding")?;
	let n = s.chars().count();
	if !(3..=20).contains(&n) {
		return Err("length");
	}
	if validator::is_reserved_handle(s) || validator::contains_blocked_characters(s) {
		return Err("not allowed");
	}
	let c = converter::convert_to_canonical(s);
	if !validator::consists_of_supported_unicode_character_sets(&c) {
		return Err("characters");
	}
	let n = c.chars().count();
	if !(3..=20).contains(&n) {
		return Err("canonical length");
	}
	// the form is a storage key of 32 bytes
	if c.len() > 32 {
		return Err("canonical bytes");
	}
	Ok(c)
}
/// `validate_handle` as documented by its use: every check but the canonical length (and the byte length).
fn judge_public(base: &[u8]) -> bool {
	match std::str::from_utf8(base) {
		Err(_) => false,
		Ok(s) => {
			(3..=20).contains(&s.chars().count()) &&
				!validator::is_reserved_handle(s) &&
				!validator::contains_blocked_characters(s) &&
				validator::consists_of_supported_unicode_character_sets(&converter::convert_to_canonical(s))
		},
	}
}

fn gen_base(g: &mut Gen, pool: &[&str]) -> Base {
	let plain = ["bob", "Alice", "charlie", "dave99", "eve_x", "frank", "heidi", "ivan", "judy"];
	let mut s: Vec<char> = match g.weighted(&[10, 4, 2, 1, 2, 2]) {
		0 => g.pick(pool).chars().collect(),
		1 => g.pick(&plain).chars().collect(),
		2 => {
			// runs of one script, some of which decompose into several characters
			let starts: [(u32, u32); 12] = [(0x61, 0x7a), (0xe0, 0xff), (0x100, 0x17f), (0x3b1, 0x3c9), (0x430, 0x44f), (0x5d0, 0x5ea), (0x627, 0x64a), (0x904, 0x939), (0xe01, 0xe2e), (0x3041, 0x3096), (0x4e00, 0x9fff), (0xac00, 0xd7a3)];
			let (a, b) = *g.pick(&starts);
			let n = g.usize(1, 22);
			(0..n).filter_map(|_| char::from_u32(g.uint(a as u64, b as u64) as u32)).collect()
		},
		3 => g.dict_str().chars().collect(),
		4 => {
			let words = ["admin", "Admin", "everyone", "admln", "moderator", "here", "channel", "adm in"];
			g.pick(&words).chars().collect()
		},
		_ => {
			let n = g.usize(0, 34);
			(0..n).map(|_| *g.pick(&['a', 'b', 'Z', '0', '9', '-', '_', ' ', 'é', 'ö', '中', 'ß', '.'])).collect()
		},
	};
	for _ in 0..g.weighted(&[6, 3, 1]) {
		let i = g.usize(0, s.len());
		match g.below(7) {
			0 if i < s.len() => {
				let c = s[i];
				s[i] = if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
			},
			1 => s.insert(i, ' '),
			2 => s.insert(i, *g.pick(&['\u{301}', '\u{308}', '\u{200d}', '\u{3000}'])),
			3 if i < s.len() => {
				s.remove(i);
			},
			4 => s.insert(i, *g.pick(&['"', '@', '.', '<', '\'', '#', ';', ':', '/', '\u{1F600}'])),
			5 if i < s.len() => s[i] = *g.pick(&['α', 'о', 'е', '0', '1', '𝖆', 'ł', 'ｂ']),
			_ => s.extend(['x', 'y', 'z'].iter().take(g.usize(0, 3))),
		}
	}
	let mut b: Vec<u8> = s.into_iter().collect::<String>().into_bytes();
	if g.chance(1, 40) && !b.is_empty() {
		let i = g.usize(0, b.len() - 1);
		b[i] = g.byte();
	}
	b
}
fn show(b: &[u8]) -> String {
	match std::str::from_utf8(b) {
		Ok(s) => format!("{s:?}"),
		Err(_) => format!("{b:?}"),
	}
}

#[derive(Clone)]
struct Held {
	base: String,
	canonical: String,
	suffix: u16,
	expires: u32,
}
#[derive(Clone)]
struct Proof {
	msa: u64,
	signer: usize,
	base: Base,
	exp: u32,
	sig: MultiSignature,
	bytes: Vec<u8>,
}
#[derive(Default)]
struct Model {
	held: BTreeMap<u64, Held>,
	/// number of claims accepted per canonical form
	used: BTreeMap<String, u32>,
	issued: BTreeSet<(String, u16)>,
	/// promised suffixes per canonical form
	promised: BTreeMap<String, Vec<u16>>,
	accepted: BTreeSet<(u64, Vec<u8>)>,
	/// accounts whose history contains a change of handle
	changed: BTreeSet<u64>,
}
struct Keys {
	keys: Vec<Key>,
	/// account of each key
	msa: Vec<Option<u64>>,
}

fn sequence(min: u16, max: u16, canonical: &str) -> Vec<u16> {
	suffix::generate_unique_suffixes(min, max, canonical).collect()
}

/// All lookups against the model.
fn lookups(m: &Model, msas: &[u64], min: u16, max: u16) -> R {
	for &id in msas {
		match (m.held.get(&id), Handles::get_handle_for_msa(id)) {
			(None, None) => {},
			(Some(h), Some(r)) => {
				check_eq!(String::from_utf8_lossy(&r.base_handle).to_string(), h.base, "base handle of account {id}");
				check_eq!(r.suffix, h.suffix, "suffix of account {id}");
				check_eq!(String::from_utf8_lossy(&r.canonical_base).to_string(), h.canonical, "canonical form of account {id}");
				let display: Vec<u8> = format!("{}.{}", String::from_utf8_lossy(&r.base_handle), r.suffix).into_bytes();
				let stored = Handles::get_display_name_for_msa_id(id).map(|x| x.0.to_vec());
				check_eq!(stored, Some(display.clone()), "display handle of account {id} against its reported parts");
				let back = Handles::get_msa_id_for_handle(display.try_into().map_err(|_| "display handle too long")?);
				check_eq!(back, Some(id), "account found for the handle {}.{} of account {id}", h.base, h.suffix);
				check!((min..=max).contains(&h.suffix), "suffix {} outside of {min}..={max}", h.suffix);
			},
			(a, b) => return Err(format!("account {id}: handle is {:?}, expected {:?}", b.map(|r| (show(&r.base_handle), r.suffix)), a.map(|h| (&h.base, h.suffix)))),
		}
	}
	let rows = pallet_handles::MSAIdToDisplayName::<Runtime>::iter().count();
	check_eq!(rows, m.held.len(), "number of accounts with a handle");
	let rev = pallet_handles::CanonicalBaseHandleAndSuffixToMSAId::<Runtime>::iter().count();
	check_eq!(rev, m.held.len(), "number of handles that resolve to an account");
	Ok(())
}

struct Opts {
	queries: bool,
	forge: bool,
}

fn history(g: &mut Gen, o: Opts) -> R {
	reset_knobs();
	// small suffix ranges run out; the node's own range is 10..=99
	let (min, max) = match g.weighted(&[3, 3, 2, 1]) {
		0 => (10u16, 99u16),
		1 => {
			let a = g.int(0, 65530) as u16;
			(a, a + g.uint(0, 4) as u16)
		},
		2 => (0, g.uint(0, 3) as u16),
		_ => (65532 + g.uint(0, 3) as u16, 65535),
	};
	HandleSuffixMin::set(min);
	HandleSuffixMax::set(max);
	let window = g.uint(2, 40) as u32;
	HandleMortality::set(window);
	let n_accounts = g.usize(2, 6);
	let pools: [&[&str]; 4] = [&["bob"], &["bob", "Bób", "BOB", "b o b"], &["alice", "аlice", "Alice", "al1ce"], &["user", "bob", "한글사람", "Ünïcödé"]];
	let pool = *g.pick(&pools);
	let rich: Vec<(AccountId, u128)> = (0..10).map(|i| (key(i).id, 1_000_000u128)).collect();
	chain(&rich, || {
		let mut k = Keys { keys: (0..10).map(key).collect(), msa: vec![None; 10] };
		for i in 0..n_accounts {
			scatter_accounts(g);
			let (id, _) = Msa::create_account(k.keys[i].id.clone(), NONE).map_err(|e| format!("creating account: {e:?}"))?;
			k.msa[i] = Some(id);
			if i == 0 {
				// the first account has two keys
				Msa::add_key(id, &k.keys[8].id, NONE).map_err(|e| format!("adding key: {e:?}"))?;
				k.msa[8] = Some(id);
			}
		}
		let msas: Vec<u64> = (0..n_accounts).filter_map(|i| k.msa[i]).collect();
		let mut m = Model::default();
		let mut proofs: Vec<Proof> = vec![];
		let len = if g.thorough() { 60 } else { 26 };
		g.steps(len, |g, _| {
			let before = state();
			match g.weighted(&[12, 5, 4, 5, if o.queries { 6 } else { 1 }]) {
				// claim or change
				w @ (0 | 1) => {
					let change = w == 1;
					let replay = !proofs.is_empty() && g.chance(1, if o.forge { 3 } else { 8 });
					let p = if replay {
						g.pick(&proofs).clone()
					} else {
						let owner = match g.weighted(&[8, 1, 1]) {
							0 => g.usize(0, n_accounts - 1),
							1 => 8,
							_ => g.usize(n_accounts, 9),
						};
						let exp_off = match g.weighted(&[6, 1, 1, 1]) {
							0 => g.uint(1, window as u64 - 1) as i64,
							1 => *g.pick(&[0i64, 1]),
							2 => window as i64 - g.uint(0, 1) as i64,
							_ => g.uint(0, 3 * window as u64) as i64 - window as i64,
						};
						let base = gen_base(g, pool);
						let exp = (block() as i64 + exp_off).max(0) as u32;
						let payload = ClaimHandlePayload::<u32> { base_handle: base.clone(), expiration: exp };
						let bytes = payload.encode();
						let sig = k.keys[owner].sign(&bytes);
						Proof { msa: k.msa[owner].unwrap_or(0), signer: owner, base, exp, sig, bytes }
					};
					let mut owner_key = p.signer;
					let mut base = p.base.clone();
					let mut exp = p.exp;
					let mut sig = p.sig.clone();
					if o.forge && g.chance(1, 3) {
						match g.below(6) {
							0 => owner_key = g.usize(0, 9),
							1 => base = gen_base(g, pool),
							2 => exp = exp.wrapping_add(1),
							3 => sig = k.keys[g.usize(0, 9)].sign(&p.bytes),
							4 => sig = k.keys[p.signer].sign_raw(&p.bytes),
							_ => {
								base.push(b'a');
							},
						}
					}
					let submitter = g.usize(0, 9);
					let payload = ClaimHandlePayload::<u32> { base_handle: base.clone(), expiration: exp };
					let bytes = payload.encode();
					let sig_ok = sig == k.keys[owner_key].sign(&bytes);
					let now = block();
					let verdict = judge(&base);
					let msa = k.msa[owner_key];
					let held = msa.map(|i| m.held.contains_key(&i)).unwrap_or(false);
					let remaining = match &verdict {
						Ok(c) => (max as u32 - min as u32 + 1).saturating_sub(*m.used.get(c).unwrap_or(&0)),
						Err(_) => 0,
					};
					let expect = msa.is_some() && sig_ok && exp > now && exp < now + window && verdict.is_ok() && remaining > 0 && held == change;
					// what the queries say about it beforehand
					let advertised = if base.len() <= 32 {
						let r = Handles::get_next_suffixes(base.clone().try_into().map_err(|_| "base handle bound")?, 1);
						check_eq!(r.base_handle, base, "base handle echoed by the suffix query");
						Some(r.suffixes)
					} else {
						None
					};
					let valid = Handles::validate_handle(base.clone());
					let c: RuntimeCall = if change {
						pallet_handles::Call::<Runtime>::change_handle { msa_owner_key: k.keys[owner_key].id.clone(), proof: sig, payload }.into()
					} else {
						pallet_handles::Call::<Runtime>::claim_handle { msa_owner_key: k.keys[owner_key].id.clone(), proof: sig, payload }.into()
					};
					let ev = event_count();
					let r = call(&k.keys[submitter].id, c);
					g.note(|| format!("block {now}: key {submitter} submits {} of {} for key {owner_key} (account {msa:?}), expiry {exp}, signature {}: {}", if change { "change" } else { "claim" }, show(&base), if sig_ok { "good" } else { "bad" }, why(&r)));
					g.label_if(replay, "replayed proof");
					if r.is_err() {
						check!(!expect, "{} of {} for account {msa:?} (owner's fresh signature, valid handle, {remaining} suffixes left) is refused: {}", if change { "change" } else { "claim" }, show(&base), why(&r));
						check!(state() == before, "a refused {} left a trace ({})", if change { "change" } else { "claim" }, why(&r));
						g.label(match &verdict {
							_ if msa.is_none() => "refused: no account",
							_ if !sig_ok => "refused: signature",
							_ if !(exp > now && exp < now + window) => "refused: expiry",
							_ if held != change => "refused: handle state",
							Err(e) => e,
							_ => "refused: exhausted",
						});
						return Ok(());
					}
					let id = msa.ok_or_else(|| format!("key {owner_key} has no account, but its claim of {} is accepted", show(&base)))?;
					check!(sig_ok, "accepted without the owner's signature over {} and expiry {exp}", show(&base));
					check!(exp > now && exp < now + window, "accepted at block {now} with expiry {exp}, window {window}");
					let canonical = match &verdict {
						Ok(c) => c.clone(),
						Err(e) => return Err(format!("{} is accepted although it breaks a rule ({e})", show(&base))),
					};
					check!(valid, "{} is accepted, but the validity query says no", show(&base));
					check!(held == change, "{} accepted while the account {} a handle", if change { "change" } else { "claim" }, if held { "has" } else { "has no" });
					// a proof that was accepted before and is used for a plain claim again
					if !change && m.accepted.contains(&(id, bytes.clone())) && !m.changed.contains(&id) {
						return Err(format!("the signature over {} with expiry {exp} is accepted a second time at block {now}", show(&base)));
					}
					m.accepted.insert((id, bytes));
					if change {
						m.changed.insert(id);
						m.held.remove(&id);
						g.label("changed");
					} else {
						g.label("claimed");
					}
					let (disp, _) = Handles::get_display_name_for_msa_id(id).ok_or("no handle after an accepted claim")?;
					let disp = String::from_utf8(disp.to_vec()).map_err(|_| "display handle is not text")?;
					let base_s = String::from_utf8_lossy(&base).to_string();
					let sfx = disp.strip_prefix(&format!("{base_s}.")).and_then(|x| x.parse::<u16>().ok().filter(|v| v.to_string() == x));
					let sfx = sfx.ok_or_else(|| format!("claiming {base_s:?} gave the display handle {disp:?}"))?;
					let n = m.used.entry(canonical.clone()).or_insert(0);
					*n += 1;
					check!(*n <= max as u32 - min as u32 + 1, "more handles of {canonical:?} than suffixes in {min}..={max}");
					check!(m.issued.insert((canonical.clone(), sfx)), "handle {canonical:?}.{sfx} is issued a second time");
					if let Some(a) = advertised {
						check_eq!(a, vec![sfx], "suffix advertised for {base_s:?} just before its claim");
					}
					if let Some(p) = m.promised.get_mut(&canonical) {
						if !p.is_empty() {
							check_eq!(sfx, p.remove(0), "suffix of this claim of {base_s:?} as advertised earlier");
							g.label("promised suffix kept");
						}
					}
					m.held.insert(id, Held { base: base_s, canonical, suffix: sfx, expires: exp });
					let evs = events_since(ev);
					let claims = evs.iter().filter(|e| matches!(e, RuntimeEvent::Handles(pallet_handles::Event::HandleClaimed { msa_id, handle }) if *msa_id == id && *handle == disp.as_bytes())).count();
					let retires = evs.iter().filter(|e| matches!(e, RuntimeEvent::Handles(pallet_handles::Event::HandleRetired { msa_id, .. }) if *msa_id == id)).count();
					check_eq!((claims, retires), (1, change as usize), "events of the accepted {}", if change { "change" } else { "claim" });
					if proofs.len() < 12 {
						proofs.push(Proof { msa: id, signer: owner_key, base, exp, ..p });
						let q = proofs.last_mut().ok_or("proof")?;
						q.bytes = ClaimHandlePayload::<u32> { base_handle: q.base.clone(), expiration: exp }.encode();
						q.sig = k.keys[owner_key].sign(&q.bytes);
					}
					if m.issued.len() >= 3 {
						g.nontrivial();
					}
				},
				// retire, through the transaction pool
				2 => {
					let who = g.usize(0, 9);
					let c: RuntimeCall = pallet_handles::Call::<Runtime>::retire_handle {}.into();
					let now = block();
					let held = k.msa[who].and_then(|i| m.held.get(&i).cloned().map(|h| (i, h)));
					let expect = held.as_ref().map(|(_, h)| now >= h.expires).unwrap_or(false);
					let nonce = System::account_nonce(&k.keys[who].id);
					let pooled = world::pool(&k.keys[who].id, nonce, &c).is_ok();
					let r = apply(&k.keys[who].id, nonce, &c);
					g.note(|| format!("block {now}: key {who} retires its handle: {r:?}"));
					check_eq!(pooled, expect, "pool admits the retirement by key {who} at block {now} (handle {:?})", held.as_ref().map(|(_, h)| (&h.base, h.expires)));
					if !expect {
						check!(!r.included(), "retirement by key {who} at block {now} is executed");
						check!(state() == before, "a refused retirement left a trace");
						g.label("retirement refused");
						return Ok(());
					}
					check!(r.succeeded(), "admitted retirement fails: {r:?}");
					if let Some((id, _)) = held {
						m.held.remove(&id);
						g.label("retired");
					}
				},
				3 => {
					let n = g.uint(1, window as u64) as u32;
					skip_blocks(n);
				},
				// suffix query
				_ => {
					let base = gen_base(g, pool);
					if base.len() > 32 {
						return Ok(());
					}
					let count = *g.pick(&[1u16, 2, 3, 5, 100, 0]);
					let count = if g.chance(1, 10) { g.int(0, 65535) as u16 } else { count };
					let r = Handles::get_next_suffixes(base.clone().try_into().map_err(|_| "base handle bound")?, count);
					check!(state() == before, "a query changed the state");
					let got = r.suffixes;
					match judge(&base) {
						Ok(c) => {
							let used = *m.used.get(&c).unwrap_or(&0);
							let left = max as u32 - min as u32 + 1 - used;
							check_eq!(got.len() as u32, left.min(count as u32), "number of suffixes advertised for {} (asked {count}, left {left})", show(&base));
							let have = m.promised.entry(c.clone()).or_default();
							let common = have.len().min(got.len());
							check_eq!(&got[..common], &have[..common], "suffixes advertised for {} now and before", show(&base));
							if got.len() > have.len() {
								*have = got.clone();
							}
							for s in &got {
								check!(!m.issued.contains(&(c.clone(), *s)), "advertised suffix {s} of {c:?} was issued before");
							}
							g.note(|| format!("block {}: next {count} suffixes of {}: {got:?}", block(), show(&base)));
						},
						Err(_) => {
							check!(got.len() <= count as usize, "more suffixes than asked for");
						},
					}
				},
			}
			lookups(&m, &msas, min, max)
		})?;
		Ok(())
	})
}
fn n01(g: &mut Gen) -> R {
	history(g, Opts { queries: false, forge: false })
}
fn n02(g: &mut Gen) -> R {
	history(g, Opts { queries: false, forge: true })
}
fn n03(g: &mut Gen) -> R {
	history(g, Opts { queries: true, forge: false })
}
/// One base handle on a fresh chain: every query and the claim agree with each other.
fn n03_each(g: &mut Gen) -> R {
	reset_knobs();
	let base = gen_base(g, &["bob", "Alice", "한글사람", "Ünïcödé", "аdmin", "ﬁx", "Ǆungla"]);
	chain(&[(key(0).id, 1_000_000)], || {
		let k = key(0);
		let (id, _) = Msa::create_account(k.id.clone(), NONE).map_err(|e| format!("{e:?}"))?;
		let verdict = judge(&base);
		g.note(|| format!("{}: {verdict:?}", show(&base)));
		g.label(match &verdict {
			Ok(_) => "claimable",
			Err(e) => e,
		});
		if !base.is_empty() {
			g.nontrivial();
		}
		check_eq!(Handles::validate_handle(base.clone()), judge_public(&base), "validity query for {}", show(&base));
		let payload = ClaimHandlePayload::<u32> { base_handle: base.clone(), expiration: 10 };
		let proof = k.sign(&payload.encode());
		let next = if base.len() <= 32 { Handles::get_next_suffixes(base.clone().try_into().map_err(|_| "bound")?, 3).suffixes } else { vec![] };
		let r = call(&k.id, pallet_handles::Call::<Runtime>::claim_handle { msa_owner_key: k.id.clone(), proof, payload });
		check_eq!(r.is_ok(), verdict.is_ok(), "claim of {} ({verdict:?}): {}", show(&base), why(&r));
		if let Ok(c) = verdict {
			check_eq!(next, sequence(10, 99, &c)[..3].to_vec(), "advertised suffixes of {}", show(&base));
			let h = Handles::get_handle_for_msa(id).ok_or("no handle after the claim")?;
			check_eq!(h.suffix, next[0], "suffix of {}", show(&base));
			check_eq!(h.base_handle, base, "base handle");
			check_eq!(h.canonical_base, c.clone().into_bytes(), "canonical form of {}", show(&base));
			// any spelling with the same canonical form finds the account
			let disp = format!("{c}.{}", h.suffix);
			if disp.len() <= 38 && converter::convert_to_canonical(&c) == c {
				check_eq!(Handles::get_msa_id_for_handle(disp.clone().into_bytes().try_into().map_err(|_| "bound")?), Some(id), "account of {disp:?}");
			}
			let other = format!("{c}.{}", next[1]);
			if other.len() <= 38 {
				check_eq!(Handles::get_msa_id_for_handle(other.clone().into_bytes().try_into().map_err(|_| "bound")?), None, "account of the unclaimed {other:?}");
			}
		}
		Ok(())
	})
}

/// A signature accepted for a claim is accepted again for a change of the same account.
fn probe_replay() -> Option<String> {
	let r = guarded(|| {
		reset_knobs();
		chain(&[(key(0).id, 1_000_000), (key(1).id, 1_000_000)], || {
			let k = key(0);
			let _ = Msa::create_account(k.id.clone(), NONE);
			let payload = ClaimHandlePayload::<u32> { base_handle: b"charlie".to_vec(), expiration: 10 };
			let proof = k.sign(&payload.encode());
			let a = call(&k.id, pallet_handles::Call::<Runtime>::claim_handle { msa_owner_key: k.id.clone(), proof: proof.clone(), payload: payload.clone() });
			let b = call(&key(1).id, pallet_handles::Call::<Runtime>::change_handle { msa_owner_key: k.id.clone(), proof, payload });
			a.is_ok() && b.is_ok()
		})
	});
	(r == Ok(true)).then(|| "the signature of an accepted claim_handle is accepted again by change_handle, from any sender".to_string())
}

/// Histories in which the suffix range (a constant of the runtime) changes: which accounts hold a handle, and that each
/// handle leads back to its only holder. Left out: claims which the recorded finding `suffix-range-change-reissues` covers.
fn n01_range(g: &mut Gen) -> R {
	reset_knobs();
	let (mut min, mut max) = (g.uint(0, 20) as u16, 0u16);
	max += min + g.uint(0, 8) as u16;
	HandleSuffixMin::set(min);
	HandleSuffixMax::set(max);
	let n = g.usize(2, 5);
	let rich: Vec<(AccountId, u128)> = (0..n as u32).map(|i| (key(i).id, 1_000_000u128)).collect();
	chain(&rich, || {
		let mut msas = vec![];
		for i in 0..n as u32 {
			msas.push(Msa::create_account(key(i).id, NONE).map_err(|e| format!("creating account: {e:?}"))?.0);
		}
		// account -> base, canonical form, suffix
		let mut held: BTreeMap<u64, (String, String, u16)> = BTreeMap::new();
		// canonical form -> claims since the least suffix last changed, and that least suffix
		let mut cursor: BTreeMap<String, (u32, u16)> = BTreeMap::new();
		let (mut issued, mut changes) = (0, 0);
		g.steps(if g.thorough() { 50 } else { 24 }, |g, _| {
			match g.weighted(&[8, 3, 3]) {
				0 => {
					let i = g.usize(0, n - 1);
					let base = (*g.pick(&["bob", "Bob", "B0b", "alice"])).to_string();
					let c = converter::convert_to_canonical(&base);
					let at = match cursor.get(&c) {
						Some((k, m)) if *m == min => *k,
						_ => 0,
					};
					let next = sequence(min, max, &c).get(at as usize).copied();
					let taken = next.map_or(false, |s| held.iter().any(|(id, h)| *id != msas[i] && h.1 == c && h.2 == s));
					if taken {
						g.exclude();
						return Ok(());
					}
					let change = held.contains_key(&msas[i]);
					let payload = ClaimHandlePayload::<u32> { base_handle: base.clone().into_bytes(), expiration: block() + 5 };
					let proof = key(i as u32).sign(&payload.encode());
					let msa_owner_key = key(i as u32).id;
					let call_: RuntimeCall = if change { pallet_handles::Call::<Runtime>::change_handle { msa_owner_key, proof, payload }.into() } else { pallet_handles::Call::<Runtime>::claim_handle { msa_owner_key, proof, payload }.into() };
					let r = call(&key(i as u32).id, call_);
					g.note(|| format!("account {} {} {base:?}: {}", msas[i], if change { "changes to" } else { "claims" }, why(&r)));
					if r.is_ok() {
						let h = Handles::get_handle_for_msa(msas[i]).ok_or("no handle after the claim")?;
						check!((min..=max).contains(&h.suffix), "suffix {} outside of {min}..={max}", h.suffix);
						held.insert(msas[i], (base, c.clone(), h.suffix));
						cursor.insert(c, (at + 1, min));
						issued += 1;
					}
				},
				1 => {
					let i = g.usize(0, n - 1);
					let r = call(&key(i as u32).id, pallet_handles::Call::<Runtime>::retire_handle {});
					check_eq!(r.is_ok(), held.remove(&msas[i]).is_some(), "retirement by account {}", msas[i]);
					g.note(|| format!("account {} retires its handle: {}", msas[i], why(&r)));
				},
				_ => {
					changes += 1;
					if g.bool() {
						min = g.uint(0, 20) as u16;
						max = max.max(min);
					} else {
						max = min + g.uint(0, 12) as u16;
					}
					HandleSuffixMin::set(min);
					HandleSuffixMax::set(max);
					g.note(|| format!("the suffix range becomes {min}..={max}"));
				},
			}
			for id in &msas {
				let got = Handles::get_handle_for_msa(*id).map(|r| (String::from_utf8_lossy(&r.base_handle).to_string(), r.suffix));
				check_eq!(got, held.get(id).map(|h| (h.0.clone(), h.2)), "handle of account {id}");
				if let Some((b, s)) = got {
					let back = Handles::get_msa_id_for_handle(format!("{b}.{s}").into_bytes().try_into().map_err(|_| "display handle too long")?);
					check_eq!(back, Some(*id), "account found for the handle {b}.{s} of account {id}");
				}
			}
			check_eq!(pallet_handles::CanonicalBaseHandleAndSuffixToMSAId::<Runtime>::iter().count(), held.len(), "number of handles that resolve to an account");
			Ok(())
		})?;
		if issued >= 3 && changes > 0 {
			g.nontrivial();
		}
		Ok(())
	})
}
/// After the suffix range has changed, a handle in use is issued to a second account.
fn probe_range() -> Option<String> {
	let r = guarded(|| {
		reset_knobs();
		HandleSuffixMin::set(10);
		HandleSuffixMax::set(10);
		chain(&[(key(0).id, 1_000_000), (key(1).id, 1_000_000)], || {
			let mut out = vec![];
			for i in 0..2u32 {
				let k = key(i);
				let Ok((id, _)) = Msa::create_account(k.id.clone(), NONE) else { return false };
				let payload = ClaimHandlePayload::<u32> { base_handle: b"charlie".to_vec(), expiration: 10 };
				let proof = k.sign(&payload.encode());
				if i == 1 {
					// a runtime whose range begins lower, and whose sequence for this name begins with the suffix in use
					let c = converter::convert_to_canonical("charlie");
					let (a, b) = (0..10u16).flat_map(|a| (10..40u16).map(move |b| (a, b))).find(|(a, b)| sequence(*a, *b, &c)[0] == 10).unwrap_or((9, 10));
					HandleSuffixMin::set(a);
					HandleSuffixMax::set(b);
				}
				if call(&k.id, pallet_handles::Call::<Runtime>::claim_handle { msa_owner_key: k.id.clone(), proof, payload }).is_err() {
					return false;
				}
				out.push(Handles::get_handle_for_msa(id).map(|h| h.suffix));
			}
			out[0] == out[1]
		})
	});
	(r == Ok(true)).then(|| "after the runtime's suffix range changed, charlie.10, still held by one account, is issued to another".to_string())
}

fn main() {
	engine::dict::load(&engine::root(), &["pallet-handles"]);
	let rule = "histories of claims, changes, retirements and block steps over 2-6 accounts; non-trivial: at least three handles were issued (in the second aspect: and the suffix range changed)";
	engine::main(vec![
		Property { id: "N01", rule, aspects: vec![aspect("history", 30_000, 400_000, n01), aspect("range-changes", 20_000, 200_000, n01_range)], known: vec![Known { signature: "suffix-range-change-reissues", probe: probe_range }] },
		Property { id: "N02", rule, aspects: vec![aspect("forged-and-replayed", 60_000, 400_000, n02)], known: vec![Known { signature: "claim-signature-reused-by-change", probe: probe_replay }] },
		Property {
			id: "N03",
			rule: "histories with suffix queries, and single base handles on a fresh chain; non-trivial: at least three handles issued, or a non-empty base handle",
			aspects: vec![aspect("history", 40_000, 300_000, n03), aspect("one-handle", 120_000, 600_000, n03_each)],
			known: vec![],
		},
	]);
}
