//! M01-M06: histories of account, delegation and signature operations against a reference model.
use engine::{aspect, check, check_eq, Gen, Known, Property, R};
use std::collections::{BTreeMap, BTreeSet};
use world::common_primitives::handles::ClaimHandlePayload;
use world::common_primitives::msa::{DelegationValidator, DelegatorId, ProviderId, SchemaGrantValidator};
use world::common_primitives::node::AccountId;
use world::parity_scale_codec::Encode;
use world::sp_runtime::MultiSignature;
use world::*;
use pallet_msa::types::{AddKeyData, AddProvider};

mod offchain;

const NKEYS: usize = 10;
/// The schemas in use, of so many.
const SCHEMAS: [u16; 7] = [1, 2, 3, 257, 258, 513, 33_025];
const LAST_SCHEMA: u16 = 40_000;
type MsaCall = pallet_msa::Call<Runtime>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
	Keys,
	Delegations,
	Proofs,
	FreeCalls,
	Registry,
}

/// What became of the permissions one account gave one provider.
#[derive(Clone, Debug, Default)]
struct Grant {
	/// schema -> block its latest grant ended at
	schemas: BTreeMap<u16, Option<u32>>,
	/// block the delegation as a whole was revoked at
	revoked: Option<u32>,
}
#[derive(Clone)]
enum Terms {
	Provider(AddProvider),
	Key(AddKeyData<Runtime>),
}
impl Terms {
	fn bytes(&self) -> Vec<u8> {
		match self {
			Terms::Provider(p) => p.encode(),
			Terms::Key(p) => p.encode(),
		}
	}
	fn expiration(&self) -> u32 {
		match self {
			Terms::Provider(p) => p.expiration,
			Terms::Key(p) => p.expiration,
		}
	}
}
/// A signed payload and the call it went into.
#[derive(Clone)]
struct Proof {
	sponsored: bool,
	terms: Terms,
	sender: usize,
	owner: usize,
	sigs: Vec<MultiSignature>,
}
#[derive(Clone, Default)]
struct Model {
	msa_of: BTreeMap<usize, u64>,
	/// The last number given to an account, and all of them.
	created: u64,
	ids: Vec<u64>,
	providers: BTreeSet<u64>,
	/// (delegator, provider)
	grants: BTreeMap<(u64, u64), Grant>,
	/// accepted signatures still recorded, oldest first
	stored: Vec<(MultiSignature, u32)>,
	/// every accepted signature with its expiry
	accepted: Vec<(MultiSignature, u32)>,
	handles: BTreeSet<u64>,
}
#[derive(Clone, Copy)]
struct Limits {
	keys: u32,
	grants: usize,
	window: u32,
	registry: usize,
}
impl Model {
	fn issue(&mut self) {
		self.created += 1;
		self.ids.push(self.created);
	}
	fn any_id(&self, g: &mut Gen) -> u64 {
		match g.weighted(&[1, 1, 1, 8]) {
			_ if self.ids.is_empty() => 1,
			0 => 0,
			1 => self.created + 1,
			2 => self.created + (1 << *g.pick(&[8u32, 16, 32])),
			_ => *g.pick(&self.ids),
		}
	}
	fn count(&self, msa: u64) -> u32 {
		self.msa_of.values().filter(|x| **x == msa).count() as u32
	}
	/// Would these signatures be recorded, one after the other?
	fn would_record(&self, sigs: &[MultiSignature], exp: u32, l: &Limits) -> bool {
		let now = block();
		if !(exp > now && exp < now + l.window) {
			return false;
		}
		let mut m = self.stored.clone();
		for s in sigs {
			if m.iter().any(|(x, _)| x == s) {
				return false;
			}
			if m.len() == l.registry {
				if m[0].1 >= now {
					return false;
				}
				m.remove(0);
			}
			m.push((s.clone(), exp));
		}
		true
	}
	fn record(&mut self, sigs: &[MultiSignature], exp: u32, l: &Limits) {
		for s in sigs {
			if self.stored.len() == l.registry {
				self.stored.remove(0);
			}
			self.stored.push((s.clone(), exp));
			self.accepted.push((s.clone(), exp));
		}
	}
	/// The terms of a delegation are acceptable.
	fn schemas_ok(&self, d: Option<u64>, p: u64, ids: &[u16], l: &Limits) -> bool {
		if ids.len() > l.grants || ids.iter().any(|x| *x == 0 || *x > LAST_SCHEMA) {
			return false;
		}
		let mut all: BTreeSet<u16> = ids.iter().cloned().collect();
		if let Some(g) = d.and_then(|d| self.grants.get(&(d, p))) {
			all.extend(g.schemas.keys());
		}
		all.len() <= l.grants
	}
	/// Grants replace the earlier list: schemas left out end now.
	fn grant(&mut self, d: u64, p: u64, ids: &[u16]) {
		let now = block();
		let g = self.grants.entry((d, p)).or_default();
		g.revoked = None;
		for (id, end) in g.schemas.iter_mut() {
			if !ids.contains(id) && end.is_none() {
				*end = Some(now);
			}
		}
		for id in ids {
			g.schemas.insert(*id, None);
		}
	}
	fn revoke(&mut self, d: u64, p: u64) {
		let now = block();
		if let Some(g) = self.grants.get_mut(&(d, p)) {
			if g.revoked.is_none() {
				g.revoked = Some(now);
				for end in g.schemas.values_mut() {
					end.get_or_insert(now);
				}
			}
		}
	}
	fn delegated(&self, d: u64, p: u64, at: u32) -> bool {
		at <= block() && self.grants.get(&(d, p)).map_or(false, |g| g.revoked.map_or(true, |r| at <= r))
	}
	fn permitted(&self, d: u64, p: u64, s: u16, at: u32) -> bool {
		self.delegated(d, p, at) && self.grants[&(d, p)].schemas.get(&s).map_or(false, |end| end.map_or(true, |e| at <= e))
	}
	/// Why an account may not be retired by this key.
	fn retirable(&self, k: usize) -> bool {
		match self.msa_of.get(&k) {
			None => false,
			Some(m) =>
				self.count(*m) == 1 &&
					!self.providers.contains(m) &&
					!self.handles.contains(m) &&
					!self.grants.iter().any(|((d, p), _)| d == m && self.delegated(*d, *p, block())),
		}
	}
}

struct W {
	k: Vec<Key>,
	m: Model,
	l: Limits,
	proofs: Vec<Proof>,
	focus: Focus,
	/// Marks of transactions in the pool, and whose they are (key, kind of call).
	tags: BTreeMap<Vec<u8>, (usize, u32)>,
}

fn gen_ids(g: &mut Gen) -> Vec<u16> {
	match g.weighted(&[8, 1, 1]) {
		0 => g.list(5, 2, |g| *g.pick(&SCHEMAS)),
		1 => g.list(3, 1, |g| if g.chance(1, 4) { *g.pick(&[LAST_SCHEMA, LAST_SCHEMA + 1, LAST_SCHEMA + 2, 0]) } else { *g.pick(&SCHEMAS) }),
		_ => g.list(12, 6, |g| *g.pick(&SCHEMAS)),
	}
}

impl W {
	fn who(&self, g: &mut Gen) -> usize {
		g.usize(0, NKEYS - 1)
	}
	/// A key of some account that satisfies the condition, mostly.
	fn member(&self, g: &mut Gen, ok: impl Fn(u64) -> bool) -> usize {
		let xs: Vec<usize> = self.m.msa_of.iter().filter(|(_, m)| ok(**m)).map(|(k, _)| *k).collect();
		if xs.is_empty() || g.chance(1, 10) {
			self.who(g)
		} else {
			*g.pick(&xs)
		}
	}
	fn stranger(&self, g: &mut Gen) -> usize {
		let xs: Vec<usize> = (0..NKEYS).filter(|k| !self.m.msa_of.contains_key(k)).collect();
		if xs.is_empty() || g.chance(1, 10) {
			self.who(g)
		} else {
			*g.pick(&xs)
		}
	}
	fn expiry(&self, g: &mut Gen) -> u32 {
		let (now, w) = (block() as i64, self.l.window as i64);
		let off = match g.weighted(&[10, 1, 1, 1]) {
			0 => g.uint(1, (w - 1).max(1) as u64) as i64,
			1 => g.uint(0, 1) as i64,
			2 => w - g.uint(0, 1) as i64,
			_ => g.uint(0, 3 * w as u64) as i64 - w,
		};
		(now + off).max(0) as u32
	}
	/// Signs the terms: owner first, then the new key when there is one.
	fn signed(&self, g: &mut Gen, terms: &Terms, owner: usize) -> Vec<MultiSignature> {
		let b = terms.bytes();
		let mut v = vec![self.k[owner].sign(&b)];
		if let Terms::Key(p) = terms {
			match self.k.iter().find(|k| k.id == p.new_public_key) {
				Some(k) => v.push(k.sign(&b)),
				None => v.push(self.k[g.usize(0, NKEYS - 1)].sign(&b)),
			}
		}
		v
	}
	fn fresh(&mut self, g: &mut Gen) -> Proof {
		let kind = g.weighted(&match self.focus {
			Focus::Keys => [2, 1, 6],
			Focus::Delegations => [2, 8, 1],
			_ => [2, 4, 3],
		});
		let m = &self.m;
		let (owner, sender, terms) = match kind {
			2 => {
				let owner = self.member(g, |_| true);
				let new = self.stranger(g);
				let msa_id = if g.chance(1, 12) { m.any_id(g) } else { m.msa_of.get(&owner).cloned().unwrap_or(1) };
				(owner, self.who(g), Terms::Key(AddKeyData { msa_id, expiration: self.expiry(g), new_public_key: self.k[new].id.clone() }))
			},
			kind => {
				let sender = self.member(g, |x| m.providers.contains(&x));
				let owner = if kind == 0 { self.stranger(g) } else { self.member(g, |_| true) };
				let id = if g.chance(1, 12) { m.any_id(g) } else { m.msa_of.get(&sender).cloned().unwrap_or(1) };
				(owner, sender, Terms::Provider(AddProvider { authorized_msa_id: id, schema_ids: gen_ids(g), expiration: self.expiry(g) }))
			},
		};
		let sigs = self.signed(g, &terms, owner);
		Proof { sponsored: kind == 0, terms, sender, owner, sigs }
	}
	/// Changes one thing about it after it was signed.
	fn spoil(&self, g: &mut Gen, p: &mut Proof) {
		let bytes = p.terms.bytes();
		let i = g.usize(0, p.sigs.len() - 1);
		match g.below(10) {
			0 => p.sigs[i] = self.k[self.who(g)].sign(&bytes),
			1 => p.sigs[i] = self.k[p.owner].sign_raw(&bytes),
			2 => p.sender = self.who(g),
			3 => p.owner = self.who(g),
			4 => p.sigs.reverse(),
			5 => p.sigs[i] = p.sigs[0].clone(),
			6 => p.sponsored = !p.sponsored,
			7 => {
				// the payload without its last byte was signed
				p.sigs[i] = self.k[p.owner].sign(&bytes[..bytes.len() - 1]);
			},
			_ => match &mut p.terms {
				Terms::Provider(x) => match g.below(3) {
					0 => x.expiration = self.expiry(g),
					1 => x.schema_ids = gen_ids(g),
					_ => x.authorized_msa_id = self.m.any_id(g),
				},
				Terms::Key(x) => match g.below(3) {
					0 => x.expiration = self.expiry(g),
					1 => x.new_public_key = self.k[self.who(g)].id.clone(),
					_ => x.msa_id = self.m.any_id(g),
				},
			},
		}
	}
	/// The signatures are exactly those of the affected owners over these terms.
	fn genuine(&self, p: &Proof) -> bool {
		let b = p.terms.bytes();
		p.sigs[0] == self.k[p.owner].sign(&b) &&
			match &p.terms {
				Terms::Key(x) => self.k.iter().any(|k| k.id == x.new_public_key && p.sigs[1] == k.sign(&b)),
				_ => true,
			}
	}
	fn expected(&self, p: &Proof) -> bool {
		let m = &self.m;
		if !self.genuine(p) || !m.would_record(&p.sigs, p.terms.expiration(), &self.l) {
			return false;
		}
		let owner = m.msa_of.get(&p.owner).cloned();
		match &p.terms {
			Terms::Key(x) => {
				let taken = self.k.iter().enumerate().any(|(i, k)| k.id == x.new_public_key && m.msa_of.contains_key(&i));
				owner == Some(x.msa_id) && !taken && m.count(x.msa_id) < self.l.keys
			},
			Terms::Provider(x) => {
				let prov = match m.msa_of.get(&p.sender) {
					Some(p) if m.providers.contains(p) && *p == x.authorized_msa_id => *p,
					_ => return false,
				};
				if p.sponsored {
					owner.is_none() && self.l.keys >= 1 && m.schemas_ok(None, prov, &x.schema_ids, &self.l)
				} else {
					owner.is_some() && owner != Some(prov) && m.schemas_ok(owner, prov, &x.schema_ids, &self.l)
				}
			},
		}
	}
	fn submit(&mut self, g: &mut Gen, p: &Proof) -> R {
		let sender = self.k[p.sender].id.clone();
		let owner = self.k[p.owner].id.clone();
		let want = self.expected(p);
		let had = state();
		let c: RuntimeCall = match &p.terms {
			Terms::Key(x) => MsaCall::add_public_key_to_msa { msa_owner_public_key: owner, msa_owner_proof: p.sigs[0].clone(), new_key_owner_proof: p.sigs[1].clone(), add_key_payload: x.clone() }.into(),
			Terms::Provider(x) if p.sponsored =>
				MsaCall::create_sponsored_account_with_delegation { delegator_key: owner, proof: p.sigs[0].clone(), add_provider_payload: x.clone() }.into(),
			Terms::Provider(x) => MsaCall::grant_delegation { delegator_key: owner, proof: p.sigs[0].clone(), add_provider_payload: x.clone() }.into(),
		};
		let r = call(&sender, c);
		g.note(|| {
			let t = match &p.terms {
				Terms::Key(x) => format!("add key {} to account {}", self.name(&x.new_public_key), x.msa_id),
				Terms::Provider(x) => format!("{} with provider {} schemas {:?}", if p.sponsored { "sponsor" } else { "grant" }, x.authorized_msa_id, x.schema_ids),
			};
			format!("@{} key {} sends: {t}, until {}, owner key {}, signatures {}: {}", block(), p.sender, p.terms.expiration(), p.owner, if self.genuine(p) { "genuine" } else { "not genuine" }, why(&r))
		});
		if self.focus == Focus::Proofs {
			check_eq!(r.is_ok(), want, "the call was {}", why(&r));
			for s in &p.sigs {
				if r.is_ok() {
					check!(!self.m.accepted.iter().any(|(x, e)| x == s && *e >= block()), "a signature was accepted twice while unexpired");
				}
			}
		}
		if self.focus == Focus::Registry {
			check!(!want || r.is_ok(), "a signature was refused although the record has room for it: {}", why(&r));
			check!(r.is_err() || self.m.would_record(&p.sigs, p.terms.expiration(), &self.l), "a signature was recorded although the record holds {} of {} entries, the oldest expiring at {:?}", self.m.stored.len(), self.l.registry, self.m.stored.first().map(|x| x.1));
		}
		if let (true, true, Terms::Provider(x)) = (self.focus == Focus::Delegations, r.is_ok(), &p.terms) {
			check!(x.schema_ids.iter().all(|s| (1..=LAST_SCHEMA).contains(s)), "permissions for {:?} were granted; the last schema is {LAST_SCHEMA}", x.schema_ids);
			check!(x.schema_ids.len() <= self.l.grants, "{} permissions were granted, limit {}", x.schema_ids.len(), self.l.grants);
		}
		if r.is_err() {
			check_eq!(state(), had, "a refused call changed the state");
			g.label(if self.genuine(p) { "refused-genuine" } else { "refused-forged" });
			return Ok(());
		}
		g.label("accepted");
		self.m.record(&p.sigs, p.terms.expiration(), &self.l);
		match &p.terms {
			Terms::Key(x) => {
				let i = self.k.iter().position(|k| k.id == x.new_public_key).ok_or("unknown key")?;
				self.m.msa_of.insert(i, x.msa_id);
			},
			Terms::Provider(x) => {
				if p.sponsored {
					self.m.issue();
					self.m.msa_of.insert(p.owner, self.m.created);
				}
				match self.m.msa_of.get(&p.owner) {
					Some(d) => {
						let d = *d;
						self.m.grant(d, x.authorized_msa_id, &x.schema_ids)
					},
					None => return Err("a delegation of a key without account was accepted".into()),
				}
			},
		}
		Ok(())
	}
	fn name(&self, id: &AccountId) -> usize {
		self.k.iter().position(|k| k.id == *id).unwrap_or(99)
	}
	fn free_call(&self, g: &mut Gen) -> (usize, RuntimeCall, u32) {
		let m = &self.m;
		match g.weighted(&match self.focus {
			Focus::Keys => [3, 6, 1, 1],
			Focus::Delegations => [1, 1, 4, 4],
			_ => [4, 4, 4, 4],
		}) {
			0 => {
				let k = self.member(g, |x| m.count(x) == 1);
				(k, MsaCall::retire_msa {}.into(), 0)
			},
			1 => {
				let k = self.member(g, |x| m.count(x) > 1);
				let mine = m.msa_of.get(&k).cloned();
				let other = self.member(g, |x| Some(x) == mine);
				let other = if g.chance(1, 5) { self.who(g) } else { other };
				(k, MsaCall::delete_msa_public_key { public_key_to_delete: self.k[other].id.clone() }.into(), 1)
			},
			w => {
				let pairs: Vec<(u64, u64)> = m.grants.keys().cloned().collect();
				let (d, p) = if pairs.is_empty() || g.chance(1, 8) { (m.any_id(g), m.any_id(g)) } else { *g.pick(&pairs) };
				if w == 2 {
					(self.member(g, |x| x == d), MsaCall::revoke_delegation_by_delegator { provider_msa_id: p }.into(), 2)
				} else {
					(self.member(g, |x| x == p), MsaCall::revoke_delegation_by_provider { delegator: d }.into(), 3)
				}
			},
		}
	}
	/// What the documentation promises about a free call: Some(model afterwards) when it may succeed.
	fn free_effect(&self, k: usize, c: &RuntimeCall) -> Option<Model> {
		let mut m = self.m.clone();
		let mine = *m.msa_of.get(&k)?;
		match c {
			RuntimeCall::Msa(MsaCall::retire_msa {}) => {
				if !m.retirable(k) {
					return None;
				}
				m.msa_of.remove(&k);
			},
			RuntimeCall::Msa(MsaCall::delete_msa_public_key { public_key_to_delete: x }) => {
				let other = self.name(x);
				if other == k || m.msa_of.get(&other) != Some(&mine) {
					return None;
				}
				m.msa_of.remove(&other);
			},
			RuntimeCall::Msa(MsaCall::revoke_delegation_by_delegator { provider_msa_id: p }) => {
				if m.grants.get(&(mine, *p))?.revoked.is_some() {
					return None;
				}
				m.revoke(mine, *p);
			},
			RuntimeCall::Msa(MsaCall::revoke_delegation_by_provider { delegator: d }) => {
				if m.grants.get(&(*d, mine))?.revoked.is_some() {
					return None;
				}
				m.revoke(*d, mine);
			},
			_ => return None,
		}
		Some(m)
	}
	fn free(&mut self, g: &mut Gen) -> R {
		let (k, c, kind) = self.free_call(g);
		let who = self.k[k].id.clone();
		let nonce = System::account_nonce(&who);
		let after = self.free_effect(k, &c);
		let had = state();
		let unchecked = matches!(c, RuntimeCall::Msa(MsaCall::retire_msa {})) && after.is_none() && self.m.msa_of.contains_key(&k);
		let direct = self.focus == Focus::FreeCalls && g.chance(1, 5);
		if direct && unchecked {
			// the recorded finding
			g.exclude();
		} else if direct {
			// the way a proxy or a multisig account calls: the conditions are the same
			let r = call(&who, c.clone());
			g.label("direct");
			g.note(|| format!("@{} key {k} (account {:?}) calls directly {c:?}: {}", block(), self.m.msa_of.get(&k), why(&r)));
			if self.m.msa_of.contains_key(&k) {
				check_eq!(r.is_ok(), after.is_some(), "{c:?} of account {:?}, not as a transaction of its own: {}", self.m.msa_of.get(&k), why(&r));
			}
			check!(after.is_some() || state() == had, "{c:?} that may not succeed changed the state");
			self.follow(k, &c, r.is_ok());
			return Ok(());
		}
		if self.focus == Focus::Keys && g.chance(1, 3) {
			// the way a proxy or a multisig account calls: without the checks on transactions
			let r = call(&who, c.clone());
			g.note(|| format!("@{} key {k} (account {:?}) calls directly {c:?}: {}", block(), self.m.msa_of.get(&k), why(&r)));
			if let RuntimeCall::Msa(MsaCall::delete_msa_public_key { public_key_to_delete: x }) = &c {
				let mine = self.m.msa_of.get(&k);
				if r.is_ok() && mine.is_some() {
					check_eq!(self.m.msa_of.get(&self.name(x)), mine, "account of the key deleted by account {mine:?}");
				}
			}
			self.follow(k, &c, r.is_ok());
			return Ok(());
		}
		let verdict = pool(&who, nonce, &c);
		check_eq!(state(), had, "validation changed the state");
		// funds decide nothing: the calls are free
		let money = Balances::free_balance(&who);
		let a = apply(&who, nonce, &c);
		g.note(|| format!("@{} key {k} (account {:?}) free call {kind} {:?}: pool {:?}, {a:?}", block(), self.m.msa_of.get(&k), c, verdict.as_ref().map(|_| "valid")));
		if let (Focus::FreeCalls, Ok(v)) = (self.focus, &verdict) {
			// the marks under which it waits in the pool are shared by nothing that could be done beside it
			for t in &v.provides {
				let owner = self.tags.entry(t.clone()).or_insert((k, kind));
				check!(*owner == (k, kind) || (owner.0 == k && *t == (&who, nonce).encode()), "free call {kind} of key {k} excludes free call {} of key {} from the pool", owner.1, owner.0);
			}
			if let Ok(w) = pool(&who, nonce + 1, &c) {
				check!(v.provides.iter().any(|t| w.provides.contains(t)), "free call {kind} of key {k} can wait in the pool twice, although the second will fail");
			}
		}
		if self.focus == Focus::FreeCalls {
			check_eq!(verdict.is_ok(), a.included(), "pool verdict {verdict:?} against inclusion in a block {a:?}");
			if verdict.is_ok() {
				check!(a.succeeded(), "admitted for free, but its execution failed: {a:?}");
			}
			check_eq!(a.succeeded(), after.is_some(), "free call {c:?} of account {:?}: {verdict:?}", self.m.msa_of.get(&k));
			check_eq!(Balances::free_balance(&who), money, "balance after a free call");
		}
		if !a.included() {
			check_eq!(state(), had, "a refused transaction changed the state");
			g.label("free-refused");
			return Ok(());
		}
		g.label(match kind {
			0 => "retired",
			1 => "key-deleted",
			2 => "revoked-by-delegator",
			_ => "revoked-by-provider",
		});
		// follow what really happened, so that each property judges only itself
		self.follow(k, &c, a.succeeded());
		Ok(())
	}
	fn follow(&mut self, k: usize, c: &RuntimeCall, done: bool) {
		if !done {
			return;
		}
		let mine = match self.m.msa_of.get(&k) {
			Some(m) => *m,
			None => return,
		};
		match c {
			RuntimeCall::Msa(MsaCall::retire_msa {}) => {
				self.m.msa_of.remove(&k);
			},
			RuntimeCall::Msa(MsaCall::delete_msa_public_key { public_key_to_delete: x }) => {
				let o = self.name(x);
				self.m.msa_of.remove(&o);
			},
			RuntimeCall::Msa(MsaCall::revoke_delegation_by_delegator { provider_msa_id: p }) => self.m.revoke(mine, *p),
			RuntimeCall::Msa(MsaCall::revoke_delegation_by_provider { delegator: d }) => self.m.revoke(*d, mine),
			_ => {},
		}
	}
	/// Every key lookup and count.
	fn check_keys(&self) -> R {
		let m = &self.m;
		for (i, k) in self.k.iter().enumerate() {
			check_eq!(Msa::get_owner_of(&k.id), m.msa_of.get(&i).cloned(), "account of key {i}");
		}
		let rows = pallet_msa::PublicKeyToMsaId::<Runtime>::iter().collect::<Vec<_>>();
		check_eq!(rows.len(), m.msa_of.len(), "number of keys that resolve to an account");
		for id in m.ids.iter().flat_map(|i| [*i, *i + 1]).chain([0, 1]).collect::<BTreeSet<_>>() {
			let n = rows.iter().filter(|(_, x)| *x == id).count() as u32;
			check_eq!(Msa::get_public_key_count_by_msa_id(id) as u32, n, "recorded number of keys of account {id}");
			check!(n <= self.l.keys, "account {id} has {n} keys, at most {} are allowed", self.l.keys);
		}
		check_eq!(Msa::get_current_msa_identifier_maximum(), m.created, "last issued account number");
		Ok(())
	}
	/// All permissions as seen now, and one in the past or future.
	fn check_delegations(&self, g: &mut Gen) -> R {
		let m = &self.m;
		let now = block();
		for _ in 0..3 {
			let pairs: Vec<(u64, u64)> = m.grants.keys().cloned().collect();
			let (d, p) = if pairs.is_empty() || g.chance(1, 6) { (m.any_id(g), m.any_id(g)) } else { *g.pick(&pairs) };
			let mut marks = vec![now];
			if let Some(x) = m.grants.get(&(d, p)) {
				marks.extend(x.revoked);
				marks.extend(x.schemas.values().flatten());
			}
			let at = match g.weighted(&[4, 1]) {
				0 => (*g.pick(&marks) as i64 + g.uint(0, 2) as i64 - 1).max(0) as u32,
				_ => g.uint(0, now as u64 + 3) as u32,
			};
			let got = <Msa as DelegationValidator>::ensure_valid_delegation(ProviderId(p), DelegatorId(d), Some(at)).is_ok();
			check_eq!(got, m.delegated(d, p, at), "delegation of {d} to {p} at block {at} asked at {now}");
			let got = <Msa as DelegationValidator>::ensure_valid_delegation(ProviderId(p), DelegatorId(d), None).is_ok();
			check_eq!(got, m.delegated(d, p, now), "delegation of {d} to {p} now ({now})");
			for s in SCHEMAS.into_iter().chain([4, LAST_SCHEMA, LAST_SCHEMA + 1]) {
				let got = <Msa as SchemaGrantValidator<u32>>::ensure_valid_schema_grant(ProviderId(p), DelegatorId(d), s, at).is_ok();
				check_eq!(got, m.permitted(d, p, s, at), "permission of provider {p} for schema {s} of account {d} at block {at} asked at {now}; history {:?}", m.grants.get(&(d, p)));
			}
		}
		// the list of permissions of one account
		let d = if m.ids.is_empty() { 1 } else { *g.pick(&m.ids) };
		let all = Msa::get_granted_schemas_by_msa_id(DelegatorId(d), None).map_err(|e| format!("{e:?}"))?;
		let mine: Vec<(u64, &Grant)> = m.grants.iter().filter(|((x, _), _)| *x == d).map(|((_, p), x)| (*p, x)).collect();
		check_eq!(all.len(), mine.len(), "number of providers listed for account {d}");
		for (p, x) in mine {
			let want: Vec<(u16, u32)> = x.schemas.iter().map(|(s, e)| (*s, e.unwrap_or(0))).collect();
			let row = all.iter().find(|r| r.provider_id == ProviderId(p)).ok_or_else(|| format!("provider {p} is not listed for account {d}"))?;
			let mut got: Vec<(u16, u32)> = row.permissions.iter().map(|q| (q.schema_id, q.revoked_at)).collect();
			got.sort();
			check_eq!(got, want, "permissions listed for account {d} and provider {p}");
			let one = Msa::get_granted_schemas_by_msa_id(DelegatorId(d), Some(ProviderId(p)));
			check_eq!(one.is_ok(), !want.is_empty(), "listing for one provider");
			if let Ok(v) = one {
				let mut got: Vec<(u16, u32)> = v.iter().flat_map(|r| r.permissions.iter().map(|q| (q.schema_id, q.revoked_at))).collect();
				got.sort();
				check_eq!(got, want, "permissions listed for account {d} and provider {p} alone");
			}
		}
		Ok(())
	}
	/// The record of accepted signatures as an intact chain from the oldest to the newest.
	fn check_registry(&self, g: &mut Gen) -> R {
		let m = &self.m;
		match Msa::get_payload_signature_pointer() {
			None => check!(m.stored.is_empty(), "the record has no pointer although {} signatures are in it", m.stored.len()),
			Some(p) => {
				g.label_if(p.count as usize == self.l.registry, "record-full");
				check!(p.count as usize <= self.l.registry, "{} signatures recorded, at most {} are allowed", p.count, self.l.registry);
				let mut chain = vec![];
				let mut at = p.oldest.clone();
				while at != p.newest {
					let (exp, next) = Msa::get_payload_signature_registry(at.clone()).ok_or_else(|| format!("the chain breaks after {} of {} entries", chain.len(), p.count))?;
					chain.push((at, exp));
					check!(chain.len() <= p.count as usize, "the chain is longer than its count {}", p.count);
					at = next;
				}
				chain.push((p.newest.clone(), p.newest_expires_at));
				check_eq!(chain.len(), p.count as usize, "entries in the chain against the recorded count");
				check_eq!(chain.len(), m.stored.len(), "entries in the record");
				for (i, (a, b)) in chain.iter().zip(&m.stored).enumerate() {
					check!(a.0 == b.0, "entry {i} of the record is another signature than the {i}th accepted one still recorded");
					check_eq!(a.1, b.1, "expiry of entry {i}");
				}
				// nothing else is left behind
				for (s, e) in &m.accepted {
					let kept = m.stored[..m.stored.len() - 1].iter().any(|(x, _)| x == s);
					check_eq!(Msa::get_payload_signature_registry(s.clone()).is_some(), kept, "a signature with expiry {e} is present in the record");
					if *e >= block() {
						check!(m.stored.iter().any(|(x, _)| x == s), "an unexpired signature (expires {e}, now {}) was dropped", block());
					}
				}
			},
		}
		Ok(())
	}
	fn handle_op(&mut self, g: &mut Gen) -> R {
		let k = self.member(g, |_| true);
		let who = self.k[k].id.clone();
		let mine = self.m.msa_of.get(&k).cloned();
		if mine.map_or(false, |m| self.m.handles.contains(&m)) {
			let a = apply(&who, System::account_nonce(&who), &pallet_handles::Call::<Runtime>::retire_handle {}.into());
			if a.succeeded() {
				mine.map(|m| self.m.handles.remove(&m));
			}
		} else {
			let payload = ClaimHandlePayload::<u32> { base_handle: b"charlie".to_vec(), expiration: block() + 1 };
			let proof = self.k[k].sign(&payload.encode());
			let r = call(&who, pallet_handles::Call::<Runtime>::claim_handle { msa_owner_key: who.clone(), proof, payload });
			if r.is_ok() {
				mine.map(|m| self.m.handles.insert(m));
			}
		}
		Ok(())
	}
	fn governance_op(&mut self, g: &mut Gen) -> R {
		let k = self.member(g, |x| !self.m.providers.contains(&x));
		let who = self.k[k].id.clone();
		let name = g.bytes(0, 8);
		let r = if g.bool() { call(&who, MsaCall::create_provider { provider_name: name }) } else { call_root(MsaCall::create_provider_via_governance { provider_key: who, provider_name: name }) };
		if r.is_ok() {
			match self.m.msa_of.get(&k) {
				Some(m) => {
					let m = *m;
					check!(self.m.providers.insert(m), "account {m} was registered as a provider twice");
				},
				None => return Err("a key without account was registered as a provider".into()),
			}
			g.note(|| format!("@{} account {:?} is a provider", block(), self.m.msa_of.get(&k)));
		}
		Ok(())
	}
	fn revoke_schemas(&mut self, g: &mut Gen) -> R {
		let pairs: Vec<(u64, u64)> = self.m.grants.keys().cloned().collect();
		if pairs.is_empty() {
			return Ok(());
		}
		let (d, p) = *g.pick(&pairs);
		let k = self.member(g, |x| x == d);
		let who = self.k[k].id.clone();
		let ids = gen_ids(g);
		let had = state();
		#[allow(deprecated)]
		let r = call(&who, MsaCall::revoke_schema_permissions { provider_msa_id: p, schema_ids: ids.clone() });
		g.note(|| format!("@{} key {k} revokes schemas {ids:?} of provider {p}: {}", block(), why(&r)));
		if r.is_err() {
			check_eq!(state(), had, "a refused call changed the state");
		}
		let mine = self.m.msa_of.get(&k).cloned();
		let known = mine.and_then(|m| self.m.grants.get(&(m, p))).map(|x| ids.iter().all(|i| x.schemas.contains_key(i)));
		if self.focus == Focus::Delegations {
			check_eq!(r.is_ok(), known == Some(true) && ids.len() <= self.l.grants, "revoking schemas {ids:?} of provider {p}: {}", why(&r));
		}
		if r.is_ok() {
			let now = block();
			if let Some(x) = mine.and_then(|m| self.m.grants.get_mut(&(m, p))) {
				for i in ids {
					x.schemas.entry(i).or_insert(Some(now)).get_or_insert(now);
				}
			}
		}
		Ok(())
	}
}

fn history(g: &mut Gen, focus: Focus) -> R {
	reset_knobs();
	let l = Limits {
		keys: if focus == Focus::Keys { g.uint(1, 4) as u32 } else { g.uint(2, 25) as u32 },
		grants: g.uint(1, 8) as usize,
		window: g.uint(2, 20) as u32,
		registry: if focus == Focus::Registry || g.chance(1, 4) { g.uint(2, 6) as usize } else { 50_000 },
	};
	MaxPublicKeysPerMsa::set(l.keys as u8);
	MaxSchemaGrants::set(l.grants as u32);
	MortalityWindow::set(l.window);
	MaxSignaturesStored::set(l.registry as u32);
	let rich: Vec<(AccountId, u128)> = (0..NKEYS as u32).map(|i| (key(i).id, 1_000_000u128)).collect();
	chain(&rich, || {
		let mut w = W { k: (0..NKEYS as u32).map(key).collect(), m: Model::default(), l, proofs: vec![], focus, tags: BTreeMap::new() };
		Schemas::set_schema_count(LAST_SCHEMA);
		if g.chance(1, 2) {
			set_block(g.uint(1, 200) as u32);
		}
		// two accounts, the first of which is a provider
		for i in 0..2 {
			w.m.created = scatter_accounts(g);
			call(&w.k[i].id, MsaCall::create {}).map_err(|e| format!("creating an account: {:?}", e.error))?;
			w.m.issue();
			w.m.msa_of.insert(i, w.m.created);
		}
		call(&w.k[0].id, MsaCall::create_provider { provider_name: vec![] }).map_err(|e| format!("{:?}", e.error))?;
		let first = w.m.ids[0];
		w.m.providers.insert(first);
		let ops: [u64; 8] = match focus {
			//              proofs free create block handle provider schemas replay
			Focus::Keys => [10, 6, 4, 2, 0, 1, 0, 2],
			Focus::Delegations => [8, 5, 1, 5, 0, 1, 5, 1],
			Focus::Proofs => [10, 1, 1, 2, 0, 1, 0, 8],
			Focus::FreeCalls => [6, 10, 2, 3, 2, 1, 1, 0],
			Focus::Registry => [14, 1, 1, 4, 0, 1, 0, 5],
		};
		let spoil = match focus {
			Focus::Proofs => 3,
			_ => 10,
		};
		let (mut changes, mut accepted, mut refused) = (0, 0, 0);
		let len = if g.thorough() { 60 } else { 28 };
		let r = g.steps(len, |g, _| {
			let n = w.m.accepted.len();
			let had = state();
			let mut tried = false;
			match g.weighted(&ops) {
				0 => {
					let mut p = w.fresh(g);
					if g.chance(1, spoil) {
						w.spoil(g, &mut p);
					}
					w.proofs.push(p.clone());
					tried = true;
					w.submit(g, &p)?
				},
				1 => w.free(g)?,
				2 => {
					let k = w.stranger(g);
					w.m.created = scatter_accounts(g);
					let r = call(&w.k[k].id, MsaCall::create {});
					check_eq!(r.is_ok(), !w.m.msa_of.contains_key(&k), "creating an account with key {k}: {}", why(&r));
					if r.is_ok() {
						w.m.issue();
						w.m.msa_of.insert(k, w.m.created);
						g.note(|| format!("@{} key {k} creates account {}", block(), w.m.created));
					}
				},
				3 => {
					if g.bool() {
						next_block()
					} else {
						skip_blocks(g.uint(1, w.l.window as u64) as u32)
					}
				},
				4 => w.handle_op(g)?,
				5 => w.governance_op(g)?,
				6 => w.revoke_schemas(g)?,
				_ => {
					// an earlier payload again, perhaps from another sender or in another kind of call
					if !w.proofs.is_empty() {
						let mut p = g.pick(&w.proofs).clone();
						match g.below(4) {
							0 => p.sender = w.who(g),
							1 => p.sponsored = !p.sponsored,
							2 => {
								if g.chance(1, 2) {
									w.spoil(g, &mut p)
								}
							},
							_ => {},
						}
						tried = true;
						w.submit(g, &p)?
					}
				},
			}
			accepted += (w.m.accepted.len() > n) as u32;
			refused += (tried && w.m.accepted.len() == n) as u32;
			changes += (state() != had) as u32;
			match focus {
				Focus::Keys => w.check_keys()?,
				Focus::Delegations => w.check_delegations(g)?,
				Focus::Registry => w.check_registry(g)?,
				Focus::FreeCalls => {
					w.check_keys()?;
					// every free call of every key, in this state
					if g.chance(1, 4) {
						for k in 0..NKEYS {
							let who = w.k[k].id.clone();
							let c: RuntimeCall = MsaCall::retire_msa {}.into();
							let ok = pool(&who, System::account_nonce(&who), &c).is_ok();
							check_eq!(ok, w.m.retirable(k), "retirement of account {:?} is admitted", w.m.msa_of.get(&k));
						}
					}
				},
				Focus::Proofs => {},
			}
			Ok(())
		});
		let enough = match focus {
			Focus::Proofs => accepted >= 2 && refused >= 2,
			Focus::Registry => accepted >= 3,
			_ => changes >= 6,
		};
		if enough {
			g.nontrivial();
		}
		r
	})
}

fn m01(g: &mut Gen) -> R {
	history(g, Focus::Keys)
}
fn m02(g: &mut Gen) -> R {
	history(g, Focus::Delegations)
}
fn m03(g: &mut Gen) -> R {
	history(g, Focus::Proofs)
}
/// A provider retires through a proxy, multisig or derived account: is its account gone?
fn probe_retire() -> Option<String> {
	reset_knobs();
	let gone = chain(&[], || {
		let k = key(0);
		let Ok((m, _)) = Msa::create_account(k.id.clone(), |_| Ok(())) else { return false };
		Msa::create_provider_for(m, b"p".to_vec()).is_ok() && call(&k.id, MsaCall::retire_msa {}).is_ok() && Msa::get_owner_of(&k.id).is_none() && Msa::is_registered_provider(m)
	});
	gone.then(|| "retire_msa called by a proxy, multisig or derived account retires a registered provider (an account with a handle, several keys, active delegations): its conditions are checked on transactions only".to_string())
}
fn m04(g: &mut Gen) -> R {
	history(g, Focus::FreeCalls)
}
fn m05(g: &mut Gen) -> R {
	history(g, Focus::Registry)
}

fn main() {
	engine::dict::load(&engine::root(), &["pallet-msa"]);
	let rule = "histories over ten keys starting from two accounts; non-trivial: at least six state changes";
	engine::main(vec![
		Property { id: "M01", rule, aspects: vec![aspect("history", 40_000, 400_000, m01)], known: vec![] },
		Property { id: "M02", rule, aspects: vec![aspect("history", 40_000, 400_000, m02)], known: vec![] },
		Property { id: "M03", rule: "histories of signed payloads; non-trivial: at least two accepted and two refused", aspects: vec![aspect("history", 40_000, 400_000, m03)], known: vec![] },
		Property { id: "M04", rule, aspects: vec![aspect("history", 40_000, 400_000, m04)], known: vec![Known { signature: "unchecked-indirect-retirement", probe: probe_retire }] },
		Property { id: "M05", rule: "histories of signed payloads; non-trivial: at least three signatures accepted", aspects: vec![aspect("history", 40_000, 400_000, m05)], known: vec![] },
		Property { id: "M06", rule: "histories of key changes over blocks with a worker schedule; non-trivial: keys changed in at least two blocks and the worker ran at least twice; or about 1000 or 2000 keys indexed at once", aspects: vec![aspect("schedule", 30_000, 300_000, offchain::m06), aspect("many-keys", 60, 1_500, offchain::m06_many)], known: vec![] },
	]);
}
