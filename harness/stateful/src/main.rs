//! T01-T05: histories of writes to itemised and paginated storage against a list and map model.
use engine::{aspect, check, check_eq, guarded, Gen, Known, Property, R};
use rpc::storage_rpc::{StatefulStorageApiServer, StatefulStorageHandler};
use std::collections::{BTreeMap, BTreeSet};
use world::common_primitives::schema::{ModelType, PayloadLocation, SchemaSetting};
use world::frame_support::BoundedVec;
use world::grants::Grants;
use world::pallet_stateful_storage::{
	types::*,
	Event,
};
use tree::{MultipartKey, MultipartKeyStorageHasher, StatefulChildTree};
use world::parity_scale_codec::{Decode, Encode};
use world::sp_runtime::MultiSignature;
use world::*;

/// The pallet's own (private) key module.
#[allow(dead_code)]
#[path = "../../../wrap/pallet-stateful-storage/src/stateful_child_tree.rs"]
mod tree;

type Call = pallet_stateful_storage::Call<Runtime>;
type Item = ItemAction<MaxItemizedBlobBytes>;
const NONE: fn(u64) -> world::sp_runtime::DispatchResult = |_| Ok(());

#[derive(Clone, Debug)]
enum Act {
	Add(Vec<u8>),
	Del(u16),
}
#[derive(Clone, Debug)]
enum Op {
	Items(Vec<Act>),
	Put(u16, Vec<u8>),
	Drop(u16),
}
/// None: the itemised storage; otherwise a page.
type Slot = (u64, u16, Option<u16>);
#[derive(Clone, Debug)]
struct Write {
	owner: u64,
	schema: u16,
	hash: u32,
	op: Op,
}
impl Write {
	fn slot(&self) -> Slot {
		let p = match &self.op {
			Op::Items(_) => None,
			Op::Put(p, _) | Op::Drop(p) => Some(*p),
		};
		(self.owner, self.schema, p)
	}
	fn deletes(&self) -> bool {
		match &self.op {
			Op::Items(a) => a.iter().any(|a| matches!(a, Act::Del(_))),
			Op::Put(..) => false,
			Op::Drop(_) => true,
		}
	}
	fn text(&self) -> String {
		let o = match &self.op {
			Op::Items(a) => format!("{:?}", a.iter().map(|a| match a { Act::Add(d) => format!("+{}", hx(d)), Act::Del(i) => format!("-{i}") }).collect::<Vec<_>>()),
			Op::Put(p, d) => format!("page {p} = {}", hx(d)),
			Op::Drop(p) => format!("page {p} deleted"),
		};
		format!("owner {} schema {} hash {:08x}: {o}", self.owner, self.schema, self.hash)
	}
}
fn hx(d: &[u8]) -> String {
	if d.len() > 12 {
		format!("[{} bytes {:02x}..]", d.len(), d[0])
	} else {
		format!("{d:02x?}")
	}
}
#[derive(Clone, Debug, PartialEq)]
enum Route {
	Direct(usize),
	/// submitted by, key named as the owner's, first version with the account named, expiry, good signature
	Signed { by: usize, key: usize, named: Option<u64>, expires: u32, good: bool },
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Stored {
	items: Vec<Vec<u8>>,
	data: Vec<u8>,
	nonce: u16,
	hash: u32,
}
impl Stored {
	fn empty(&self) -> bool {
		self.items.is_empty() && self.data.is_empty()
	}
}
struct Accepted {
	call: RuntimeCall,
	write: Write,
	route: Route,
	/// the slot has been empty at some time since
	emptied: bool,
}
struct W {
	keys: Vec<Key>,
	msa: Vec<Option<u64>>,
	schemas: BTreeMap<u16, (PayloadLocation, bool, bool)>,
	grants: Grants,
	slots: BTreeMap<Slot, Stored>,
	/// hashes of a slot since it was last empty
	seen: BTreeMap<Slot, BTreeSet<u32>>,
	old_hashes: Vec<u32>,
	signed: Vec<Accepted>,
	accepted: u32,
	refused: u32,
	kinds: BTreeSet<&'static str>,
}

fn build(w: &W, x: &Write, r: &Route, g: &mut Gen) -> Option<RuntimeCall> {
	let actions = |a: &Vec<Act>| -> Option<BoundedVec<Item, MaxItemizedActions>> {
		let mut out = vec![];
		for a in a {
			out.push(match a {
				Act::Add(d) => Item::Add { data: d.clone().try_into().ok()? },
				Act::Del(i) => Item::Delete { index: *i },
			});
		}
		out.try_into().ok()
	};
	let Write { owner, schema, hash, op } = x.clone();
	Some(match r {
		Route::Direct(_) => match op {
			Op::Items(a) => Call::apply_item_actions { state_owner_msa_id: owner, schema_id: schema, target_hash: hash, actions: actions(&a)? },
			Op::Put(p, d) => Call::upsert_page { state_owner_msa_id: owner, schema_id: schema, page_id: p, target_hash: hash, payload: d.try_into().ok()? },
			Op::Drop(p) => Call::delete_page { state_owner_msa_id: owner, schema_id: schema, page_id: p, target_hash: hash },
		},
		Route::Signed { key, named, expires, good, .. } => {
			let delegator_key = w.keys[*key].id.clone();
			let expiration = *expires;
			// a bad signature covers something else, is not wrapped or is by another key
			let bad = g.weighted(&[3, 1, 2]);
			let other = (*key + 1) % w.keys.len();
			let mut sign = |p: Vec<u8>, changed: Vec<u8>| -> MultiSignature {
				match (good, bad) {
					(true, _) => w.keys[*key].sign(&p),
					(_, 0) => w.keys[*key].sign(&changed),
					(_, 1) => w.keys[*key].sign_raw(&p),
					_ => w.keys[other].sign(&p),
				}
			};
			let field = g.below(4);
			macro_rules! proof {
				($p:expr, $($field:ident),*) => {{
					let mut q = $p.clone();
					let names = [$(stringify!($field)),*];
					let pick = names[field as usize % names.len()];
					$( if pick == stringify!($field) { q.$field = q.$field.wrapping_add(1); } )*
					sign($p.encode(), q.encode())
				}};
			}
			match (op, named) {
				(Op::Items(a), Some(m)) => {
					let payload = ItemizedSignaturePayload::<Runtime> { msa_id: *m, schema_id: schema, target_hash: hash, expiration, actions: actions(&a)? };
					let proof = proof!(payload, msa_id, schema_id, target_hash, expiration);
					Call::apply_item_actions_with_signature { delegator_key, proof, payload }
				},
				(Op::Items(a), None) => {
					let payload = ItemizedSignaturePayloadV2::<Runtime> { schema_id: schema, target_hash: hash, expiration, actions: actions(&a)? };
					let mut q = payload.clone();
					let proof = match (field, q.actions.pop()) {
						(0, Some(_)) => sign(payload.encode(), q.encode()),
						_ => proof!(payload, schema_id, target_hash, expiration),
					};
					Call::apply_item_actions_with_signature_v2 { delegator_key, proof, payload }
				},
				(Op::Put(p, d), Some(m)) => {
					let payload = PaginatedUpsertSignaturePayload::<Runtime> { msa_id: *m, schema_id: schema, page_id: p, target_hash: hash, expiration, payload: d.try_into().ok()? };
					let proof = proof!(payload, page_id, schema_id, target_hash, expiration);
					Call::upsert_page_with_signature { delegator_key, proof, payload }
				},
				(Op::Put(p, d), None) => {
					let payload = PaginatedUpsertSignaturePayloadV2::<Runtime> { schema_id: schema, page_id: p, target_hash: hash, expiration, payload: d.try_into().ok()? };
					let mut q = payload.clone();
					let proof = match (field, q.payload.pop()) {
						(0, Some(_)) => sign(payload.encode(), q.encode()),
						_ => proof!(payload, page_id, target_hash, expiration),
					};
					Call::upsert_page_with_signature_v2 { delegator_key, proof, payload }
				},
				(Op::Drop(p), Some(m)) => {
					let payload = PaginatedDeleteSignaturePayload::<Runtime> { msa_id: *m, schema_id: schema, page_id: p, target_hash: hash, expiration };
					let proof = proof!(payload, page_id, schema_id, target_hash, expiration);
					Call::delete_page_with_signature { delegator_key, proof, payload }
				},
				(Op::Drop(p), None) => {
					let payload = PaginatedDeleteSignaturePayloadV2::<Runtime> { schema_id: schema, page_id: p, target_hash: hash, expiration };
					let proof = proof!(payload, page_id, schema_id, target_hash, expiration);
					Call::delete_page_with_signature_v2 { delegator_key, proof, payload }
				},
			}
		},
	}
	.into())
}

impl W {
	fn any_schema(&self, g: &mut Gen) -> u16 {
		let last = self.schemas.keys().last().map_or(0, |s| *s);
		match g.weighted(&[1, 1, 6]) {
			_ if self.schemas.is_empty() => 1,
			0 => 0,
			1 => last + 1,
			_ => *g.pick(&self.schemas.keys().cloned().collect::<Vec<_>>()),
		}
	}
	fn schema(&self, s: u16) -> Option<(PayloadLocation, bool, bool)> {
		self.schemas.get(&s).cloned()
	}
	fn stored(&self, s: &Slot) -> Stored {
		self.slots.get(s).cloned().unwrap_or_default()
	}
	/// May this write be made, by the rules of access alone?
	fn access(&self, x: &Write, r: &Route) -> Result<(), &'static str> {
		let (loc, append_only, signature_required) = self.schema(x.schema).ok_or("no such schema")?;
		let want = if matches!(x.op, Op::Items(_)) { PayloadLocation::Itemized } else { PayloadLocation::Paginated };
		if loc != want {
			return Err("other storage kind");
		}
		if append_only && x.deletes() {
			return Err("deletion on append-only");
		}
		match r {
			Route::Direct(k) => {
				let me = self.msa[*k].ok_or("no account")?;
				if me != x.owner {
					if !self.grants.permitted(x.owner, me, x.schema) {
						return Err("no permission");
					}
					if signature_required {
						return Err("signature required");
					}
				}
			},
			Route::Signed { key, named, expires, good, .. } => {
				let owner = self.msa[*key].ok_or("no account")?;
				if owner != x.owner || named.map_or(false, |m| m != owner) {
					return Err("other owner");
				}
				if !good {
					return Err("bad signature");
				}
				if *expires <= block() {
					return Err("expired");
				}
				if *expires >= block() + StatefulMortality::get() {
					return Err("expires too late");
				}
			},
		}
		Ok(())
	}
	/// The slot after the write; None if it is refused for its content.
	fn outcome(&self, x: &Write) -> Result<Stored, &'static str> {
		let old = self.stored(&x.slot());
		match &x.op {
			Op::Items(acts) => {
				if x.hash != old.hash {
					return Err("stale");
				}
				let mut keep: Vec<Option<Vec<u8>>> = old.items.iter().cloned().map(Some).collect();
				let mut add = vec![];
				for a in acts {
					match a {
						Act::Add(d) => add.push(d.clone()),
						Act::Del(i) => match keep.get_mut(*i as usize) {
							Some(slot) if slot.is_some() => *slot = None,
							_ => return Err("no such item"),
						},
					}
				}
				let items: Vec<Vec<u8>> = keep.into_iter().flatten().chain(add).collect();
				if items.iter().map(|i| 2 + i.len()).sum::<usize>() > MaxItemizedPageBytes::get() as usize {
					return Err("page overflow");
				}
				let nonce = if items.is_empty() { 0 } else { old.nonce.wrapping_add(1) };
				Ok(Stored { items, nonce, ..Default::default() })
			},
			Op::Put(p, d) => {
				if *p > MaxPaginatedPageId::get() {
					return Err("page number");
				}
				if x.hash != old.hash {
					return Err("stale");
				}
				Ok(Stored { data: d.clone(), nonce: old.nonce.wrapping_add(1), ..Default::default() })
			},
			Op::Drop(p) => {
				if *p > MaxPaginatedPageId::get() {
					return Err("page number");
				}
				// deleting a page that is not there changes nothing
				if self.slots.contains_key(&x.slot()) && x.hash != old.hash {
					return Err("stale");
				}
				Ok(Stored::default())
			},
		}
	}
	fn read_items(&self, owner: u64, s: u16) -> Result<Option<Stored>, String> {
		let a = StatefulStorage::get_itemized_storage(owner, s);
		let b: Result<_, _> = StatefulStorageApiServer::<world::sp_core::H256>::get_itemized_storage(&StatefulStorageHandler::<_, Block>::new(rpc::node()), owner, s);
		check_eq!(b.is_ok(), a.is_ok(), "the node and the pallet answer for items of {owner} in {s}");
		let (Ok(a), Ok(b)) = (a, b) else { return Ok(None) };
		check_eq!(format!("{a:?}"), format!("{b:?}"), "the node's answer for items of {owner} in {s}");
		check_eq!((a.msa_id, a.schema_id), (owner, s), "account and schema of the answer");
		check!(a.items.iter().enumerate().all(|(i, x)| x.index as usize == i), "positions of the items of {owner} in {s}: {:?}", a.items.iter().map(|x| x.index).collect::<Vec<_>>());
		Ok(Some(Stored { items: a.items.into_iter().map(|x| x.payload).collect(), data: vec![], nonce: a.nonce, hash: a.content_hash }))
	}
	fn read_pages(&self, owner: u64, s: u16) -> Result<Option<BTreeMap<u16, Stored>>, String> {
		let a = StatefulStorage::get_paginated_storage(owner, s);
		let b: Result<_, _> = StatefulStorageApiServer::<world::sp_core::H256>::get_paginated_storage(&StatefulStorageHandler::<_, Block>::new(rpc::node()), owner, s);
		check_eq!(b.is_ok(), a.is_ok(), "the node and the pallet answer for pages of {owner} in {s}");
		let (Ok(a), Ok(b)) = (a, b) else { return Ok(None) };
		check_eq!(format!("{a:?}"), format!("{b:?}"), "the node's answer for pages of {owner} in {s}");
		let mut out = BTreeMap::new();
		for p in a {
			check_eq!((p.msa_id, p.schema_id), (owner, s), "account and schema of the answer");
			let x = out.insert(p.page_id, Stored { items: vec![], data: p.payload, nonce: p.nonce, hash: p.content_hash });
			check!(x.is_none(), "page {} of {owner} in {s} is listed twice", p.page_id);
		}
		Ok(Some(out))
	}
	fn agrees_on(&self, owner: u64, s: u16) -> R {
		let loc = self.schema(s).map(|x| x.0);
		let items = self.read_items(owner, s)?;
		check_eq!(items.is_some(), loc == Some(PayloadLocation::Itemized), "items of schema {s} ({loc:?}) are readable");
		let pages = self.read_pages(owner, s)?;
		check_eq!(pages.is_some(), loc == Some(PayloadLocation::Paginated), "pages of schema {s} ({loc:?}) are readable");
		if let Some(got) = items {
			check_eq!(got, self.stored(&(owner, s, None)), "items of {owner} in {s}");
		}
		if let Some(got) = pages {
			let want: BTreeMap<u16, Stored> = self.slots.iter().filter(|(k, _)| k.0 == owner && k.1 == s).filter_map(|(k, v)| k.2.map(|p| (p, v.clone()))).collect();
			check_eq!(got, want, "pages of {owner} in {s}");
		}
		Ok(())
	}
	fn agrees(&self) -> R {
		for owner in 0..6 {
			for s in self.schemas.keys().flat_map(|s| [*s, *s + 1]).chain([0]).collect::<BTreeSet<_>>() {
				self.agrees_on(owner, s)?;
			}
		}
		Ok(())
	}
	/// Submits the write and compares the outcome with the model.
	fn submit(&mut self, g: &mut Gen, x: &Write, r: &Route, c: RuntimeCall, f: Focus) -> Result<bool, String> {
		let by = match r {
			Route::Direct(k) => *k,
			Route::Signed { by, .. } => *by,
		};
		let content = self.outcome(x);
		let access = self.access(x, r);
		let want = access.and(content.clone().map(|_| ()));
		let before = state();
		let events = event_count();
		let o = call(&self.keys[by].id, c);
		g.note(|| format!("{r:?} {}: {} (model: {want:?})", x.text(), why(&o)));
		check_eq!(o.is_ok(), want.is_ok(), "accepted ({}; model: {want:?}): {r:?}: {}", why(&o), x.text());
		let slot = x.slot();
		match (want, content) {
			(Ok(()), Ok(mut new)) => {
				self.accepted += 1;
				let old = self.slots.get(&slot).cloned();
				let gone = match &x.op {
					Op::Items(_) => new.empty(),
					Op::Put(..) => false,
					Op::Drop(_) => true,
				};
				// the hash is whatever the storage reports for its new content
				if !new.empty() {
					let now = match x.op {
						Op::Items(_) => self.read_items(slot.0, slot.1)?,
						_ => self.read_pages(slot.0, slot.1)?.and_then(|p| p.get(&slot.2.unwrap_or(0)).cloned()),
					};
					new.hash = now.map_or(0, |n| n.hash);
				}
				if f == Focus::Hash {
					self.check_hash(&slot, &new, old.as_ref(), x, events)?;
				}
				if new.empty() {
					self.seen.remove(&slot);
				} else {
					self.seen.entry(slot).or_default().insert(new.hash);
				}
				if !self.old_hashes.contains(&new.hash) && self.old_hashes.len() < 60 {
					self.old_hashes.push(new.hash);
				}
				let empty = new.empty();
				if gone {
					self.slots.remove(&slot);
				} else {
					self.slots.insert(slot, new);
				}
				if empty {
					self.signed.iter_mut().filter(|a| a.write.slot() == slot).for_each(|a| a.emptied = true);
				}
				Ok(true)
			},
			(w, _) => {
				self.refused += 1;
				if let Err(e) = w {
					self.kinds.insert(e);
				}
				check_eq!(state(), before, "state after a refused write");
				Ok(false)
			},
		}
	}
	fn check_hash(&self, slot: &Slot, new: &Stored, old: Option<&Stored>, x: &Write, events: usize) -> R {
		if !new.empty() {
			if let Some(seen) = self.seen.get(slot) {
				check!(!seen.contains(&new.hash), "the hash {:08x} of {slot:?} is one the slot had before: {}", new.hash, x.text());
			}
			check!(new.hash != 0, "hash of the non-empty {slot:?}");
		}
		let got: Vec<_> = events_since(events).into_iter().filter_map(|e| if let RuntimeEvent::StatefulStorage(e) = e { Some(e) } else { None }).collect();
		let prev_content_hash = old.map_or(0, |o| o.hash);
		let curr_content_hash = new.hash;
		let (msa_id, schema_id, page) = *slot;
		let want: Vec<Event<Runtime>> = match (page, &x.op) {
			(None, _) if new.empty() => vec![Event::ItemizedPageDeleted { msa_id, schema_id, prev_content_hash }],
			(None, _) => vec![Event::ItemizedPageUpdated { msa_id, schema_id, prev_content_hash, curr_content_hash }],
			(Some(_), Op::Drop(_)) if old.is_none() => vec![],
			(Some(page_id), Op::Drop(_)) => vec![Event::PaginatedPageDeleted { msa_id, schema_id, page_id, prev_content_hash }],
			(Some(page_id), _) => vec![Event::PaginatedPageUpdated { msa_id, schema_id, page_id, prev_content_hash, curr_content_hash }],
		};
		check_eq!(format!("{got:?}"), format!("{want:?}"), "events of {}", x.text());
		Ok(())
	}
	fn gen_data(&self, g: &mut Gen, max: usize) -> Vec<u8> {
		let n = match g.weighted(&[8, 2, 2, 1]) {
			0 => g.usize(0, 6),
			1 => max,
			2 => 0,
			_ => *g.pick(&[max + 1, max.saturating_sub(1), max / 2]),
		};
		if n > 30 {
			let mut v = vec![g.byte(); n];
			v[0] = g.byte();
			v
		} else if g.bool() {
			// few contents, so that content returns to what it was
			vec![g.below(2) as u8; n]
		} else {
			g.bytes(n, n)
		}
	}
	fn gen_write(&self, g: &mut Gen, f: Focus) -> (Write, Route) {
		let items = match f {
			Focus::Items => g.chance(19, 20),
			Focus::Pages => g.chance(1, 20),
			_ => g.bool(),
		};
		let kind = if items { PayloadLocation::Itemized } else { PayloadLocation::Paginated };
		let fitting: Vec<u16> = self.schemas.iter().filter(|s| s.1 .0 == kind).map(|s| *s.0).collect();
		let schema = if fitting.is_empty() || g.chance(1, 15) { self.any_schema(g) } else { *g.pick(&fitting) };
		let members: Vec<usize> = (0..self.keys.len()).filter(|k| self.msa[*k].is_some()).collect();
		let anyone = |g: &mut Gen| if members.is_empty() || g.chance(1, 12) { g.usize(0, self.keys.len() - 1) } else { *g.pick(&members) };
		let k = anyone(g);
		let mine = self.msa[k].unwrap_or(1);
		let route_kind = g.weighted(match f {
			Focus::Hash => &[2, 5],
			_ => &[1, 1],
		});
		let (owner, mut route) = if route_kind == 0 {
			let owner = match g.weighted(&[4, 4, 1]) {
				0 => mine,
				1 => {
					let d: Vec<u64> = self.grants.pairs().into_iter().filter(|x| x.1 == mine).map(|x| x.0).collect();
					if d.is_empty() {
						mine
					} else {
						*g.pick(&d)
					}
				},
				_ => g.uint(0, 5),
			};
			(owner, Route::Direct(k))
		} else {
			let odds = if f == Focus::Access { 4 } else { 14 };
			let good = !g.chance(1, odds);
			let named = if g.bool() { Some(if g.chance(1, odds) { g.uint(0, 4) } else { mine }) } else { None };
			let now = block();
			let life = StatefulMortality::get();
			let expires = match g.weighted(&[12, 1, 1, 1, 1]) {
				0 => now + g.uint(1, (life - 1).max(1) as u64) as u32,
				1 => now + life - 1,
				2 => now + life,
				3 => now,
				_ => *g.pick(&[now + 1, now.saturating_sub(1), u32::MAX]),
			};
			let owner = named.unwrap_or(mine);
			(owner, Route::Signed { by: anyone(g), key: k, named, expires, good })
		};
		if let Route::Signed { expires, .. } = &mut route {
			*expires = (*expires).max(1);
		}
		let op = if items {
			let n = match g.weighted(&[8, 1, 1]) {
				0 => g.usize(1, 4),
				1 => MaxItemizedActions::get() as usize,
				_ => *g.pick(&[0, MaxItemizedActions::get() as usize + 1]),
			};
			let have = self.stored(&(owner, schema, None)).items.len();
			let mut acts: Vec<Act> = vec![];
			for _ in 0..n {
				acts.push(if have > 0 && g.chance(2, 5) {
					Act::Del(match g.weighted(&[12, 1, 1]) {
						0 => {
							let i = g.below(have as u64) as u16;
							// mostly not the same item twice
							if acts.iter().any(|a| matches!(a, Act::Del(j) if *j == i)) && g.chance(9, 10) {
								(0..have as u16).find(|i| !acts.iter().any(|a| matches!(a, Act::Del(j) if j == i))).unwrap_or(i)
							} else {
								i
							}
						},
						1 => have as u16,
						_ => *g.pick(&[have as u16 + 1, 255, 256, u16::MAX]),
					})
				} else if have == 0 && g.chance(1, 25) {
					Act::Del(0)
				} else {
					Act::Add(self.gen_data(g, MaxItemizedBlobBytes::get() as usize))
				});
			}
			Op::Items(acts)
		} else {
			let max = MaxPaginatedPageId::get();
			let existing: Vec<u16> = self.slots.keys().filter(|s| s.0 == owner && s.1 == schema).filter_map(|s| s.2).collect();
			let page = match g.weighted(&[8, 4, 2, 1]) {
				0 if !existing.is_empty() => *g.pick(&existing),
				0 | 1 => g.uint(0, max.min(3) as u64) as u16,
				2 => *g.pick(&[max, max.saturating_add(1), max / 2, 256.min(max)]),
				_ => g.uint(0, u16::MAX as u64) as u16,
			};
			if g.chance(1, 4) {
				Op::Drop(page)
			} else {
				Op::Put(page, self.gen_data(g, MaxPaginatedPageBytes::get() as usize))
			}
		};
		let mut x = Write { owner, schema, hash: 0, op };
		let current = self.stored(&x.slot()).hash;
		x.hash = match g.weighted(&[if f == Focus::Hash { 10 } else { 24 }, 2, 1, 1]) {
			0 => current,
			1 if !self.old_hashes.is_empty() => *g.pick(&self.old_hashes),
			2 => 0,
			_ => current ^ (1 << g.below(32)),
		};
		(x, route)
	}
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Items,
	Pages,
	Hash,
	Access,
}

fn setup(g: &mut Gen) -> W {
	reset_knobs();
	MaxItemizedPageBytes::set(*g.pick(&[10_260, 40, 64, 200]));
	MaxItemizedBlobBytes::set(*g.pick(&[1024, 8, 40]));
	MaxItemizedActions::set(*g.pick(&[5, 3, 10]));
	MaxPaginatedPageBytes::set(*g.pick(&[1024, 10, 100]));
	MaxPaginatedPageId::set(*g.pick(&[16, 0, 3, 300, u16::MAX]));
	StatefulMortality::set(*g.pick(&[100, 100, 10, 3]));
	W {
		keys: (0..6).map(key).collect(),
		msa: vec![None; 6],
		schemas: BTreeMap::new(),
		grants: Grants::default(),
		slots: BTreeMap::new(),
		seen: BTreeMap::new(),
		old_hashes: vec![],
		signed: vec![],
		accepted: 0,
		refused: 0,
		kinds: BTreeSet::new(),
	}
}
fn populate(g: &mut Gen, w: &mut W) -> R {
	for i in 0..g.usize(2, 4) {
		scatter_accounts(g);
		let r = Msa::create_account(w.keys[i].id.clone(), NONE);
		w.msa[i] = r.ok().map(|x| x.0);
	}
	if let (Some(m), true) = (w.msa[0], g.bool()) {
		if Msa::add_key(m, &w.keys[5].id, NONE).is_ok() {
			w.msa[5] = Some(m);
		}
	}
	for i in 0..g.usize(2, 7) {
		let loc = match i {
			0 => PayloadLocation::Itemized,
			1 => PayloadLocation::Paginated,
			_ => *g.pick(&[PayloadLocation::Itemized, PayloadLocation::Paginated, PayloadLocation::Itemized, PayloadLocation::Paginated, PayloadLocation::OnChain]),
		};
		let (append, signed) = (i > 1 && loc == PayloadLocation::Itemized && g.bool(), i > 1 && g.chance(1, 3));
		let mut settings = vec![];
		if append {
			settings.push(SchemaSetting::AppendOnly);
		}
		if signed {
			settings.push(SchemaSetting::SignatureRequired);
		}
		let model = BoundedVec::try_from(b"{\"a\": 123}".to_vec()).map_err(|_| "model")?;
		scatter_schemas(g);
		let id = Schemas::add_schema(model, ModelType::AvroBinary, loc, settings.try_into().map_err(|_| "settings")?, None).map_err(|_| "cannot add a schema")?;
		w.schemas.insert(id, (loc, append, signed));
	}
	for _ in 0..g.usize(0, 4) {
		delegate(g, w);
	}
	Ok(())
}
fn delegate(g: &mut Gen, w: &mut W) {
	let all: Vec<u64> = w.msa.iter().flatten().cloned().collect();
	if all.is_empty() {
		return;
	}
	let pairs = w.grants.pairs();
	if !pairs.is_empty() && g.chance(1, 4) {
		let (d, p) = *g.pick(&pairs);
		w.grants.revoke(d, p);
		g.note(|| format!("{d} revokes {p}"));
	} else {
		let (d, p) = (*g.pick(&all), *g.pick(&all));
		let ids: Vec<u16> = w.schemas.keys().cloned().filter(|_| g.chance(2, 3)).collect();
		let _ = w.grants.grant(d, p, &ids);
		g.note(|| format!("{d} grants {p} {ids:?}"));
	}
}
fn step(g: &mut Gen, w: &mut W, f: Focus) -> R {
	let weights: &[u64] = match f {
		Focus::Access => &[30, 10, 6, 4, 4],
		Focus::Hash => &[30, 2, 2, 1, 25],
		_ => &[30, 3, 3, 1, 1],
	};
	match g.weighted(weights) {
		0 => {
			let (x, r) = w.gen_write(g, f);
			let Some(c) = build(w, &x, &r, g) else {
				// content beyond the limits does not even form a call
				g.label("beyond the limits of the call");
				let over = match &x.op {
					Op::Items(a) => a.len() > MaxItemizedActions::get() as usize || a.iter().any(|a| matches!(a, Act::Add(d) if d.len() > MaxItemizedBlobBytes::get() as usize)),
					Op::Put(_, d) => d.len() > MaxPaginatedPageBytes::get() as usize,
					Op::Drop(_) => false,
				};
				check!(over, "no call can be formed for {}", x.text());
				return Ok(());
			};
			if let (Op::Items(a), true) = (&x.op, true) {
				check!(a.len() <= MaxItemizedActions::get() as usize, "a call with {} actions was formed", a.len());
			}
			let accepted = w.submit(g, &x, &r, c.clone(), f)?;
			if accepted && matches!(r, Route::Signed { .. }) {
				let emptied = w.stored(&x.slot()).empty();
				w.signed.push(Accepted { call: c, write: x.clone(), route: r, emptied });
			}
			w.agrees_on(x.owner, x.schema)?;
		},
		1 => delegate(g, w),
		2 => {
			if g.chance(1, 4) {
				skip_blocks(g.uint(2, 120) as u32);
			} else {
				next_block();
			}
			g.note(|| format!("block {}", block()));
		},
		3 => {
			let k = g.usize(0, w.keys.len() - 1);
			match w.msa[k] {
				Some(m) =>
					if w.msa.iter().filter(|x| **x == Some(m)).count() > 1 && Msa::delete_key_for_msa(m, &w.keys[k].id).is_ok() {
						w.msa[k] = None;
						g.note(|| format!("key {k} leaves {m}"));
					},
				None => {
					let others: Vec<u64> = w.msa.iter().flatten().cloned().collect();
					if g.bool() && !others.is_empty() {
						let m = *g.pick(&others);
						if Msa::add_key(m, &w.keys[k].id, NONE).is_ok() {
							w.msa[k] = Some(m);
							g.note(|| format!("key {k} joins {m}"));
						}
					} else if let Ok((m, _)) = Msa::create_account(w.keys[k].id.clone(), NONE) {
						w.msa[k] = Some(m);
						g.note(|| format!("key {k} creates {m}"));
					}
				},
			}
		},
		// an earlier accepted signed write, again
		_ => {
			if w.signed.is_empty() {
				return Ok(());
			}
			let i = g.below(w.signed.len() as u64) as usize;
			let (c, mut x, mut r, emptied) = {
				let a = &w.signed[i];
				(a.call.clone(), a.write.clone(), a.route.clone(), a.emptied)
			};
			if let Route::Signed { by, .. } = &mut r {
				*by = g.usize(0, w.keys.len() - 1);
			}
			// The second form does not name the account: it is that of the key.
			let mut moved = false;
			if let Route::Signed { key, named: None, .. } = &r {
				if let Some(m) = w.msa[*key] {
					moved = m != x.owner;
					x.owner = m;
				}
			}
			g.label_if(moved, "replay-after-key-moved");
			g.note(|| "again:".to_string());
			let before = state();
			let old = w.slots.get(&x.slot()).cloned();
			let accepted = w.submit(g, &x, &r, c, f)?;
			g.label("replay tried");
			if accepted && w.slots.get(&x.slot()) != old.as_ref() {
				let _ = before;
				if emptied || moved {
					// recorded findings emptied-slot-restarts-counter, moved-key-writes-again
					g.exclude();
				} else {
					return Err(format!("an accepted signed write was applied a second time by replaying it: {}", x.text()));
				}
			}
			w.agrees_on(x.owner, x.schema)?;
		},
	}
	Ok(())
}
fn history(g: &mut Gen, f: Focus) -> R {
	let mut w = setup(g);
	let r = chain(&[], || -> R {
		populate(g, &mut w)?;
		g.steps(30, |g, _| {
			step(g, &mut w, f)?;
			if g.chance(1, 12) {
				w.agrees()?;
			}
			Ok(())
		})?;
		w.agrees()
	});
	for k in &w.kinds {
		g.label(k);
	}
	let enough = match f {
		Focus::Items | Focus::Pages => w.accepted >= 3,
		Focus::Hash => w.accepted >= 3 && !w.signed.is_empty(),
		Focus::Access => w.accepted >= 1 && w.kinds.iter().any(|k| !["stale", "page overflow", "no such item", "page number"].contains(k)),
	};
	if enough {
		g.nontrivial();
	}
	r
}

/// A signed page write applied twice, with the page deleted in between.
fn probe_moved() -> Option<String> {
	moves().then(|| "a signed write that does not name its account is accepted again, for another account, after the key which signed it moved there".to_string())
}
fn moves() -> bool {
	reset_knobs();
	chain(&[], || {
		let k = key(0);
		let Ok(model) = BoundedVec::try_from(b"{\"a\": 123}".to_vec()) else { return false };
		if Schemas::add_schema(model, ModelType::AvroBinary, PayloadLocation::Paginated, BoundedVec::default(), None).is_err() {
			return false;
		}
		let (Ok((a, _)), Ok((b, _))) = (Msa::create_account(key(1).id, NONE), Msa::create_account(key(2).id, NONE)) else { return false };
		let Ok(data) = vec![1u8, 2, 3].try_into() else { return false };
		let payload = PaginatedUpsertSignaturePayloadV2::<Runtime> { schema_id: 1, page_id: 0, target_hash: 0, expiration: block() + 50, payload: data };
		let proof = k.sign(&payload.encode());
		let write = Call::upsert_page_with_signature_v2 { delegator_key: k.id.clone(), proof, payload };
		let joined = Msa::add_key(a, &k.id, NONE).is_ok();
		let first = call(&k.id, write.clone()).is_ok();
		let left = Msa::delete_key_for_msa(a, &k.id).is_ok();
		let moved = Msa::add_key(b, &k.id, NONE).is_ok();
		joined && first && left && moved && call(&key(3).id, write).is_ok() && StatefulStorage::get_paginated_storage(b, 1).map_or(0, |p| p.len()) == 1
	})
}
fn probe_restart() -> Option<String> {
	restarts().then(|| "a signed write of a page is accepted again after the page was deleted, because the counter in the page's hash starts over".to_string())
}
fn restarts() -> bool {
	reset_knobs();
	chain(&[], || {
		let k = key(0);
		let Ok(model) = BoundedVec::try_from(b"{\"a\": 123}".to_vec()) else { return false };
		if Msa::create_account(k.id.clone(), NONE).is_err() || Schemas::add_schema(model, ModelType::AvroBinary, PayloadLocation::Paginated, BoundedVec::default(), None).is_err() {
			return false;
		}
		let Ok(data) = vec![1u8, 2, 3].try_into() else { return false };
		let payload = PaginatedUpsertSignaturePayloadV2::<Runtime> { schema_id: 1, page_id: 0, target_hash: 0, expiration: block() + 50, payload: data };
		let proof = k.sign(&payload.encode());
		let write = Call::upsert_page_with_signature_v2 { delegator_key: k.id.clone(), proof, payload };
		let first = call(&k.id, write.clone()).is_ok();
		let hash = StatefulStorage::get_paginated_storage(1, 1).ok().and_then(|p| p.first().map(|p| p.content_hash)).unwrap_or(0);
		let deleted = call(&k.id, Call::delete_page { state_owner_msa_id: 1, schema_id: 1, page_id: 0, target_hash: hash }).is_ok();
		first && deleted && call(&key(1).id, write).is_ok() && StatefulStorage::get_paginated_storage(1, 1).map_or(0, |p| p.len()) == 1
	})
}

// ---- T05: codecs ---------------------------------------------------------------------------------

type ItemPage = Page<MaxItemizedPageBytes>;
fn parse(p: &ItemPage, header: bool) -> Result<(usize, Vec<(u16, Vec<u8>)>), ()> {
	ItemizedOperations::<Runtime>::try_parse(p, header).map(|x| (x.page_size, x.items.into_iter().map(|(i, s)| (i, s.to_vec())).collect())).map_err(|_| ())
}
/// The documented form: each item is its length in two bytes, then its bytes.
fn reference(mut b: &[u8]) -> Option<Vec<Vec<u8>>> {
	let mut out = vec![];
	while !b.is_empty() {
		let n = u16::from_le_bytes([*b.first()?, *b.get(1)?]) as usize;
		out.push(b.get(2..2 + n)?.to_vec());
		b = &b[2 + n..];
	}
	Some(out)
}
fn t05_lists(g: &mut Gen) -> R {
	reset_knobs();
	MaxItemizedActions::set(1000);
	MaxItemizedBlobBytes::set(70_000);
	MaxItemizedPageBytes::set(*g.pick(&[10_260, 200_000]));
	let mut page = ItemPage::default();
	let mut items: Vec<Vec<u8>> = vec![];
	g.nontrivial();
	for _ in 0..g.usize(1, 3) {
		let n = g.usize(0, 20);
		let add: Vec<Vec<u8>> = (0..n)
			.map(|_| match g.weighted(&[10, 1, 1]) {
				0 => g.bytes(0, 20),
				1 => vec![g.byte(); *g.pick(&[255usize, 256, 257, 1024])],
				_ => vec![g.byte(); *g.pick(&[65_535usize, 65_536, 65_537])],
			})
			.collect();
		let acts: Vec<Item> = add.iter().map(|d| Item::Add { data: d.clone().try_into().unwrap_or_default() }).collect();
		let total: usize = items.iter().chain(&add).map(|i| i.len() + 2).sum();
		let fits = total <= MaxItemizedPageBytes::get() as usize && add.iter().all(|d| d.len() <= u16::MAX as usize);
		let new = guarded(|| ItemizedOperations::<Runtime>::apply_item_actions(&page, &acts)).map_err(|e| format!("adding {:?} crashed: {e}", add.iter().map(|a| a.len()).collect::<Vec<_>>()))?;
		g.note(|| format!("add {:?}: {}", add.iter().map(|a| a.len()).collect::<Vec<_>>(), new.is_ok()));
		check_eq!(new.is_ok(), fits, "items of {:?} bytes added to {} items", add.iter().map(|a| a.len()).collect::<Vec<_>>(), items.len());
		let Ok(new) = new else { continue };
		items.extend(add);
		page = new;
		page.nonce = g.below(65536) as u16;
		let (size, got) = parse(&page, false).map_err(|_| "an encoded page does not parse")?;
		check_eq!(size, total, "page size");
		check_eq!(got, items.iter().cloned().enumerate().map(|(i, d)| (i as u16, d)).collect::<Vec<_>>(), "items parsed from the page they were encoded in");
		let (_, raw) = parse(&page, true).map_err(|_| "an encoded page does not parse with headers")?;
		check_eq!(raw.into_iter().flat_map(|x| x.1).collect::<Vec<u8>>(), page.data.to_vec(), "items with their headers are the page");
		let back = ItemPage::decode(&mut &page.encode()[..]).map_err(|e| format!("an encoded page does not decode: {e:?}"))?;
		check!(back == page, "the decoded page differs");
		check_eq!(back.get_hash(), page.get_hash(), "hash of the decoded page");
		let mut bytes = page.nonce.encode();
		bytes.extend(page.data.to_vec());
		check!(ItemPage::try_from(bytes).ok() == Some(page.clone_page()), "the page from its counter and bytes differs");
		let mut other = page.clone_page();
		other.nonce = if g.bool() { other.nonce.wrapping_add(1) } else { other.nonce ^ (1 << g.below(16)) };
		check!(page.is_empty() || other.get_hash() != page.get_hash(), "two pages differing in their counter have the same hash");
		if !page.is_empty() {
			let mut bytes = page.data.to_vec();
			let at = g.below(bytes.len() as u64) as usize;
			bytes[at] ^= 1 << g.below(8);
			let other = ItemPage { nonce: page.nonce, data: bytes.try_into().map_err(|_| "page")? };
			check!(other.get_hash() != page.get_hash(), "two pages differing in byte {at} of {} have the same hash", page.data.len());
		}
	}
	Ok(())
}
trait ClonePage {
	fn clone_page(&self) -> ItemPage;
}
impl ClonePage for ItemPage {
	fn clone_page(&self) -> ItemPage {
		Page { nonce: self.nonce, data: self.data.clone() }
	}
}
fn t05_bytes(g: &mut Gen) -> R {
	reset_knobs();
	MaxItemizedPageBytes::set(*g.pick(&[64, 10_260]));
	let bytes = match g.weighted(&[4, 2, 4]) {
		0 => g.bytes(0, 70),
		1 => {
			let n = g.usize(0, 12);
			(0..n).map(|_| g.below(4) as u8).collect()
		},
		_ => {
			// a valid page with one change
			let n = g.usize(1, 5);
			let mut b: Vec<u8> = (0..n)
				.flat_map(|_| {
					let d = g.bytes(0, 6);
					[(d.len() as u16).encode(), d].concat()
				})
				.collect();
			match g.below(4) {
				0 if !b.is_empty() => {
					let i = g.below(b.len() as u64) as usize;
					b[i] = g.byte();
				},
				1 => b.push(g.byte()),
				2 => {
					b.pop();
				},
				_ => {},
			}
			b
		},
	};
	g.note(|| format!("bytes {bytes:02x?}"));
	if bytes.len() > 2 {
		g.nontrivial();
	}
	let limit = MaxItemizedPageBytes::get() as usize;
	let page: Result<ItemPage, _> = BoundedVec::try_from(bytes.clone()).map(Page::from);
	check_eq!(page.is_ok(), bytes.len() <= limit, "{} bytes in a page of {limit}", bytes.len());
	if let Ok(page) = page {
		let want = reference(&bytes);
		for header in [false, true] {
			let got = guarded(|| parse(&page, header)).map_err(|e| format!("parsing {bytes:02x?} crashed: {e}"))?;
			check_eq!(got.is_ok(), want.is_some(), "parsed {bytes:02x?}");
			if let (Ok((size, got)), Some(want)) = (got, &want) {
				check_eq!(size, bytes.len(), "size of {bytes:02x?}");
				let want: Vec<(u16, Vec<u8>)> = want.iter().enumerate().map(|(i, d)| (i as u16, if header { [(d.len() as u16).encode(), d.clone()].concat() } else { d.clone() })).collect();
				check_eq!(got, want, "items of {bytes:02x?}");
			}
		}
		let acts = [Item::Delete { index: g.below(3) as u16 }];
		guarded(|| ItemizedOperations::<Runtime>::apply_item_actions(&page, &acts).is_ok()).map_err(|e| format!("deleting an item of {bytes:02x?} crashed: {e}"))?;
	}
	let got = guarded(|| ItemPage::try_from(bytes.clone()).ok()).map_err(|e| format!("reading {bytes:02x?} as counter and data crashed: {e}"))?;
	let fits = bytes.len() >= 2 && bytes.len() - 2 <= limit;
	check_eq!(got.is_some(), fits, "{bytes:02x?} read as counter and data");
	if let Some(p) = got {
		check_eq!((p.nonce.encode(), p.data.to_vec()), (bytes[..2].to_vec(), bytes[2..].to_vec()), "counter and data of {bytes:02x?}");
	}
	// stored and submitted forms: whatever decodes encodes back to what was read
	macro_rules! back {
		($($t:ty),*) => { $(
			let mut rest = &bytes[..];
			if let Ok(x) = guarded(|| <$t>::decode(&mut rest)).map_err(|e| format!("decoding {bytes:02x?} as {} crashed: {e}", stringify!($t)))? {
				let again = x.encode();
				check!(<$t>::decode(&mut &again[..]).map_or(false, |y| y.encode() == again), "{} read from {bytes:02x?} does not survive encoding", stringify!($t));
			}
		)* };
	}
	back!(ItemPage, Item, ItemHeader, ItemizedSignaturePayload<Runtime>, ItemizedSignaturePayloadV2<Runtime>, PaginatedUpsertSignaturePayload<Runtime>, PaginatedUpsertSignaturePayloadV2<Runtime>, PaginatedDeleteSignaturePayload<Runtime>, PaginatedDeleteSignaturePayloadV2<Runtime>);
	Ok(())
}
fn t05_many(g: &mut Gen) -> R {
	let i = g.below(5);
	reset_knobs();
	MaxItemizedPageBytes::set(200_000);
	let n = [65_534usize, 65_535, 65_536, 65_537, 65_600][i as usize];
	g.nontrivial();
	g.note(|| format!("{n} empty items"));
	let page: ItemPage = BoundedVec::try_from(vec![0u8; n * 2]).map(Page::from).map_err(|_| "page")?;
	let got = guarded(|| parse(&page, false)).map_err(|e| format!("parsing {n} items crashed: {e}"))?;
	match got {
		Ok((_, items)) => check_eq!(items.len(), n, "number of items parsed"),
		Err(()) => check!(n > 65_535, "{n} items were refused"),
	}
	Ok(())
}
fn hasher<H: MultipartKeyStorageHasher>(g: &mut Gen) -> R {
	fn one<H: MultipartKeyStorageHasher, K: MultipartKey<H>>(k: K) -> R {
		let h = k.hash();
		let back = guarded(|| <K as MultipartKey<H>>::decode(&h)).map_err(|e| format!("reading a key crashed: {e}"))?;
		check_eq!(back.ok(), Some(k.clone()), "key {k:?} read back");
		check!(h.starts_with(&k.hash_prefix_only()), "the hash of {k:?} starts with its prefix");
		Ok(())
	}
	let (a, b, c, d) = (g.below(70_000) as u16, g.below(300) as u16, g.bytes(0, 5), g.below(u64::MAX));
	one::<H, _>(())?;
	one::<H, _>((a,))?;
	one::<H, _>((a, b))?;
	one::<H, _>((a, b, c.clone()))?;
	one::<H, _>((a, b, c.clone(), d))?;
	// a key under a prefix, with the prefix's hashes taken off
	let full = <(u16, u16, Vec<u8>, u64) as MultipartKey<H>>::hash(&(a, b, c.clone(), d));
	for (n, prefix) in [<() as MultipartKey<H>>::hash_prefix_only(&()), <(u16,) as MultipartKey<H>>::hash_prefix_only(&(a,)), <(u16, u16) as MultipartKey<H>>::hash_prefix_only(&(a, b)), <(u16, u16, Vec<u8>) as MultipartKey<H>>::hash_prefix_only(&(a, b, c.clone()))].into_iter().enumerate() {
		check!(full.starts_with(&prefix), "the key of {:?} starts with the hash of its first {n} parts", (a, b, &c, d));
		let rest = &full[prefix.len()..];
		let back = <(u16, u16, Vec<u8>, u64) as MultipartKey<H>>::decode_without_prefix(rest, n as u8);
		check_eq!(back.ok(), Some((a, b, c.clone(), d)), "key read back below a prefix of {n} parts");
	}
	// the tree keeps keys apart and enumerates them by prefix
	chain(&[], || -> R {
		let mut model: BTreeMap<(u64, u8, (u16, u16, Vec<u8>)), u32> = BTreeMap::new();
		for _ in 0..g.usize(1, 12) {
			let m = g.below(3);
			let store = g.below(2) as u8;
			let k = (g.below(3) as u16, g.below(3) as u16 * 256, g.bytes(0, 1));
			let v = g.below(1000) as u32;
			let name: &[u8] = if store == 0 { b"x" } else { b"y" };
			if g.chance(1, 4) {
				StatefulChildTree::<H>::kill(&m, b"pallet", name, &k);
				model.remove(&(m, store, k));
			} else {
				StatefulChildTree::<H>::write(&m, b"pallet", name, &k, v);
				model.insert((m, store, k), v);
			}
		}
		for m in 0..3u64 {
			for (store, name) in [(0u8, b"x"), (1, b"y")] {
				for a in 0..3u16 {
					let mut got: Vec<((u16, u16, Vec<u8>), u32)> = StatefulChildTree::<H>::prefix_iterator(&m, b"pallet", name, &(a,)).collect();
					got.sort();
					let want: Vec<_> = model.iter().filter(|(k, _)| k.0 == m && k.1 == store && k.2 .0 == a).map(|(k, v)| (k.2.clone(), *v)).collect();
					check_eq!(got, want, "entries of account {m} below {a}");
					let b = 256;
					let mut got: Vec<((u16, u16, Vec<u8>), u32)> = StatefulChildTree::<H>::prefix_iterator(&m, b"pallet", name, &(a, b)).collect();
					got.sort();
					let want: Vec<_> = model.iter().filter(|(k, _)| k.0 == m && k.1 == store && k.2 .0 == a && k.2 .1 == b).map(|(k, v)| (k.2.clone(), *v)).collect();
					check_eq!(got, want, "entries of account {m} below {a}, {b}");
				}
			}
		}
		for ((m, store, k), v) in &model {
			let name: &[u8] = if *store == 0 { b"x" } else { b"y" };
			check_eq!(StatefulChildTree::<H>::try_read::<_, u32>(m, b"pallet", name, k), Ok(Some(*v)), "entry {k:?} of account {m}");
		}
		Ok(())
	})
}
fn t05_keys(g: &mut Gen) -> R {
	g.nontrivial();
	match g.below(4) {
		0 => hasher::<world::frame_support::Twox128>(g),
		1 => hasher::<world::frame_support::Twox256>(g),
		2 => hasher::<world::frame_support::Blake2_128>(g),
		_ => hasher::<world::frame_support::Blake2_256>(g),
	}
}
fn t01(g: &mut Gen) -> R {
	history(g, Focus::Items)
}
fn t02(g: &mut Gen) -> R {
	history(g, Focus::Pages)
}
fn t03(g: &mut Gen) -> R {
	history(g, Focus::Hash)
}
fn t04(g: &mut Gen) -> R {
	history(g, Focus::Access)
}
/// One slot, changed more often than its change counter can count: its hash does not come back, with
/// the same content, within 65536 changes.
fn t03_wear(g: &mut Gen) -> R {
	let i = g.below(8);
	reset_knobs();
	g.nontrivial();
	let items = i % 2 == 0;
	let n = if i < 2 { 65_800usize } else { g.usize(300, 2_000) };
	g.note(|| format!("{n} changes of {}", if items { "items" } else { "a page" }));
	let me = key(0);
	chain(&[(me.id.clone(), 1_000_000)], || {
		let (m, _) = Msa::create_account(me.id.clone(), NONE).map_err(|_| "no account")?;
		let location = if items { PayloadLocation::Itemized } else { PayloadLocation::Paginated };
		let s = Schemas::add_schema(Default::default(), ModelType::AvroBinary, location, Default::default(), None).map_err(|_| "no schema")?;
		let data: Vec<u8> = g.bytes(1, 9);
		let mut seen: Vec<u32> = vec![0];
		for at in 0..n {
			let target_hash = seen[at];
			let c: RuntimeCall = if items {
				// the first change adds an item, every later one replaces it by the same
				let mut a = vec![];
				if at > 0 {
					a.push(Item::Delete { index: 0 });
				}
				a.push(Item::Add { data: data.clone().try_into().map_err(|_| "item")? });
				Call::apply_item_actions { state_owner_msa_id: m, schema_id: s, target_hash, actions: a.try_into().map_err(|_| "actions")? }.into()
			} else {
				Call::upsert_page { state_owner_msa_id: m, schema_id: s, page_id: 3, target_hash, payload: data.clone().try_into().map_err(|_| "payload")? }.into()
			};
			let o = call(&me.id, c);
			if at % 50 == 0 {
				System::reset_events();
			}
			check!(o.is_ok(), "change {at} is refused: {}", why(&o));
			let h = if items {
				StatefulStorage::get_itemized_storage(m, s).map_err(|_| "no items")?.content_hash
			} else {
				StatefulStorage::get_paginated_storage(m, s).map_err(|_| "no pages")?.first().ok_or("no page")?.content_hash
			};
			seen.push(h);
			// One coincidence is possible with hashes of 32 bits, two in a row are not.
			let mut d = 1;
			while d <= 32_768 && d + 2 <= at {
				check!(h != seen[at + 1 - d] || seen[at] != seen[at - d], "after {} and {at} changes the hash is what it was {d} changes before: {h:08x}", at + 1);
				d *= 2;
			}
		}
		Ok(())
	})
}
fn main() {
	engine::dict::load(&engine::root(), &["pallet-stateful-storage"]);
	engine::main(vec![
		Property { id: "T01", rule: "histories of direct and signed item actions by 2-4 accounts on 2-7 schemas; non-trivial: at least three writes accepted", aspects: vec![aspect("history", 20_000, 300_000, t01)], known: vec![] },
		Property { id: "T02", rule: "histories of direct and signed page writes and deletions; non-trivial: at least three writes accepted", aspects: vec![aspect("history", 20_000, 300_000, t02)], known: vec![] },
		Property {
			id: "T03",
			rule: "the same histories, earlier accepted signed writes replayed at any later point; non-trivial: at least three writes accepted, one of them signed",
			aspects: vec![aspect("replays", 20_000, 300_000, t03), engine::enumerated("wear", 8, t03_wear)],
			known: vec![Known { signature: "emptied-slot-restarts-counter", probe: probe_restart }, Known { signature: "moved-key-writes-again", probe: probe_moved }],
		},
		Property { id: "T04", rule: "the same histories with changing permissions and keys and forged signatures; non-trivial: one write accepted and one refused for lack of access", aspects: vec![aspect("history", 20_000, 300_000, t04)], known: vec![] },
		Property {
			id: "T05",
			rule: "item lists, byte strings and keys; non-trivial: a list or key, or at least three bytes",
			aspects: vec![aspect("lists", 60_000, 240_000, t05_lists), aspect("bytes", 600_000, 2_400_000, t05_bytes), aspect("keys", 20_000, 60_000, t05_keys), engine::enumerated("many", 5, t05_many)],
			known: vec![],
		},
	]);
}
