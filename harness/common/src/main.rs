//! U01: the shared wire formats against an independent statement of their bytes and texts.
use engine::{aspect, check, check_eq, guarded, Gen, Property, R};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::fmt::Debug;
use world::common_primitives::{node::AccountId, handles::*, messages::*, msa::*, offchain, rpc::RpcEvent, schema::*, stateful_storage::*, utils};
use world::frame_support::BoundedVec;
use world::pallet_msa::{AddKeyData, AddProvider};
use world::pallet_passkey::types::{PasskeyCall, PasskeyPayload, VerifiablePasskeySignature};
use world::pallet_stateful_storage::types::*;
use world::pallet_time_release::ReleaseSchedule;
use world::parity_scale_codec::{Decode, Encode};
use world::sp_core::ConstU32;
use world::sp_runtime::MultiSignature;
use world::*;

// ---- the binary form, stated independently ----------------------------------------------------
#[derive(Default, Clone)]
struct Wire(Vec<u8>);
impl Wire {
	fn new() -> Self {
		Wire(vec![])
	}
	fn raw(mut self, b: &[u8]) -> Self {
		self.0.extend_from_slice(b);
		self
	}
	fn u8(self, n: u8) -> Self {
		self.raw(&[n])
	}
	fn u16(self, n: u16) -> Self {
		self.raw(&n.to_le_bytes())
	}
	fn u32(self, n: u32) -> Self {
		self.raw(&n.to_le_bytes())
	}
	fn u64(self, n: u64) -> Self {
		self.raw(&n.to_le_bytes())
	}
	fn compact(self, n: u128) -> Self {
		if n < 1 << 6 {
			self.u8((n as u8) << 2)
		} else if n < 1 << 14 {
			self.u16((n as u16) << 2 | 1)
		} else if n < 1 << 30 {
			self.u32((n as u32) << 2 | 2)
		} else {
			let mut b = n.to_le_bytes().to_vec();
			while b.last() == Some(&0) {
				b.pop();
			}
			self.u8((b.len() as u8 - 4) << 2 | 3).raw(&b)
		}
	}
	fn bytes(self, b: &[u8]) -> Self {
		self.compact(b.len() as u128).raw(b)
	}
	fn list<T>(self, l: &[T], f: impl Fn(Wire, &T) -> Wire) -> Self {
		let mut w = self.compact(l.len() as u128);
		for x in l {
			w = f(w, x);
		}
		w
	}
	fn option<T>(self, o: &Option<T>, f: impl Fn(Wire, &T) -> Wire) -> Self {
		match o {
			None => self.u8(0),
			Some(x) => f(self.u8(1), x),
		}
	}
	fn signature(self, s: &MultiSignature) -> Self {
		match s {
			MultiSignature::Ed25519(x) => self.u8(0).raw(&x.0),
			MultiSignature::Sr25519(x) => self.u8(1).raw(&x.0),
			MultiSignature::Ecdsa(x) => self.u8(2).raw(&x.0),
		}
	}
}
fn hex(b: &[u8]) -> String {
	let mut s = "0x".to_string();
	for x in b {
		s += &format!("{x:02x}");
	}
	s
}
/// The bytes are as stated, read back to the same value, and a part of them does not.
fn wire<T: Encode + Decode + PartialEq + Debug>(g: &mut Gen, x: &T, want: Wire) -> R {
	let got = x.encode();
	check_eq!(got, want.0, "binary form of {x:?}");
	check_eq!(x.encoded_size(), got.len(), "size of the binary form of {x:?}");
	let mut more = got.clone();
	let tail = g.bytes(0, 3);
	more.extend(&tail);
	let mut rest = &more[..];
	let back = guarded(|| T::decode(&mut rest)).map_err(|e| format!("reading {x:?}: {e}"))?;
	let back = back.ok();
	check_eq!(back.as_ref(), Some(x), "value read from the binary form");
	check_eq!(rest, &tail[..], "rest after reading {x:?}");
	if !got.is_empty() {
		let cut = g.usize(0, got.len() - 1);
		let short = guarded(|| T::decode(&mut &got[..cut])).map_err(|e| format!("reading {cut} bytes of {x:?}: {e}"))?;
		check!(short.is_err(), "{cut} of {} bytes of {x:?} are read as {:?}", got.len(), short);
	}
	Ok(())
}
/// The text is as stated and reads back to the same value.
fn text<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T, want: Value) -> R {
	let got = serde_json::to_value(x).map_err(|e| format!("text form of {x:?}: {e}"))?;
	check_eq!(got, want, "text form of {x:?}");
	let s = serde_json::to_string(x).map_err(|e| format!("text form of {x:?}: {e}"))?;
	let back: T = serde_json::from_str(&s).map_err(|e| format!("reading {s}: {e}"))?;
	check_eq!(&back, x, "value read from {s}");
	Ok(())
}
fn without_nulls(v: Value, optional: &[&str]) -> Value {
	let mut v = v;
	if let Some(o) = v.as_object_mut() {
		o.retain(|k, x| !(x.is_null() && optional.contains(&k.as_str())));
	}
	v
}

// ---- values -----------------------------------------------------------------------------------
fn n64(g: &mut Gen) -> u64 {
	g.int(0, u64::MAX)
}
fn n32(g: &mut Gen) -> u32 {
	g.int(0, u32::MAX as u64) as u32
}
fn n16(g: &mut Gen) -> u16 {
	g.int(0, u16::MAX as u64) as u16
}
fn data(g: &mut Gen) -> Vec<u8> {
	match g.weighted(&[30, 6, 1]) {
		0 => g.bytes(0, 12),
		1 => {
			let n = g.usize(0, 200);
			let b = g.byte();
			(0..n).map(|i| b.wrapping_add(i as u8)).collect()
		},
		_ => vec![g.byte(); *g.pick(&[63, 64, 65, 3072, 16383, 16384, 65536])],
	}
}
/// Text of all widths, with quotes, controls and joined characters.
fn letters(g: &mut Gen) -> Vec<u8> {
	let n = g.usize(0, 8);
	let mut s = String::new();
	for _ in 0..n {
		match g.weighted(&[5, 2, 2, 1]) {
			0 => s.push((b' ' + g.below(95) as u8) as char),
			1 => s.push(char::from_u32(g.int(0, 0x10FFFF) as u32).unwrap_or('\u{FFFD}')),
			2 => s.push(*g.pick(&['"', '\\', '\n', '\0', '\u{7f}', '/', 'é', '漢', '\u{1F600}', '\u{200D}', '\u{FEFF}'])),
			_ => { let t: &&str = g.pick(&["null", "0x", "\\u0000", "{}"]); s.push_str(t) },
		}
	}
	s.into_bytes()
}
fn utf8(b: &[u8]) -> String {
	String::from_utf8(b.to_vec()).unwrap_or_default()
}
fn list<T>(g: &mut Gen, max: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
	let n = g.usize(0, max);
	(0..n).map(|_| f(g)).collect()
}
fn maybe<T>(g: &mut Gen, mut f: impl FnMut(&mut Gen) -> T) -> Option<T> {
	if g.bool() { Some(f(g)) } else { None }
}
const MODELS: [(ModelType, &str); 2] = [(ModelType::AvroBinary, "AvroBinary"), (ModelType::Parquet, "Parquet")];
const PLACES: [(PayloadLocation, &str); 4] =
	[(PayloadLocation::OnChain, "OnChain"), (PayloadLocation::IPFS, "IPFS"), (PayloadLocation::Itemized, "Itemized"), (PayloadLocation::Paginated, "Paginated")];
const SETTINGS: [(SchemaSetting, &str); 2] = [(SchemaSetting::AppendOnly, "AppendOnly"), (SchemaSetting::SignatureRequired, "SignatureRequired")];

fn u01_values(g: &mut Gen) -> R {
	let kind = g.below(14);
	match kind {
		0 => {
			let (m, l) = (g.below(2) as usize, g.below(4) as usize);
			let s: Vec<usize> = list(g, 3, |g| g.below(2) as usize);
			let names: Vec<&str> = s.iter().map(|i| SETTINGS[*i].1).collect();
			let set: Vec<SchemaSetting> = s.iter().map(|i| SETTINGS[*i].0).collect();
			let id = n16(g);
			// a setting is numbered by its bit
			let tail = |w: Wire| w.u8(m as u8).u8(l as u8).list(&s, |w, i| w.u8(1 << *i));
			let x = SchemaInfoResponse { schema_id: id, model_type: MODELS[m].0, payload_location: PLACES[l].0, settings: set.clone() };
			wire(g, &x, tail(Wire::new().u16(id)))?;
			text(&x, json!({ "schema_id": id, "model_type": MODELS[m].1, "payload_location": PLACES[l].1, "settings": names }))?;
			let t = letters(g);
			let x = SchemaResponse { schema_id: id, model: t.clone(), model_type: MODELS[m].0, payload_location: PLACES[l].0, settings: set };
			wire(g, &x, tail(Wire::new().u16(id).bytes(&t)))?;
			text(&x, json!({ "schema_id": id, "model": utf8(&t), "model_type": MODELS[m].1, "payload_location": PLACES[l].1, "settings": names }))?;
		},
		1 => {
			let (t, v, id) = (letters(g), g.byte(), n16(g));
			let x = SchemaVersionResponse { schema_name: t.clone(), schema_version: v, schema_id: id };
			wire(g, &x, Wire::new().bytes(&t).u8(v).u16(id))?;
			text(&x, json!({ "schema_name": utf8(&t), "schema_version": v, "schema_id": id }))?;
		},
		2 => {
			let n = n64(g);
			wire(g, &DelegatorId(n), Wire::new().u64(n))?;
			wire(g, &ProviderId(n), Wire::new().u64(n))?;
			text(&DelegatorId(n), json!(n))?;
			text(&ProviderId(n), json!(n))?;
			check_eq!((u64::from(DelegatorId::from(n)), u64::from(ProviderId::from(n))), (n, n), "id converted and back");
		},
		3 => {
			let p = n64(g);
			let l: Vec<(u16, u32)> = list(g, 4, |g| (n16(g), n32(g)));
			let x = DelegationResponse { provider_id: ProviderId(p), permissions: l.iter().map(|(a, b)| SchemaGrant::new(*a, *b)).collect::<Vec<_>>() };
			wire(g, &x, Wire::new().u64(p).list(&l, |w, (a, b)| w.u16(*a).u32(*b)))?;
			let j: Vec<Value> = l.iter().map(|(a, b)| json!({ "schema_id": a, "revoked_at": b })).collect();
			text(&x, json!({ "provider_id": p, "permissions": j }))?;
			// equal means equal
			let mut y = x.clone();
			match g.below(3) {
				0 => y.provider_id = ProviderId(p.wrapping_add(1)),
				1 => y.permissions.push(SchemaGrant::new(0, 0)),
				_ => match y.permissions.first_mut() {
					Some(s) => if g.bool() { s.schema_id ^= 1 } else { s.revoked_at ^= 1 << g.below(32) },
					None => y.permissions.push(SchemaGrant::new(1, 1)),
				},
			}
			check!(x != y, "{x:?} and {y:?} are taken for the same");
			let d = |r: u32, l: &[(u16, u32)]| {
				let mut d = Delegation::<u16, u32, ConstU32<8>> { revoked_at: r, schema_permissions: Default::default() };
				for (a, b) in l {
					let _ = d.schema_permissions.try_insert(*a, *b);
				}
				d
			};
			let r = n32(g);
			let a = d(r, &l);
			let sorted: std::collections::BTreeMap<u16, u32> = l.iter().cloned().collect();
			let sorted: Vec<(u16, u32)> = sorted.into_iter().collect();
			wire(g, &a, Wire::new().u32(r).list(&sorted, |w, (a, b)| w.u16(*a).u32(*b)))?;
			check!(a != d(r ^ 1, &l), "delegations revoked at different times are taken for the same");
			let mut more = l.clone();
			more.push((l.iter().map(|x| x.0).max().unwrap_or(0).wrapping_add(1), 7));
			check!(a != d(r, &more) || sorted.iter().any(|x| *x == more[more.len() - 1]), "delegations with different schemas are taken for the same");
		},
		4 => {
			let m = n64(g);
			let l: Vec<u64> = list(g, 4, n64);
			let x = KeyInfoResponse { msa_id: m, msa_keys: l.clone() };
			wire(g, &x, Wire::new().u64(m).list(&l, |w, n| w.u64(*n)))?;
			text(&x, json!({ "msa_id": m, "msa_keys": l }))?;
		},
		5 => {
			let (p, i, b) = (n64(g), n16(g), n32(g));
			let (m, d, l) = (maybe(g, n64), maybe(g, data), maybe(g, n32));
			// the identifier of content is never empty; empty and absent are the same in text
			let c = maybe(g, letters).filter(|c| !c.is_empty());
			let x = MessageResponse { provider_msa_id: p, index: i, block_number: b, msa_id: m, payload: d.clone(), cid: c.clone(), payload_length: l };
			let w = Wire::new().u64(p).u16(i).u32(b).option(&m, |w, n| w.u64(*n)).option(&d, |w, b| w.bytes(b)).option(&c, |w, b| w.bytes(b)).option(&l, |w, n| w.u32(*n));
			wire(g, &x, w)?;
			let j = json!({ "provider_msa_id": p, "index": i, "block_number": b, "msa_id": m, "payload": d.map(|d| hex(&d)), "cid": c.map(|c| utf8(&c)), "payload_length": l });
			let j = without_nulls(j, &["msa_id", "payload", "cid", "payload_length"]);
			text(&x, j.clone())?;
			let page = BlockPaginationResponse { content: vec![x.clone(); g.usize(0, 2)], has_next: g.bool(), next_block: maybe(g, n32), next_index: maybe(g, n32) };
			let e = x.encode();
			wire(g, &page, Wire::new().list(&page.content, |w, _| w.raw(&e)).u8(page.has_next as u8).option(&page.next_block, |w, n| w.u32(*n)).option(&page.next_index, |w, n| w.u32(*n)))?;
			let j = json!({ "content": vec![j; page.content.len()], "has_next": page.has_next, "next_block": page.next_block, "next_index": page.next_index });
			text(&page, without_nulls(j, &["next_block", "next_index"]))?;
		},
		6 => {
			let (a, b, mut c, mut d) = (n32(g), n32(g), n32(g), n32(g));
			if g.chance(3, 4) {
				c = a.wrapping_add(*g.pick(&[0, 1, 2, 49_999, 50_000, 50_001, u32::MAX]));
			}
			if g.chance(3, 4) {
				d = *g.pick(&[0, 1, 2, 9_999, 10_000, 10_001]);
			}
			let x = BlockPaginationRequest { from_block: a, from_index: b, to_block: c, page_size: d };
			wire(g, &x, Wire::new().u32(a).u32(b).u32(c).u32(d))?;
			text(&x, json!({ "from_block": a, "from_index": b, "to_block": c, "page_size": d }))?;
			let want = d >= 1 && d <= 10_000 && c > a && (c as u64) - (a as u64) <= 50_000;
			check_eq!(guarded(|| x.validate()), Ok(want), "validity of {x:?}");
		},
		7 => {
			let (a, b, n) = (letters(g), letters(g), n16(g));
			let x = HandleResponse { base_handle: a.clone(), canonical_base: b.clone(), suffix: n };
			wire(g, &x, Wire::new().bytes(&a).bytes(&b).u16(n))?;
			text(&x, json!({ "base_handle": utf8(&a), "canonical_base": utf8(&b), "suffix": n }))?;
			let l: Vec<u16> = list(g, 4, n16);
			let x = PresumptiveSuffixesResponse { base_handle: a.clone(), suffixes: l.clone() };
			wire(g, &x, Wire::new().bytes(&a).list(&l, |w, n| w.u16(*n)))?;
			text(&x, json!({ "base_handle": utf8(&a), "suffixes": l }))?;
			let e = n32(g);
			let x = ClaimHandlePayload::<u32>::new(b.clone(), e);
			wire(g, &x, Wire::new().bytes(&b).u32(e))?;
		},
		8 => {
			let (a, m, s, h, n, d) = (n16(g), n64(g), n16(g), n32(g), n16(g), data(g));
			let x = PaginatedStorageResponse::new(a, m, s, h, n, d.clone());
			wire(g, &x, Wire::new().u16(a).u64(m).u16(s).u32(h).u16(n).bytes(&d))?;
			text(&x, json!({ "page_id": a, "msa_id": m, "schema_id": s, "content_hash": h, "nonce": n, "payload": hex(&d) }))?;
			let l: Vec<(u16, Vec<u8>)> = list(g, 3, |g| (n16(g), g.bytes(0, 5)));
			let items: Vec<_> = l.iter().map(|(i, d)| ItemizedStorageResponse::new(*i, d.clone())).collect();
			let x = ItemizedStoragePageResponse::new(m, s, h, n, items);
			wire(g, &x, Wire::new().u64(m).u16(s).u32(h).u16(n).list(&l, |w, (i, d)| w.u16(*i).bytes(d)))?;
			let j: Vec<Value> = l.iter().map(|(i, d)| json!({ "index": i, "payload": hex(d) })).collect();
			text(&x, json!({ "msa_id": m, "schema_id": s, "content_hash": h, "nonce": n, "items": j }))?;
		},
		9 => {
			let (p, a, b, d) = (maybe(g, n32), g.byte(), g.byte(), data(g));
			let x = RpcEvent { phase: p, pallet: a, event: b, data: d.clone() };
			wire(g, &x, Wire::new().option(&p, |w, n| w.u32(*n)).u8(a).u8(b).bytes(&d))?;
			text(&x, json!({ "phase": p, "pallet": a, "event": b, "data": hex(&d) }))?;
		},
		// what users sign
		10 => {
			let (m, e) = (n64(g), n32(g));
			let l: Vec<u16> = list(g, 4, n16);
			let x = AddProvider { authorized_msa_id: m, schema_ids: l.clone(), expiration: e };
			wire(g, &x, Wire::new().u64(m).list(&l, |w, n| w.u16(*n)).u32(e))?;
			let k = key(g.below(8) as u32).id;
			let x = AddKeyData::<Runtime> { msa_id: m, expiration: e, new_public_key: k.clone() };
			wire(g, &x, Wire::new().u64(m).u32(e).raw(k.as_ref()))?;
			let x = ReleaseSchedule::<u32, u128> { start: e, period: n32(g), period_count: n32(g), per_period: g.int_u128(u128::MAX) };
			wire(g, &x, Wire::new().u32(e).u32(x.period).u32(x.period_count).compact(x.per_period))?;
		},
		11 => {
			let (m, s, h, e) = (n64(g), n16(g), n32(g), n32(g));
			let l: Vec<Result<Vec<u8>, u16>> = list(g, 3, |g| if g.bool() { Ok(g.bytes(0, 5)) } else { Err(n16(g)) });
			let actions: Vec<_> = l.iter().map(|a| match a {
				Ok(d) => ItemAction::Add { data: BoundedVec::try_from(d.clone()).unwrap_or_default() },
				Err(i) => ItemAction::Delete { index: *i },
			}).collect();
			let actions: BoundedVec<_, _> = BoundedVec::try_from(actions).map_err(|_| "too many actions")?;
			let tail = |w: Wire| w.u32(e).list(&l, |w, a| match a {
				Ok(d) => w.u8(0).bytes(d),
				Err(i) => w.u8(1).u16(*i),
			});
			let x = ItemizedSignaturePayload::<Runtime> { msa_id: m, schema_id: s, target_hash: h, expiration: e, actions: actions.clone() };
			wire(g, &x, tail(Wire::new().compact(m as u128).compact(s as u128).compact(h as u128)))?;
			let x = ItemizedSignaturePayloadV2::<Runtime> { schema_id: s, target_hash: h, expiration: e, actions };
			wire(g, &x, tail(Wire::new().compact(s as u128).compact(h as u128)))?;
		},
		12 => {
			let (m, s, p, h, e, d) = (n64(g), n16(g), n16(g), n32(g), n32(g), g.bytes(0, 20));
			let b: BoundedVec<u8, _> = BoundedVec::try_from(d.clone()).map_err(|_| "too long")?;
			let head = |v: u8| {
				let w = if v == 1 { Wire::new().compact(m as u128) } else { Wire::new() };
				w.compact(s as u128).compact(p as u128).compact(h as u128).u32(e)
			};
			wire(g, &PaginatedUpsertSignaturePayload::<Runtime> { msa_id: m, schema_id: s, page_id: p, target_hash: h, expiration: e, payload: b.clone() }, head(1).bytes(&d))?;
			wire(g, &PaginatedUpsertSignaturePayloadV2::<Runtime> { schema_id: s, page_id: p, target_hash: h, expiration: e, payload: b }, head(2).bytes(&d))?;
			wire(g, &PaginatedDeleteSignaturePayload::<Runtime> { msa_id: m, schema_id: s, page_id: p, target_hash: h, expiration: e }, head(1))?;
			wire(g, &PaginatedDeleteSignaturePayloadV2::<Runtime> { schema_id: s, page_id: p, target_hash: h, expiration: e }, head(2))?;
		},
		_ => {
			let k = key(g.below(8) as u32);
			let mut pk = [0u8; 33];
			for b in pk.iter_mut() {
				*b = g.byte();
			}
			let (a, b, c, n) = (g.bytes(0, 10), g.bytes(0, 10), g.bytes(0, 10), n32(g));
			let proof = k.sign(&pk);
			let call: RuntimeCall = world::frame_system::Call::<Runtime>::remark_with_event { remark: g.bytes(0, 5) }.into();
			let bound = |v: &Vec<u8>| v.clone();
			let x = PasskeyPayload::<Runtime> {
				passkey_public_key: pk,
				verifiable_passkey_signature: VerifiablePasskeySignature {
					signature: bound(&a).try_into().map_err(|_| "long")?,
					authenticator_data: bound(&b).try_into().map_err(|_| "long")?,
					client_data_json: bound(&c).try_into().map_err(|_| "long")?,
				},
				passkey_call: PasskeyCall { account_id: k.id.clone(), account_nonce: n, account_ownership_proof: proof.clone(), call: Box::new(call.clone()) },
			};
			wire(g, &x, Wire::new().raw(&pk).bytes(&a).bytes(&b).bytes(&c).raw(k.id.as_ref()).u32(n).signature(&proof).raw(&call.encode()))?;
			let p = SignatureRegistryPointer { newest: proof.clone(), newest_expires_at: n, oldest: k.sign_raw(b"x"), count: n ^ 5 };
			wire(g, &p, Wire::new().signature(&p.newest).u32(n).signature(&p.oldest).u32(n ^ 5))?;
			let e = ProviderRegistryEntry::<ConstU32<16>> { provider_name: BoundedVec::try_from(a.clone()).map_err(|_| "long")? };
			wire(g, &e, Wire::new().bytes(&a))?;
		},
	}
	g.label(*["schema", "schema version", "ids", "delegation", "keys", "message", "page request", "handle", "stored data", "event", "account payloads", "item payloads", "page payloads", "passkey"].get(kind as usize).unwrap_or(&""));
	g.nontrivial();
	Ok(())
}
/// Every pattern of bits of the settings.
fn u01_settings(g: &mut Gen) -> R {
	let n = g.below(65_536) as u16;
	let d = guarded(|| SchemaSettings::decode(&mut &n.to_le_bytes()[..])).map_err(|e| format!("settings {n:#x}: {e}"))?;
	check_eq!(d.is_ok(), n < 4, "whether the settings {n:#018b} are known");
	if let Ok(s) = d {
		check_eq!(s.encode(), n.to_le_bytes().to_vec(), "binary form of the settings {n:#b}");
		let mut made = SchemaSettings::all_disabled();
		for (i, (x, name)) in SETTINGS.iter().enumerate() {
			check_eq!(s.is_enabled(*x), n >> i & 1 == 1, "whether {name} is on in {n:#b}");
			check_eq!(s.get_enabled().contains(*x), n >> i & 1 == 1, "whether {name} is listed in {n:#b}");
			check!(!SchemaSettings::all_disabled().is_enabled(*x), "{name} is on by default");
			if n >> i & 1 == 1 {
				made.set(*x);
			}
		}
		check_eq!(made, s, "settings put together, {n:#b}");
		check_eq!(SchemaSettings::from(s.get_enabled()), s, "settings made of bits {n:#b}");
	}
	g.nontrivial();
	Ok(())
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Texts {
	#[serde(with = "utils::as_hex")]
	a: Vec<u8>,
	#[serde(with = "utils::as_hex_option", default, skip_serializing_if = "Option::is_none")]
	b: Option<Vec<u8>>,
	#[serde(with = "utils::as_string")]
	c: Vec<u8>,
	#[serde(with = "utils::as_string_option", default, skip_serializing_if = "Option::is_none")]
	d: Option<Vec<u8>>,
}
fn u01_texts(g: &mut Gen) -> R {
	let any = |g: &mut Gen| if g.chance(3, 4) { letters(g) } else { g.bytes(0, 6) };
	let x = Texts { a: data(g), b: maybe(g, data), c: any(g), d: maybe(g, any).filter(|d| !d.is_empty()) };
	let is_text = |b: &Vec<u8>| std::str::from_utf8(b).is_ok();
	let good = is_text(&x.c) && x.d.as_ref().map_or(true, is_text);
	match serde_json::to_string(&x) {
		Err(e) => check!(!good, "{x:?} has no text form: {e}"),
		Ok(s) => {
			check!(good, "bytes that are no text, {x:?}, are written as {s}");
			let j = json!({ "a": hex(&x.a), "b": x.b.as_ref().map(|b| hex(b)), "c": utf8(&x.c), "d": x.d.as_ref().map(|d| utf8(d)) });
			text(&x, without_nulls(j, &["b", "d"]))?;
		},
	}
	// text that is not hexadecimal is refused
	let mut h: Vec<char> = hex(&x.a).chars().collect();
	if h.len() > 2 {
		let bad = match g.below(3) {
			0 => *g.pick(&['g', 'G', 'x', ' ', '-', '+', '.', '_', '\0', '/', ':', '@', '`']),
			1 => char::from_u32(g.int(0x80, 0x10FFFF) as u32).unwrap_or('é'),
			_ => (b' ' + g.below(95) as u8) as char,
		};
		let i = g.usize(2, h.len() - 1);
		h[i] = bad;
		let s: String = h.iter().collect();
		let v = json!({ "a": s, "c": "" });
		let back = serde_json::from_value::<Texts>(v);
		if bad.is_ascii_hexdigit() {
			let mut want = x.a.clone();
			let d = bad.to_digit(16).unwrap_or(0) as u8;
			let b = &mut want[(i - 2) / 2];
			*b = if i % 2 == 0 { *b & 0x0f | d << 4 } else { *b & 0xf0 | d };
			check_eq!(back.map(|t| t.a).ok(), Some(want), "bytes read from {s}");
		} else {
			check!(back.is_err(), "{s:?} is read as the bytes {:?}", back.map(|t| t.a));
			let v = json!({ "a": "0x", "b": s, "c": "" });
			let back = serde_json::from_value::<Texts>(v);
			check!(back.is_err(), "{s:?} is read as the bytes {:?}", back.map(|t| t.b));
		}
	}
	g.nontrivial();
	Ok(())
}
/// What is wrapped for signing, the names of stored values, and the known chains.
fn u01_names(g: &mut Gen) -> R {
	let a = match g.below(3) {
		0 => data(g),
		1 => [b"<Bytes>".as_slice(), &g.bytes(0, 3), b"</Bytes>"].concat(),
		_ => [&g.bytes(0, 3)[..], b"</Bytes>"].concat(),
	};
	let a = if g.chance(1, 200) { [a, vec![g.byte(); g.usize(1 << 16, 1 << 18)]].concat() } else { a };
	check!(utils::wrap_binary_data(a.clone()) == wrapped(&a), "data of {} bytes wrapped for signing is not the data between the two marks: {:?}...", a.len(), &a[..a.len().min(20)]);
	let m = n64(g);
	check_eq!(offchain::get_msa_account_storage_key_name(m), format!("Msa::ofw::keys::{m}").into_bytes(), "name of the list of keys of account {m}");
	check_eq!(offchain::get_msa_account_lock_name(m), format!("Msa::ofw::lock::{m}").into_bytes(), "name of the lock of account {m}");
	let main: [u8; 32] = unhex("4a587bf17a404e3572747add7aab7bbe56e805a5479c6c436f07f36fcc8d3ae1");
	let paseo: [u8; 32] = unhex("203c6838fc78ea3660a2f298a58d859519c72a5efdc0f194abd6f0d5ce1838e0");
	let mut h = match g.below(3) {
		0 => main,
		1 => paseo,
		_ => {
			let b = g.byte();
			[b; 32]
		},
	}
	.to_vec();
	match g.weighted(&[3, 2, 1, 1]) {
		1 => h[g.usize(0, 31)] ^= 1 << g.below(8),
		2 => h.truncate(g.usize(0, 31)),
		3 => h.push(g.byte()),
		_ => {},
	}
	let want = if h == main { utils::DetectedChainType::FrequencyMainNet } else if h == paseo { utils::DetectedChainType::FrequencyPaseoTestNet } else { utils::DetectedChainType::Unknown };
	check_eq!(utils::get_chain_type_by_genesis_hash(&h), want, "chain with the genesis hash {}", hex(&h));
	g.nontrivial();
	Ok(())
}
fn unhex(s: &str) -> [u8; 32] {
	let mut out = [0; 32];
	for (i, o) in out.iter_mut().enumerate() {
		*o = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0);
	}
	out
}
/// What remote clients are told about events is what was deposited.
fn u01_events(g: &mut Gen) -> R {
	use world::frame_system::{EventRecord, Phase};
	let (m, s) = (n64(g), n16(g));
	let k = key(g.below(6) as u32).id;
	let e: RuntimeEvent = match g.below(6) {
		0 => pallet_msa::Event::<Runtime>::MsaCreated { msa_id: m, key: k.clone() }.into(),
		1 => pallet_msa::Event::<Runtime>::DelegationGranted { provider_id: ProviderId(m), delegator_id: DelegatorId(m ^ 1) }.into(),
		2 => pallet_schemas::Event::<Runtime>::SchemaCreated { key: k.clone(), schema_id: s }.into(),
		3 => pallet_handles::Event::<Runtime>::HandleClaimed { msa_id: m, handle: if g.chance(1, 8) { vec![g.byte(); g.usize(10, 70_000)] } else { g.bytes(0, 9) } }.into(),
		4 => pallet_stateful_storage::Event::<Runtime>::PaginatedPageDeleted { msa_id: m, schema_id: s, page_id: n16(g), prev_content_hash: n32(g) }.into(),
		_ => pallet_messages::Event::<Runtime>::MessagesInBlock.into(),
	};
	let n = n32(g);
	let phase = match g.below(3) {
		0 => Phase::ApplyExtrinsic(n),
		1 => Phase::Finalization,
		_ => Phase::Initialization,
	};
	let want = if let Phase::ApplyExtrinsic(i) = phase { Some(i) } else { None };
	let bytes = e.encode();
	let record = EventRecord { phase, event: e.clone(), topics: vec![world::sp_core::H256::repeat_byte(g.byte()); g.usize(0, 2)] };
	let x = RpcEvent::from(record);
	check_eq!(x.phase, want, "transaction of the event {e:?}");
	check_eq!([&[x.pallet, x.event][..], &x.data].concat(), bytes, "content of the event {e:?}");
	g.nontrivial();
	Ok(())
}
/// Arbitrary bytes: reading them never crashes, and what is read is written and read again the same.
fn u01_bytes(g: &mut Gen) -> R {
	let mut b = g.bytes(0, 60);
	if g.chance(1, 4) {
		// enormous lengths
		let i = g.usize(0, b.len());
		b.splice(i..i, *g.pick(&[[0xfe, 0xff, 0xff, 0xff], [0x03, 0xff, 0xff, 0xff], [0x0b, 0xff, 0xff, 0xff], [0x02, 0x00, 0x00, 0x00]]));
	}
	let mut read = 0;
	macro_rules! go {
		($($t:ty),* $(,)?) => {$(
			let d = guarded(|| <$t>::decode(&mut &b[..])).map_err(|e| format!("reading {:?} as {}: {e}", b, stringify!($t)))?;
			if let Ok(x) = d {
				read += 1;
				let again = <$t>::decode(&mut &x.encode()[..]);
				let again = again.ok();
				check_eq!(again.as_ref(), Some(&x), "{} written and read again", stringify!($t));
			}
		)*};
	}
	go!(
		ModelType, PayloadLocation, SchemaSetting, SchemaSettings, SchemaResponse, SchemaInfoResponse, SchemaVersionResponse, DelegatorId, ProviderId, DelegationResponse<u16, u32>,
		Delegation<u16, u32, ConstU32<3>>, ProviderRegistryEntry<ConstU32<4>>, KeyInfoResponse<AccountId>, MessageResponse, BlockPaginationRequest,
		BlockPaginationResponse<MessageResponse>, HandleResponse, PresumptiveSuffixesResponse, ClaimHandlePayload<u32>, PaginatedStorageResponse, ItemizedStoragePageResponse, RpcEvent,
		AddProvider, AddKeyData<Runtime>, ItemizedSignaturePayload<Runtime>, ItemizedSignaturePayloadV2<Runtime>, PaginatedUpsertSignaturePayload<Runtime>,
		PaginatedDeleteSignaturePayloadV2<Runtime>, PasskeyPayload<Runtime>, ReleaseSchedule<u32, u128>, RuntimeCall,
	);
	// limits of names and lists
	if let Ok(e) = ProviderRegistryEntry::<ConstU32<4>>::decode(&mut &b[..]) {
		check!(e.provider_name.len() <= 4, "a name of {} bytes is read where 4 are allowed", e.provider_name.len());
	}
	if let Ok(e) = Delegation::<u16, u32, ConstU32<3>>::decode(&mut &b[..]) {
		check!(e.schema_permissions.len() <= 3, "a delegation of {} schemas is read where 3 are allowed", e.schema_permissions.len());
	}
	let s = String::from_utf8_lossy(&b).into_owned();
	let _ = guarded(|| (serde_json::from_str::<MessageResponse>(&s).is_ok(), serde_json::from_str::<RpcEvent>(&s).is_ok())).map_err(|e| format!("reading {s:?}: {e}"))?;
	g.label_if(read > 10, "read as more than ten types");
	if read > 3 {
		g.nontrivial();
	}
	Ok(())
}
fn main() {
	engine::dict::load(&engine::root(), &["common-primitives"]);
	engine::main(vec![Property {
		id: "U01",
		rule: "values of all shared structures, every pattern of settings bits, texts, names and events: every case counts. Arbitrary bytes; non-trivial: readable as more than three of the types",
		aspects: vec![
			aspect("values", 200_000, 3_000_000, u01_values),
			engine::enumerated("settings", 65_536, u01_settings),
			aspect("texts", 60_000, 1_000_000, u01_texts),
			aspect("names", 60_000, 1_000_000, u01_names),
			aspect("events", 30_000, 500_000, u01_events),
			aspect("bytes", 100_000, 3_000_000, u01_bytes),
		],
		known: vec![],
	}]);
}
