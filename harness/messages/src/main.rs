//! G01, G02, G03: histories of messages against a reference log.
use engine::{aspect, check, check_eq, Gen, Property, R};
use multibase::Base;
use rpc::messages_rpc::{MessagesApiServer, MessagesHandler};
use std::collections::BTreeMap;
use world::common_primitives::messages::{BlockPaginationRequest, MessageResponse};
use world::common_primitives::schema::{ModelType, PayloadLocation};
use world::frame_support::BoundedVec;
use world::grants::Grants;
use world::parity_scale_codec::Encode;
use world::*;

type Call = pallet_messages::Call<Runtime>;
const NONE: fn(u64) -> world::sp_runtime::DispatchResult = |_| Ok(());

// ---- content addresses ---------------------------------------------------------------------------

fn varint(mut v: u64) -> Vec<u8> {
	let mut out = vec![];
	loop {
		let b = (v & 0x7f) as u8;
		v >>= 7;
		if v == 0 {
			out.push(b);
			return out;
		}
		out.push(b | 0x80);
	}
}
/// A textual content address; Some(bytes) if it is a well-formed version-1 identifier.
fn gen_cid(g: &mut Gen) -> (Vec<u8>, Option<Vec<u8>>) {
	let codec = *g.pick(&[0x55u64, 0x70, 0x71, 0x0129, 0x0200, 0x300539]);
	let hash = *g.pick(&[0x12u64, 0x13, 0x00, 0x1b, 0xb220, 0x16]);
	let n = match g.weighted(&[6, 2, 1, 1]) {
		0 => 32,
		1 => 64,
		2 => g.usize(0, 64),
		_ => 0,
	};
	let mut bytes = [varint(1), varint(codec), varint(hash), varint(n as u64), g.bytes(n, n)].concat();
	let mut good = true;
	let base = *g.pick(&[Base::Base32Lower, Base::Base32Lower, Base::Base58Btc, Base::Base64, Base::Base64Url, Base::Base16Lower, Base::Base32Upper, Base::Base36Lower]);
	match g.weighted(&[14, 1, 1, 1, 1, 1]) {
		0 => {},
		1 => {
			// too short
			let cut = g.usize(1, bytes.len().min(4));
			bytes.truncate(bytes.len() - cut);
			good = false;
		},
		2 => {
			// something after it
			bytes.extend(g.bytes(1, 3));
			good = false;
		},
		3 => {
			// the version-0 form, in another encoding
			bytes = [vec![0x12, 0x20], g.bytes(32, 32)].concat();
			good = false;
		},
		4 => {
			bytes[0] = 0;
			good = false;
		},
		_ => {
			// a digest longer than any supported hash
			bytes = [varint(1), varint(codec), varint(hash), varint(65), g.bytes(65, 65)].concat();
			good = false;
		},
	}
	let mut text = multibase::encode(base, &bytes).into_bytes();
	match g.weighted(&[14, 1, 1, 1, 1, 1]) {
		0 => {},
		5 => {
			// the same with something before or behind it
			let c = *g.pick(&[0u8, 0, b' ', b'\n', b'\t', b'=']);
			if g.chance(2, 3) { text.push(c) } else { text.insert(0, c) }
			good = false;
		},
		1 => {
			// the plain base58 form of version 0
			let b = [vec![0x12, 0x20], g.bytes(32, 32)].concat();
			text = multibase::encode(Base::Base58Btc, b).into_bytes()[1..].to_vec();
			good = false;
		},
		2 => {
			let n = g.usize(0, 3);
			text.truncate(n);
			good = false;
		},
		3 => {
			text[0] = *g.pick(&[b'x', b'!', b'Y', 0xff]);
			good = false;
		},
		_ => {
			let i = g.usize(0, text.len() - 1);
			text[i] = *g.pick(&[b'!', b' ', 0xff, b'\n']);
			good = false;
		},
	}
	(text, good.then_some(bytes))
}

// ---- the reference log ----------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct Entry {
	index: u16,
	provider: u64,
	author: Option<u64>,
	payload: Option<Vec<u8>>,
	cid: Option<Vec<u8>>,
	length: Option<u32>,
}
#[derive(Default)]
struct Log {
	/// (block, schema)
	entries: BTreeMap<(u32, u16), Vec<Entry>>,
	next: u16,
	total: usize,
}
fn entry(r: &MessageResponse) -> Result<Entry, String> {
	let cid = match &r.cid {
		None => None,
		Some(c) => Some(multibase::decode(std::str::from_utf8(c).map_err(|e| e.to_string())?).map_err(|e| format!("{e:?}"))?.1),
	};
	Ok(Entry { index: r.index, provider: r.provider_msa_id, author: r.msa_id, payload: r.payload.clone(), cid, length: r.payload_length })
}
struct W {
	keys: Vec<Key>,
	msa: Vec<Option<u64>>,
	schemas: BTreeMap<u16, PayloadLocation>,
	grants: Grants,
	log: Log,
	rich: usize,
}
impl W {
	fn any_schema(&self, g: &mut Gen) -> u16 {
		let last = self.schemas.keys().last().map_or(0, |s| *s);
		match g.weighted(&[1, 1, 6]) {
			_ if self.schemas.is_empty() => 1,
			0 => 0,
			1 => last + 1,
			_ => *g.pick(&self.schemas.keys().cloned().collect::<Vec<_>>()),
		}
	}
	fn location(&self, s: u16) -> Option<PayloadLocation> {
		self.schemas.get(&s).cloned()
	}
	fn agrees_on(&self, block: u32, s: u16) -> R {
		let Some(loc) = self.location(s) else { return Ok(()) };
		let got = Messages::get_messages_by_schema_and_block(s, loc, block);
		let want = self.log.entries.get(&(block, s)).cloned().unwrap_or_default();
		check!(got.iter().all(|r| r.block_number == block), "block number in the answer for schema {s} and block {block}: {got:?}");
		let got: Vec<Entry> = got.iter().map(entry).collect::<Result<_, _>>()?;
		check_eq!(got, want, "messages of schema {s} in block {block}");
		Ok(())
	}
	fn agrees(&self) -> R {
		let blocks: std::collections::BTreeSet<u32> = self.log.entries.keys().map(|(b, _)| *b).chain([block(), block() + 1, 0]).collect();
		for b in blocks {
			for s in self.schemas.keys() {
				self.agrees_on(b, *s)?;
			}
		}
		Ok(())
	}
	/// Would this message be accepted, and as what?
	fn judge_onchain(&self, k: usize, behalf: Option<u64>, s: u16, payload: &[u8]) -> Option<Entry> {
		let me = self.msa[k]?;
		let ok = self.location(s) == Some(PayloadLocation::OnChain) && payload.len() <= MaxMessageBytes::get() as usize && behalf.map_or(true, |d| self.grants.permitted(d, me, s));
		ok.then(|| Entry { index: 0, provider: me, author: Some(behalf.unwrap_or(me)), payload: Some(payload.to_vec()), cid: None, length: None })
	}
	fn judge_ipfs(&self, k: usize, s: u16, cid: &Option<Vec<u8>>, length: u32) -> Option<Entry> {
		let me = self.msa[k]?;
		let cid = cid.clone()?;
		// length prefix, identifier, four bytes of payload length
		let size = world::parity_scale_codec::Compact(cid.len() as u32).encode().len() + cid.len() + 4;
		let ok = self.location(s) == Some(PayloadLocation::IPFS) && size <= MaxMessageBytes::get() as usize;
		ok.then(|| Entry { index: 0, provider: me, author: None, payload: None, cid: Some(cid), length: Some(length) })
	}
	fn record(&mut self, s: u16, mut e: Entry) {
		e.index = self.log.next;
		self.log.next += 1;
		self.log.total += 1;
		self.log.entries.entry((block(), s)).or_default().push(e);
	}
	fn gen_message(&self, g: &mut Gen) -> (usize, u16, Call, Option<Entry>, String) {
		let members: Vec<usize> = (0..self.keys.len()).filter(|k| self.msa[*k].is_some()).collect();
		let k = if g.chance(1, 12) || members.is_empty() { g.usize(0, self.keys.len() - 1) } else { *g.pick(&members) };
		let want = if g.bool() { PayloadLocation::OnChain } else { PayloadLocation::IPFS };
		let fitting: Vec<u16> = self.schemas.iter().filter(|s| *s.1 == want).map(|s| *s.0).collect();
		let s = if fitting.is_empty() || g.chance(1, 10) { self.any_schema(g) } else { *g.pick(&fitting) };
		if want == PayloadLocation::OnChain {
			let behalf = match g.weighted(&[3, 5, 1]) {
				0 => None,
				1 => {
					let mine: Vec<u64> = self.grants.pairs().into_iter().filter(|(_, p)| Some(*p) == self.msa[k]).map(|x| x.0).collect();
					if mine.is_empty() {
						Some(g.uint(0, 5))
					} else {
						Some(*g.pick(&mine))
					}
				},
				_ => Some(g.uint(0, 6)),
			};
			let max = MaxMessageBytes::get() as usize;
			let n = match g.weighted(&[8, 2, 1]) {
				0 => g.usize(0, 12),
				1 => *g.pick(&[max, max + 1, max.saturating_sub(1)]),
				_ => 0,
			};
			let payload = if n > 40 { vec![g.byte(); n] } else { g.bytes(n, n) };
			let e = self.judge_onchain(k, behalf, s, &payload);
			let t = format!("key {k} adds {} bytes to schema {s} for {behalf:?}", payload.len());
			(k, s, Call::add_onchain_message { on_behalf_of: behalf, schema_id: s, payload }, e, t)
		} else {
			let (text, good) = gen_cid(g);
			let length = *g.pick(&[0, 1, 1000, u32::MAX]);
			let e = self.judge_ipfs(k, s, &good, length);
			let t = format!("key {k} adds {:?} (well formed: {}) to schema {s}", String::from_utf8_lossy(&text), good.is_some());
			(k, s, Call::add_ipfs_message { schema_id: s, cid: text, payload_length: length }, e, t)
		}
	}
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Log,
	Entitled,
	Pages,
}

fn setup(g: &mut Gen) -> W {
	reset_knobs();
	MaxMessageBytes::set(*g.pick(&[3072, 3072, 45, 60, 200]));
	let keys: Vec<Key> = (0..6).map(key).collect();
	W { keys, msa: vec![None; 6], schemas: BTreeMap::new(), grants: Grants::default(), log: Log::default(), rich: 0 }
}
fn populate(g: &mut Gen, w: &mut W) -> R {
	let n = g.usize(2, 5);
	for i in 0..n {
		scatter_accounts(g);
		let r = Msa::create_account(w.keys[i].id.clone(), NONE);
		w.msa[i] = r.ok().map(|x| x.0);
	}
	if let (Some(m), true) = (w.msa[0], g.bool()) {
		if Msa::add_key(m, &w.keys[5].id, NONE).is_ok() {
			w.msa[5] = Some(m);
		}
	}
	let n = g.usize(2, 6);
	for i in 0..n {
		let loc = match i {
			0 => PayloadLocation::OnChain,
			1 => PayloadLocation::IPFS,
			_ => *g.pick(&[PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated]),
		};
		let model = BoundedVec::try_from(b"{\"a\": 123}".to_vec()).map_err(|_| "model")?;
		scatter_schemas(g);
		let id = Schemas::add_schema(model, ModelType::AvroBinary, loc, BoundedVec::default(), None).map_err(|_| "cannot add a schema")?;
		w.schemas.insert(id, loc);
	}
	w.rich = n;
	Ok(())
}
fn delegate(g: &mut Gen, w: &mut W) {
	let all: Vec<u64> = w.msa.iter().flatten().cloned().collect();
	if all.is_empty() {
		return;
	}
	let (d, p) = (*g.pick(&all), *g.pick(&all));
	if g.chance(1, 4) {
		let pairs = w.grants.pairs();
		if !pairs.is_empty() {
			let (d, p) = *g.pick(&pairs);
			w.grants.revoke(d, p);
			g.note(|| format!("{d} revokes {p}"));
		}
	} else {
		let ids: Vec<u16> = w.schemas.keys().cloned().filter(|_| g.chance(2, 3)).collect();
		let _ = w.grants.grant(d, p, &ids);
		g.note(|| format!("{d} grants {p} {ids:?}"));
	}
}
fn step(g: &mut Gen, w: &mut W, refused: &mut u32) -> R {
	match g.weighted(&[40, 8, 8, 3, 4]) {
		0 => {
			let (k, s, c, e, t) = w.gen_message(g);
			let before = state();
			let o = call(&w.keys[k].id, c);
			g.note(|| format!("{t}: {}", why(&o)));
			check_eq!(o.is_ok(), e.is_some(), "accepted ({}): {t}, limit {}", why(&o), MaxMessageBytes::get());
			match e {
				Some(e) => w.record(s, e),
				None => {
					*refused += 1;
					check_eq!(state(), before, "state after a refused message");
				},
			}
		},
		1 => delegate(g, w),
		2 => {
			announced(w)?;
			if g.chance(1, 5) {
				skip_blocks(g.uint(2, 200) as u32);
			} else {
				next_block();
			}
			w.log.next = 0;
			g.note(|| format!("block {}", block()));
		},
		// a key leaves its account or an account is added
		3 => {
			let k = g.usize(0, w.keys.len() - 1);
			match w.msa[k] {
				Some(m) => {
					if w.msa.iter().filter(|x| **x == Some(m)).count() > 1 && Msa::delete_key_for_msa(m, &w.keys[k].id).is_ok() {
						w.msa[k] = None;
						g.note(|| format!("key {k} leaves {m}"));
					}
				},
				None =>
					if let Ok((m, _)) = Msa::create_account(w.keys[k].id.clone(), NONE) {
						w.msa[k] = Some(m);
						g.note(|| format!("key {k} creates {m}"));
					},
			}
		},
		// several messages of one sender at once: all or nothing
		_ => {
			let n = g.usize(1, 4);
			let mut sender = None;
			let mut list = vec![];
			for _ in 0..n {
				let (k, s, c, e, _) = w.gen_message(g);
				if sender.map_or(true, |x| x == k) {
					sender = Some(k);
					list.push((s, c, e));
				}
			}
			let Some(k) = sender else { return Ok(()) };
			let before = state();
			let calls: Vec<RuntimeCall> = list.iter().map(|x| x.1.clone().into()).collect();
			let o = call(&w.keys[k].id, world::pallet_utility::Call::<Runtime>::batch_all { calls });
			let want = list.iter().all(|x| x.2.is_some());
			g.note(|| format!("key {k} sends a batch of {}: {}", list.len(), why(&o)));
			check_eq!(o.is_ok(), want, "a batch of {} messages accepted ({})", list.len(), why(&o));
			if want {
				for (s, _, e) in list {
					if let Some(e) = e {
						w.record(s, e);
					}
				}
			} else {
				*refused += 1;
				check_eq!(state(), before, "state after a refused batch");
			}
		},
	}
	Ok(())
}
fn history(g: &mut Gen, f: Focus) -> R {
	let mut w = setup(g);
	let balances: Vec<_> = w.keys.iter().map(|k| (k.id.clone(), 1_000_000)).collect();
	let mut refused = 0;
	let r = chain(&balances, || -> R {
		populate(g, &mut w)?;
		for _ in 0..g.usize(0, 4) {
			delegate(g, &mut w);
		}
		g.steps(if f == Focus::Pages { 40 } else { 24 }, |g, _| {
			step(g, &mut w, &mut refused)?;
			if f == Focus::Log {
				w.agrees()?;
			}
			if f == Focus::Pages && g.chance(1, 6) {
				pages(g, &w)?;
			}
			Ok(())
		})?;
		w.agrees()?;
		if f == Focus::Pages {
			pages(g, &w)?;
		}
		Ok(())
	});
	g.label_if(refused > 0, "refusals");
	let enough = match f {
		Focus::Log => w.log.total >= 3,
		Focus::Entitled => w.log.total >= 1 && refused >= 1,
		Focus::Pages => w.log.total >= 4,
	};
	if enough {
		g.nontrivial();
	}
	r
}
/// Reads a range page by page.
fn pages(g: &mut Gen, w: &W) -> R {
	let now = block();
	let h = MessagesHandler::<_, Block>::new(rpc::node());
	let s = w.any_schema(g);
	let busy: Vec<u32> = w.log.entries.keys().map(|x| x.0).collect();
	let near = |g: &mut Gen| -> u32 {
		if busy.is_empty() || g.chance(1, 3) {
			g.uint(0, now as u64 + 3) as u32
		} else {
			(*g.pick(&busy) + g.uint(0, 2) as u32).saturating_sub(1)
		}
	};
	let (mut from, mut to) = (near(g), near(g) + 1);
	if from > to && g.chance(9, 10) {
		std::mem::swap(&mut from, &mut to);
	}
	if g.chance(1, 2) {
		from = 0;
		to = now + 1;
	}
	let page = match g.weighted(&[10, 2, 1]) {
		0 => g.uint(1, 5) as u32,
		1 => *g.pick(&[1, 9_999, 10_000]),
		_ => *g.pick(&[0, 10_001, u32::MAX]),
	};
	if g.chance(1, 30) {
		to = *g.pick(&[from.saturating_add(50_001), u32::MAX, from]);
	} else if g.chance(1, 400) {
		to = from.saturating_add(50_000);
	}
	let first = if g.chance(1, 3) { g.uint(0, 4) as u32 } else { 0 };
	let request = BlockPaginationRequest { from_block: from, from_index: first, to_block: to, page_size: page };
	let answer = h.get_messages_by_schema_id(s, request.clone());
	let valid = (1..=10_000).contains(&page) && from < to && to - from <= 50_000;
	let known = w.location(s).is_some();
	g.note(|| format!("read schema {s} {from}..{to} from {first}, {page} at a time: {}", if answer.is_ok() { "answered" } else { "refused" }));
	check_eq!(answer.is_ok(), valid && known, "reading {request:?} of schema {s} answered (schema known: {known})");
	let Ok(mut answer) = answer else { return Ok(()) };
	let mut want: Vec<(u32, Entry)> = vec![];
	for ((b, x), es) in &w.log.entries {
		if *x == s && (from..to).contains(b) {
			want.extend(es.iter().skip(if *b == from { first as usize } else { 0 }).map(|e| (*b, e.clone())));
		}
	}
	let mut got: Vec<(u32, Entry)> = vec![];
	let mut at = (from, first);
	loop {
		check!(answer.content.len() <= page as usize, "a page of {} with page size {page}", answer.content.len());
		for m in &answer.content {
			got.push((m.block_number, entry(m)?));
		}
		check_eq!((answer.next_block.is_some(), answer.next_index.is_some()), (answer.has_next, answer.has_next), "a next position is named exactly if there is one");
		check!(got.len() <= want.len(), "reading schema {s} {from}..{to} in pages of {page} returned {} messages, the range has {}", got.len(), want.len());
		if !answer.has_next {
			break;
		}
		let next = (answer.next_block.unwrap_or(0), answer.next_index.unwrap_or(0));
		check!(next > at, "the next position {next:?} is not after {at:?}");
		check!(next.1 == 0 || w.log.entries.get(&(next.0, s)).map_or(false, |es| (next.1 as usize) < es.len()), "the next position {next:?} names no message of schema {s}");
		at = next;
		let request = BlockPaginationRequest { from_block: next.0, from_index: next.1, to_block: to, page_size: page };
		answer = h.get_messages_by_schema_id(s, request.clone()).map_err(|e| format!("continuing at {next:?} was refused: {e:?}"))?;
	}
	check_eq!(got, want, "schema {s} read from {from}/{first} to {to} in pages of {page}");
	g.label_if(want.len() > page as usize, "several pages");
	Ok(())
}
/// A block with messages says so, once; others do not.
fn announced(w: &W) -> R {
	let n = events_since(0).iter().filter(|e| matches!(e, RuntimeEvent::Messages(pallet_messages::Event::MessagesInBlock))).count();
	let b = block();
	let any = w.log.entries.iter().any(|((at, _), es)| *at == b && !es.is_empty());
	check_eq!(n, any as usize, "announcements of messages in block {b}, with {} messages", w.log.next);
	Ok(())
}
/// Hundreds of messages in one block, over all schemas.
fn busy(g: &mut Gen) -> R {
	let mut w = setup(g);
	MaxMessageBytes::set(3072);
	let balances: Vec<_> = w.keys.iter().map(|k| (k.id.clone(), 1_000_000)).collect();
	g.nontrivial();
	chain(&balances, || -> R {
		populate(g, &mut w)?;
		for _ in 0..g.usize(1, 2) {
			for i in 0..g.usize(200, 700) {
				let (k, s, c, e, t) = w.gen_message(g);
				let o = call(&w.keys[k].id, c);
				check_eq!(o.is_ok(), e.is_some(), "accepted ({}): message {i}: {t}", why(&o));
				if let Some(e) = e {
					w.record(s, e);
				}
			}
			g.label_if(w.log.next > 256, "more than 256 in a block");
			w.agrees()?;
			announced(&w)?;
			next_block();
			w.log.next = 0;
		}
		w.agrees()
	})
}
/// Many messages in few blocks, ranges and pages at their limits.
fn large(g: &mut Gen) -> R {
	let mut w = setup(g);
	MaxMessageBytes::set(3072);
	let balances: Vec<_> = w.keys.iter().map(|k| (k.id.clone(), 1_000_000)).collect();
	let n = *g.pick(&[9_999usize, 10_000, 10_001, 10_500, 300]);
	let gap = *g.pick(&[0u32, 1, 49_998, 49_998]);
	g.nontrivial();
	chain(&balances, || -> R {
		populate(g, &mut w)?;
		let half = g.usize(0, n);
		let first = *w.schemas.keys().next().ok_or("no schema")?;
		for i in 0..n {
			if i == half {
				skip_blocks(gap + 1);
				w.log.next = 0;
			}
			let payload = (i as u32).to_le_bytes().to_vec();
			let e = w.judge_onchain(0, None, first, &payload).ok_or("the set-up sender may not send")?;
			let o = call(&w.keys[0].id, Call::add_onchain_message { on_behalf_of: None, schema_id: first, payload });
			check!(o.is_ok(), "message {i} refused: {}", why(&o));
			w.record(first, e);
		}
		let total = w.log.total;
		let h = MessagesHandler::<_, Block>::new(rpc::node());
		let page = *g.pick(&[10_000u32, 9_999, 5_000, 10_001]);
		let to = block() + *g.pick(&[0u32, 1, 2]);
		let from = *g.pick(&[to.saturating_sub(50_000), to.saturating_sub(50_000), to.saturating_sub(50_001), 0, 1]);
		let (mut at, mut got) = ((from, 0), 0usize);
		let want: usize = w.log.entries.iter().filter(|((b, _), _)| (from..to).contains(b)).map(|x| x.1.len()).sum();
		loop {
			let a = h.get_messages_by_schema_id(first, BlockPaginationRequest { from_block: at.0, from_index: at.1, to_block: to, page_size: page });
			let valid = page <= 10_000 && at.0 < to && to - at.0 <= 50_000;
			check_eq!(a.is_ok(), valid, "reading {at:?} to {to} in pages of {page}");
			let Ok(a) = a else { return Ok(()) };
			check!(a.content.len() <= page as usize, "a page of {}", a.content.len());
			got += a.content.len();
			match (a.has_next, a.next_block, a.next_index) {
				(false, None, None) => break,
				(true, Some(b), Some(i)) => at = (b, i),
				x => return Err(format!("inconsistent next position {x:?}")),
			}
			check!(got <= total, "more messages than there are");
		}
		check_eq!(got, want, "number of messages read from {from} to {to} in pages of {page}");
		Ok(())
	})
}
fn g01(g: &mut Gen) -> R {
	history(g, Focus::Log)
}
fn g02(g: &mut Gen) -> R {
	history(g, Focus::Entitled)
}
fn g03(g: &mut Gen) -> R {
	history(g, Focus::Pages)
}
fn main() {
	engine::dict::load(&engine::root(), &["pallet-messages"]);
	engine::main(vec![
		Property { id: "G01", rule: "histories of messages by 2-6 keys on 2-6 schemas over several blocks, all queries compared after every step; non-trivial: at least three messages accepted", aspects: vec![aspect("history", 25_000, 400_000, g01), aspect("busy", 150, 4_000, busy)], known: vec![] },
		Property { id: "G02", rule: "the same histories with changing permissions; non-trivial: one message accepted and one refused", aspects: vec![aspect("history", 40_000, 500_000, g02)], known: vec![] },
		Property {
			id: "G03",
			rule: "the same histories, ranges read page by page through the query handler; non-trivial: at least four messages accepted",
			aspects: vec![aspect("history", 20_000, 300_000, g03), aspect("large", 30, 300, large)],
			known: vec![],
		},
	]);
}
