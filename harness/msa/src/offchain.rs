//! M06: the worker's index of keys per account against the chain's key table, under schedules.
use super::*;
use pallet_msa::offchain_storage::{RPC_FINALIZED_BLOCK_REQUEST_BODY, RPC_FINALIZED_BLOCK_REQUEST_URL};
use world::parity_scale_codec::Decode;
use world::sp_core::offchain::{testing, OffchainDbExt, OffchainWorkerExt};
use world::sp_io::TestExternalities;

type Table = BTreeMap<u64, BTreeSet<AccountId>>;

fn table() -> Table {
	let mut t = Table::new();
	for (k, m) in pallet_msa::PublicKeyToMsaId::<Runtime>::iter() {
		t.entry(m).or_default().insert(k);
	}
	t
}
fn hash_of(n: u32) -> [u8; 32] {
	let mut h = [n as u8; 32];
	h[..4].copy_from_slice(&n.to_be_bytes());
	h
}
fn index(db: &testing::TestPersistentOffchainDB, last: u64) -> Result<Table, String> {
	let mut t = Table::new();
	for id in 0..=last + 1 {
		let key = world::common_primitives::offchain::get_msa_account_storage_key_name(id);
		if let Some(raw) = db.persistent.read().get(&key) {
			let v = Vec::<AccountId>::decode(&mut &raw[..]).map_err(|_| format!("the index of account {id} cannot be decoded"))?;
			let s: BTreeSet<AccountId> = v.iter().cloned().collect();
			check_eq!(s.len(), v.len(), "distinct keys in the index of account {id}");
			if !s.is_empty() {
				t.insert(id, s);
			}
		}
	}
	Ok(t)
}
fn names(t: &Table, k: &[Key]) -> String {
	let v: Vec<String> = t.iter().map(|(m, s)| format!("{m}: {:?}", s.iter().map(|x| k.iter().position(|k| k.id == *x).unwrap_or(99)).collect::<Vec<_>>())).collect();
	v.join(", ")
}

pub fn m06(g: &mut Gen) -> R {
	reset_knobs();
	FilterKind::set(2);
	let k: Vec<Key> = (0..NKEYS as u32).map(key).collect();
	let (ext, off) = testing::TestOffchainExt::new();
	let mut t: TestExternalities = chain_storage(&k.iter().map(|k| (k.id.clone(), 1_000_000u128)).collect::<Vec<_>>()).into();
	t.register_extension(OffchainDbExt::new(ext.clone()));
	t.register_extension(OffchainWorkerExt::new(ext));
	let db = t.offchain_db();
	off.write().timestamp = testing_time(1_000_000);
	let now_ms = || off.read().timestamp.unix_millis();
	// whether the removal of processed events reaches the database
	let clears = g.bool();
	let start = g.uint(1, 40) as u32;
	// the chain is old: many changes were counted before this block began
	let counted = if g.chance(1, 4) { u16::MAX - g.below(4) as u16 } else { 0 };
	t.execute_with(|| {
		let k = [world::sp_io::hashing::twox_128(b"Msa"), world::sp_io::hashing::twox_128(b"OffchainIndexEventCount")].concat();
		world::frame_support::storage::unhashed::put(&k, &counted);
		set_block(start - 1);
		next_block();
	});
	let mut at = start;
	let mut tables: BTreeMap<u32, Table> = BTreeMap::new();
	tables.insert(start - 1, Table::new());
	let mut finalized = start.saturating_sub(1).max(1);
	let mut first_run: Option<u32> = None;
	let (mut runs, mut busy, mut deaths) = (0, 0, 0);
	let len = if g.thorough() { 40 } else { 16 };
	let mut stuck = false;
	let mut last = 0u64;
	let worker = |t: &mut TestExternalities, at: u32, reply: Reply, crash: Option<u64>| run_worker(t, &off, at, reply, crash, clears);
	g.steps(len, |g, _| {
		// one block
		let n = g.weighted(&[3, 4, 3, 2, 1]);
		let mut changed = 0;
		for _ in 0..n {
			t.execute_with(|| -> R {
				let i = g.usize(0, NKEYS - 1);
				let who = &k[i].id;
				let mine = Msa::get_owner_of(who);
				let had = table();
				let what = match (mine, g.weighted(&[6, 3, 2])) {
					(None, 2) => {
						// two accounts with one key: the batch as a whole is taken back
						let c: RuntimeCall = MsaCall::create {}.into();
						let r = call(who, pallet_utility::Call::<Runtime>::batch_all { calls: vec![c.clone(), c] });
						format!("creates twice in one batch: {}", why(&r))
					},
					(None, _) => format!("creates an account: {}", why(&call(who, MsaCall::create {}))),
					(Some(m), 0) => {
						let new = g.usize(0, NKEYS - 1);
						let p = AddKeyData::<Runtime> { msa_id: m, expiration: block() + 5, new_public_key: k[new].id.clone() };
						let b = p.encode();
						let r = call(who, MsaCall::add_public_key_to_msa { msa_owner_public_key: who.clone(), msa_owner_proof: k[i].sign(&b), new_key_owner_proof: k[new].sign(&b), add_key_payload: p });
						format!("adds key {new}: {}", why(&r))
					},
					(Some(m), 1) => {
						let keys: Vec<AccountId> = had.get(&m).map(|s| s.iter().cloned().collect()).unwrap_or_default();
						let x = g.pick(&keys).clone();
						let a = apply(who, System::account_nonce(who), &MsaCall::delete_msa_public_key { public_key_to_delete: x.clone() }.into());
						format!("deletes key {:?}: {}", k.iter().position(|k| k.id == x), a.succeeded())
					},
					(Some(_), _) => {
						let a = apply(who, System::account_nonce(who), &MsaCall::retire_msa {}.into());
						format!("retires its account: {}", a.succeeded())
					},
				};
				g.note(|| format!("block {at}: key {i} (account {mine:?}) {what}"));
				changed += (table() != had) as u32;
				Ok(())
			})?;
		}
		if g.chance(1, 250) {
			// a full block: one key opens and closes an account again and again
			let times = *g.pick(&[127u32, 128, 140, 300]);
			let i = t.execute_with(|| (0..NKEYS).find(|i| Msa::get_owner_of(&k[*i].id).is_none()));
			if let Some(i) = i {
				t.execute_with(|| -> R {
					for n in 0..times {
						let made = call(&k[i].id, MsaCall::create {});
						check!(ok(&made), "account {n} of a full block: {}", why(&made));
						let gone = call(&k[i].id, MsaCall::retire_msa {});
						check!(ok(&gone), "retiring account {n} of a full block: {}", why(&gone));
					}
					if g.bool() {
						check!(ok(&call(&k[i].id, MsaCall::create {})), "a last account of a full block");
					}
					Ok(())
				})?;
				changed += 1;
				g.note(|| format!("block {at}: key {i} opens and closes {times} accounts"));
				g.label("full block");
			}
		}
		busy += (changed > 0) as u32;
		tables.insert(at, t.execute_with(table));
		last = t.execute_with(Msa::get_current_msa_identifier_maximum);
		t.persist_offchain_overlay();
		// the worker of this block
		if g.chance(2, 3) {
			let f = g.uint(finalized as u64, (at - 1).max(finalized) as u64) as u32;
			let fail = g.chance(1, 8);
			let locked = g.chance(1, 20) && first_run.is_some();
			if locked {
				// another worker died while it held the lock
				let deadline = (at + 1, now_ms() + 1);
				db.persistent.write().insert(LOCKS[0].to_vec(), deadline.encode());
				stuck = true;
			}
			if !fail {
				finalized = f;
			}
			// before the first block of the history there are no hashes to find
			let known = !fail && f >= start && f < at;
			let crash = if g.chance(1, 8) { Some(g.below(14)) } else { None };
			let reply = if known {
				Reply::Finalized(f)
			} else if fail {
				let right = hash_of(g.uint(finalized as u64, (at - 1).max(finalized) as u64) as u32);
				let result = |r: &str| format!("{{\"jsonrpc\":\"2.0\",\"result\":\"{r}\",\"id\":10}}").into_bytes();
				match g.below(12) {
					0 => Reply::Junk(0, None),
					1 => Reply::Junk(0, Some(b"{\"error\":1}".to_vec())),
					2 => Reply::Junk(0, Some(vec![0xff, 0xfe])),
					3 => Reply::Junk(0, Some(result(*g.pick(&["", "0", "0x", "\u{e9}", "0\u{e9}", "x\u{20ac}"])))),
					4 => Reply::Junk(0, Some(result(&format!("0x{}", &hex(&right)[..g.usize(0, 63)])))),
					5 => Reply::Junk(0, Some(result(&format!("0x{}", "zz".repeat(32))))),
					6 => Reply::Junk(0, Some(b"{\"jsonrpc\":\"2.0\",\"result\":null,\"id\":10}".to_vec())),
					7 => Reply::Junk(0, Some(g.bytes(0, 60))),
					8 | 9 => Reply::Junk(*g.pick(&[100u16, 199, 201, 204, 302, 400, 404, 500, 503]), Some(result(&format!("0x{}", hex(&right))))),
					_ => Reply::Junk(0, Some(result(&format!("0x{}", "ab".repeat(32))))),
				}
			} else {
				Reply::Junk(0, Some(format!("{{\"jsonrpc\":\"2.0\",\"result\":\"0x{}\",\"id\":10}}", "ab".repeat(32)).into_bytes()))
			};
			let what = if known { f.to_string() } else { format!("unknown ({reply:?})") };
			let before = if known { None } else { Some(index(&db, last)?) };
			let died = worker(&mut t, at, reply, crash)?;
			g.note(|| format!("block {at}: worker runs, finalized block {what}{}{}", if locked { ", lock held" } else { "" }, if died { ", dies on the way" } else { "" }));
			if let Some(before) = before {
				let got = index(&db, last)?;
				check!(got == before, "index after a worker that could not learn the finalized block ({what}): [{}], before [{}]", names(&got, &k), names(&before, &k));
				g.label("no-finalized-block");
			}
			if died {
				stuck = true;
				g.label("died");
				deaths += 1;
			}
			if first_run.is_none() && db.persistent.read().get(b"Msa::ofw::initial-indexed".as_slice()).is_some() {
				first_run = Some(at);
			}
			if known && !died {
				runs += 1;
				let covered = first_run.map_or(false, |b| f >= b);
				if !stuck && covered {
					let got = index(&db, last)?;
					check!(got == tables[&f], "index after the worker processed up to block {f}: [{}], the chain at block {f} says [{}]", names(&got, &k), names(&tables[&f], &k));
					g.label("compared-midway");
				}
			}
		} else {
			g.label("worker-skipped");
		}
		// next block
		t.execute_with(|| {
			next_block();
			frame_system::BlockHash::<Runtime>::insert(at, sp_core::H256(hash_of(at)));
		});
		at += 1;
		let dt = g.uint(6_000, 60_000);
		let now = now_ms() + dt;
		off.write().timestamp = testing_time(now);
		if stuck && !locked_now(&db, at, now) {
			stuck = false;
		}
		Ok(())
	})?;
	// quiet blocks later, every lock of a dead worker is gone and every block is final
	for _ in 0..3 {
		for _ in 0..if deaths > 0 { 45 } else { 1 } {
			t.execute_with(|| {
				next_block();
				frame_system::BlockHash::<Runtime>::insert(at, sp_core::H256(hash_of(at)));
			});
			at += 1;
		}
		let now = now_ms() + 100_000;
		off.write().timestamp = testing_time(now);
		worker(&mut t, at, Reply::Finalized(at - 1), None)?;
	}
	let got = index(&db, last)?;
	let want = t.execute_with(table);
	check!(got == want, "index after every block was processed: [{}], the chain says [{}]", names(&got, &k), names(&want, &k));
	if busy >= 2 && runs >= 2 {
		g.nontrivial();
	}
	Ok(())
}
/// Runs the worker in the current block; says whether the node died in it
fn run_worker(t: &mut TestExternalities, off: &Off, at: u32, reply: Reply, crash: Option<u64>, clears: bool) -> Result<bool, String> {
	let mut off_w = off.write();
	off_w.expected_requests.clear();
	let (status, response) = match reply {
		Reply::Finalized(n) => (0, Some(format!("{{\"jsonrpc\":\"2.0\",\"result\":\"0x{}\",\"id\":10}}", hex(&hash_of(n))).into_bytes())),
		Reply::Junk(status, body) => (status, body),
	};
	off_w.expected_requests.push_back(testing::PendingRequest {
		method: "POST".into(),
		uri: RPC_FINALIZED_BLOCK_REQUEST_URL.into(),
		headers: vec![("Content-Type".into(), "application/json".into())],
		body: RPC_FINALIZED_BLOCK_REQUEST_BODY.to_vec(),
		sent: true,
		response,
		response_status: status,
		..Default::default()
	});
	drop(off_w);
	let r = t.execute_with(|| {
		use frame_support::traits::OffchainWorker;
		world::sp_io::offchain::crash_after(crash);
		let r = engine::guarded(|| {
			if clears {
				<Msa as OffchainWorker<u32>>::offchain_worker(at)
			} else {
				frozen(|| <Msa as OffchainWorker<u32>>::offchain_worker(at))
			}
		});
		world::sp_io::offchain::crash_after(None);
		r
	});
	t.persist_offchain_overlay();
	match r {
		Ok(()) => Ok(false),
		Err(e) if e.contains(world::sp_io::offchain::CRASH) => Ok(true),
		Err(e) => Err(format!("the worker of block {at} fails: {e}")),
	}
}
type Off = testing::SharedState;
/// More keys than the first indexing handles before it renews its lock.
pub fn m06_many(g: &mut Gen) -> R {
	reset_knobs();
	FilterKind::set(2);
	let n = if g.chance(1, 3) { g.uint(998, 1002) } else { g.uint(1_990, 2_300) } as u32;
	let ids: Vec<AccountId> = (0..n)
		.map(|i| {
			let mut b = [7u8; 32];
			b[..4].copy_from_slice(&i.to_le_bytes());
			b.into()
		})
		.collect();
	let (ext, off) = testing::TestOffchainExt::new();
	let mut t: TestExternalities = chain_storage(&[]).into();
	t.register_extension(OffchainDbExt::new(ext.clone()));
	t.register_extension(OffchainWorkerExt::new(ext));
	let db = t.offchain_db();
	off.write().timestamp = testing_time(1_000_000);
	let mut at = 1;
	let next = |t: &mut TestExternalities, at: &mut u32, blocks: u32, ms: u64| {
		for _ in 0..blocks {
			t.execute_with(|| {
				next_block();
				frame_system::BlockHash::<Runtime>::insert(*at, sp_core::H256(hash_of(*at)));
			});
			*at += 1;
		}
		t.persist_offchain_overlay();
		let mut o = off.write();
		o.timestamp = testing_time(o.timestamp.unix_millis() + ms);
	};
	t.execute_with(|| {
		set_block(0);
		next_block();
		// several keys on some of the accounts
		let (mut last, mut count) = (0u64, 0u8);
		let most = g.uint(1, 25) as u8;
		for id in &ids {
			if last == 0 || count >= most || g.chance(1, 2) {
				last += 1;
				count = 0;
			}
			pallet_msa::PublicKeyToMsaId::<Runtime>::insert(id, last);
			count += 1;
			let b = last.to_le_bytes();
			let k = [world::sp_io::hashing::twox_128(b"Msa").to_vec(), world::sp_io::hashing::twox_128(b"PublicKeyCountForMsaId").to_vec(), world::sp_io::hashing::twox_64(&b).to_vec(), b.to_vec()].concat();
			world::frame_support::storage::unhashed::put(&k, &count);
		}
		pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::put(last);
	});
	let blocks = g.uint(1, 4) as u32;
	next(&mut t, &mut at, blocks, 12_000);
	if g.bool() {
		// the first attempt does not get to its end
		let upto = g.uint(0, 3 * n as u64);
		let died = run_worker(&mut t, &off, at, Reply::Finalized(at - 1), Some(upto), true)?;
		g.note(|| format!("{n} keys, dies after {upto} writes: {died}"));
		g.label_if(died, "died");
		let gone: Vec<AccountId> = (0..g.uint(1, 5)).map(|_| g.pick(&ids).clone()).collect();
		t.execute_with(|| -> R {
			for who in &gone {
				if let Some(m) = Msa::get_owner_of(who) {
					let other = pallet_msa::PublicKeyToMsaId::<Runtime>::iter().find(|(k, o)| *o == m && k != who).map(|(k, _)| k);
					if let Some(other) = other {
						check!(ok(&call(&other, MsaCall::delete_msa_public_key { public_key_to_delete: who.clone() })), "a key can be deleted by another of its account");
					}
				}
			}
			Ok(())
		})?;
		next(&mut t, &mut at, 45, 100_000);
	}
	for _ in 0..2 {
		run_worker(&mut t, &off, at, Reply::Finalized(at - 1), None, true)?;
		let got = index(&db, n as u64)?;
		let want = t.execute_with(table);
		let wrong = want.iter().find(|(m, k)| got.get(m) != Some(k)).map(|(m, _)| *m).or(got.keys().find(|m| !want.contains_key(m)).copied());
		check!(wrong.is_none(), "the index of {n} keys is wrong for account {wrong:?}: {} keys, the chain has {}", wrong.and_then(|m| got.get(&m)).map_or(0, |s| s.len()), wrong.and_then(|m| want.get(&m)).map_or(0, |s| s.len()));
		next(&mut t, &mut at, 2, 12_000);
	}
	g.nontrivial();
	Ok(())
}
fn testing_time(ms: u64) -> world::sp_core::offchain::Timestamp {
	world::sp_core::offchain::Timestamp::from_unix_millis(ms)
}
const LOCKS: [&[u8]; 2] = [b"Msa::ofw::last-processed-block-lock", b"Msa::ofw::initial-index-lock"];
fn locked_now(db: &testing::TestPersistentOffchainDB, at: u32, now: u64) -> bool {
	LOCKS.iter().any(|l| match db.persistent.read().get(*l) {
		Some(v) => <(u32, u64)>::decode(&mut &v[..]).map_or(false, |(b, t)| !(now > t && at > b)),
		None => false,
	})
}
fn hex(b: &[u8]) -> String {
	b.iter().map(|b| format!("{b:02x}")).collect()
}
/// What the node answers when the worker asks for the finalized block.
enum Reply {
	Finalized(u32),
	Junk(u16, Option<Vec<u8>>),
}
impl std::fmt::Debug for Reply {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		match self {
			Reply::Finalized(n) => write!(f, "block {n}"),
			Reply::Junk(s, None) => write!(f, "status {s}, no answer"),
			Reply::Junk(s, Some(b)) => write!(f, "status {s}, {:?}", String::from_utf8_lossy(b)),
		}
	}
}
