//! sp-io over a per-thread state with undoable writes.
use crate::{core::storage::{ChildInfo, Storage, StateVersion}, offchain::testing::{OffchainState, TestPersistentOffchainDB}, prelude::*};
use parking_lot::RwLock;
use std::{cell::RefCell, collections::BTreeMap, ops::Bound};
pub use crate::hashing;

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
enum Undo { Top(Vec<u8>, Option<Vec<u8>>), Child(Vec<u8>, Vec<u8>, Option<Vec<u8>>), Index(usize) }
#[derive(Default)]
pub struct State {
	pub top: Map,
	pub child: BTreeMap<Vec<u8>, Map>,
	/// Off-chain index writes that are not in the off-chain database yet.
	pub index: Vec<(Vec<u8>, Option<Vec<u8>>)>,
	undo: Vec<Undo>,
	marks: Vec<usize>,
	pub db: TestPersistentOffchainDB,
	pub ext_db: Option<Arc<RwLock<OffchainState>>>,
	pub worker: Option<Arc<RwLock<OffchainState>>>,
	pub keystore: bool,
	pub reads: u64,
	pub writes: u64,
}
impl State {
	fn log(&mut self, u: Undo) { if !self.marks.is_empty() { self.undo.push(u) } }
	fn put(&mut self, k: &[u8], v: Option<Vec<u8>>) {
		self.writes += 1;
		let old = match v { Some(v) => self.top.insert(k.to_vec(), v), None => self.top.remove(k) };
		self.log(Undo::Top(k.to_vec(), old));
	}
	fn put_child(&mut self, c: &[u8], k: &[u8], v: Option<Vec<u8>>) {
		self.writes += 1;
		let m = self.child.entry(c.to_vec()).or_default();
		let old = match v { Some(v) => m.insert(k.to_vec(), v), None => m.remove(k) };
		self.log(Undo::Child(c.to_vec(), k.to_vec(), old));
	}
	fn rollback(&mut self, n: usize) {
		while self.undo.len() > n {
			match self.undo.pop().unwrap() {
				Undo::Top(k, Some(v)) => { self.top.insert(k, v); },
				Undo::Top(k, None) => { self.top.remove(&k); },
				Undo::Child(c, k, v) => {
					let m = self.child.entry(c).or_default();
					match v { Some(v) => { m.insert(k, v); }, None => { m.remove(&k); } }
				},
				Undo::Index(l) => self.index.truncate(l),
			}
		}
	}
	fn digest(&self) -> [u8; 32] {
		let mut d = vec![];
		for (k, v) in &self.top { (k, v).encode_to(&mut d) }
		for (c, m) in &self.child { if !m.is_empty() { d.push(255); c.encode_to(&mut d); for (k, v) in m { (k, v).encode_to(&mut d) } } }
		hashing::blake2_256(&d)
	}
	fn flush_index(&mut self) {
		for (k, v) in std::mem::take(&mut self.index) { self.db.put(b"", &k, v) }
	}
}
thread_local! { static EXT: RefCell<Vec<State>> = RefCell::new(vec![]) }
pub(crate) fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
	EXT.with(|e| f(e.borrow_mut().last_mut().expect("called outside of an Externalities-provided environment")))
}
pub(crate) fn maybe<R>(f: impl FnOnce(&mut State) -> R) -> Option<R> { EXT.with(|e| e.borrow_mut().last_mut().map(f)) }

#[derive(Default)]
pub struct TestExternalities { pub state: State }
struct Back<'a>(&'a mut State);
impl Drop for Back<'_> {
	fn drop(&mut self) {
		let mut s = EXT.with(|e| e.borrow_mut().pop()).unwrap_or_default();
		// A panic may have left transactions open: whatever they wrote is discarded.
		if let Some(m) = s.marks.first().copied() { s.rollback(m); s.marks.clear(); s.undo.clear(); }
		*self.0 = s;
	}
}
pub trait ExtensionHook { fn install(self, s: &mut State); }
impl TestExternalities {
	pub fn new(s: Storage) -> Self {
		let mut t = TestExternalities::default();
		t.state.top = s.top;
		t.state.child = s.children_default.into_iter().map(|(k, c)| (k, c.data)).collect();
		t
	}
	pub fn new_empty() -> Self { Self::default() }
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		let s = std::mem::take(&mut self.state);
		EXT.with(|e| e.borrow_mut().push(s));
		let _b = Back(&mut self.state);
		f()
	}
	pub fn execute_with_sanity<R>(&mut self, f: impl FnOnce() -> R) -> R { self.execute_with(f) }
	pub fn commit_all(&mut self) -> Result<(), String> { self.state.flush_index(); Ok(()) }
	pub fn persist_offchain_overlay(&mut self) { self.state.flush_index() }
	pub fn offchain_db(&self) -> TestPersistentOffchainDB { self.state.db.clone() }
	pub fn register_extension<E: ExtensionHook>(&mut self, e: E) { e.install(&mut self.state) }
	pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) { self.state.top.insert(k, v); }
	pub fn into_storage(self) -> Storage { Storage { top: self.state.top, children_default: Default::default() } }
	pub fn root(&self) -> [u8; 32] { self.state.digest() }
}
impl From<Storage> for TestExternalities { fn from(s: Storage) -> Self { Self::new(s) } }
pub type BasicExternalities = TestExternalities;
impl TestExternalities {
	pub fn execute_with_storage<R>(s: &mut Storage, f: impl FnOnce() -> R) -> R {
		let mut t = Self::new(std::mem::take(s));
		let r = t.execute_with(f);
		s.top = t.state.top;
		for (k, data) in t.state.child { s.children_default.insert(k.clone(), crate::core::storage::StorageChild { data, child_info: ChildInfo(k) }); }
		r
	}
}
fn next_in(m: &Map, k: &[u8]) -> Option<Vec<u8>> { m.range::<[u8], _>((Bound::Excluded(k), Bound::Unbounded)).next().map(|x| x.0.clone()) }
fn with_prefix(m: &Map, p: &[u8], n: usize) -> Vec<Vec<u8>> { m.range::<[u8], _>((Bound::Included(p), Bound::Unbounded)).take_while(|x| x.0.starts_with(p)).take(n).map(|x| x.0.clone()).collect() }

#[derive(Debug, PartialEq, Eq, Clone, Copy, Encode, Decode)]
pub enum KillStorageResult { AllRemoved(u32), SomeRemaining(u32) }
#[derive(Debug, PartialEq, Eq, Clone, Encode, Decode)]
pub struct MultiRemovalResults { pub maybe_cursor: Option<Vec<u8>>, pub backend: u32, pub unique: u32, pub loops: u32 }
impl MultiRemovalResults { pub fn deconstruct(self) -> (Option<Vec<u8>>, u32, u32, u32) { (self.maybe_cursor, self.backend, self.unique, self.loops) } }

pub mod storage {
	use super::*;
	pub fn get(k: &[u8]) -> Option<Vec<u8>> { with(|s| { s.reads += 1; s.top.get(k).cloned() }) }
	pub fn read(k: &[u8], out: &mut [u8], off: u32) -> Option<u32> {
		with(|s| s.top.get(k).map(|v| { let v = &v[(off as usize).min(v.len())..]; let n = v.len().min(out.len()); out[..n].copy_from_slice(&v[..n]); v.len() as u32 }))
	}
	pub fn set(k: &[u8], v: &[u8]) { with(|s| s.put(k, Some(v.to_vec()))) }
	pub fn clear(k: &[u8]) { with(|s| s.put(k, None)) }
	pub fn exists(k: &[u8]) -> bool { with(|s| s.top.contains_key(k)) }
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> { with(|s| next_in(&s.top, k)) }
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> KillStorageResult {
		with(|s| {
			let ks = with_prefix(&s.top, p, limit.map_or(usize::MAX, |l| l as usize));
			for k in &ks { s.put(k, None) }
			let n = ks.len() as u32;
			if with_prefix(&s.top, p, 1).is_empty() { KillStorageResult::AllRemoved(n) } else { KillStorageResult::SomeRemaining(n) }
		})
	}
	pub fn append(k: &[u8], v: Vec<u8>) {
		struct Raw(Vec<u8>);
		impl Encode for Raw { fn encode_to<O: Output + ?Sized>(&self, o: &mut O) { o.write(&self.0) } }
		impl EncodeLike for Raw {}
		with(|s| {
			let old = s.top.get(k).cloned().unwrap_or_default();
			let n = <Vec<Raw> as parity_scale_codec::EncodeAppend>::append_or_new(old, Some(Raw(v.clone())))
				.unwrap_or_else(|_| { let mut o = parity_scale_codec::Compact(1u32).encode(); o.extend(&v); o });
			s.put(k, Some(n))
		})
	}
	pub fn root(_v: StateVersion) -> Vec<u8> { with(|s| s.digest().to_vec()) }
	pub fn start_transaction() { with(|s| { let n = s.undo.len(); s.marks.push(n) }) }
	pub fn commit_transaction() { with(|s| { s.marks.pop().expect("no open transaction"); if s.marks.is_empty() { s.undo.clear() } }) }
	pub fn rollback_transaction() { with(|s| { let m = s.marks.pop().expect("no open transaction"); s.rollback(m) }) }
	pub fn open_transactions() -> usize { with(|s| s.marks.len()) }
	/// Number of reads and writes so far.
	pub fn counters() -> (u64, u64) { with(|s| (s.reads, s.writes)) }
	/// Everything stored, as (trie, key, value).
	pub fn dump() -> Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> {
		with(|s| {
			let mut o: Vec<_> = s.top.iter().map(|(k, v)| (vec![], k.clone(), v.clone())).collect();
			for (c, m) in &s.child { for (k, v) in m { o.push((c.clone(), k.clone(), v.clone())) } }
			o
		})
	}
}
pub mod default_child_storage {
	use super::*;
	pub fn get(c: &[u8], k: &[u8]) -> Option<Vec<u8>> { with(|s| { s.reads += 1; s.child.get(c).and_then(|m| m.get(k)).cloned() }) }
	pub fn read(c: &[u8], k: &[u8], out: &mut [u8], off: u32) -> Option<u32> {
		get(c, k).map(|v| { let v = &v[(off as usize).min(v.len())..]; let n = v.len().min(out.len()); out[..n].copy_from_slice(&v[..n]); v.len() as u32 })
	}
	pub fn set(c: &[u8], k: &[u8], v: &[u8]) { with(|s| s.put_child(c, k, Some(v.to_vec()))) }
	pub fn clear(c: &[u8], k: &[u8]) { with(|s| s.put_child(c, k, None)) }
	pub fn exists(c: &[u8], k: &[u8]) -> bool { with(|s| s.child.get(c).map_or(false, |m| m.contains_key(k))) }
	pub fn next_key(c: &[u8], k: &[u8]) -> Option<Vec<u8>> { with(|s| s.child.get(c).and_then(|m| next_in(m, k))) }
	pub fn clear_prefix(c: &[u8], p: &[u8], limit: Option<u32>) -> KillStorageResult {
		with(|s| {
			let empty = Map::new();
			let ks = with_prefix(s.child.get(c).unwrap_or(&empty), p, limit.map_or(usize::MAX, |l| l as usize));
			for k in &ks { s.put_child(c, k, None) }
			let n = ks.len() as u32;
			if with_prefix(s.child.get(c).unwrap_or(&empty), p, 1).is_empty() { KillStorageResult::AllRemoved(n) } else { KillStorageResult::SomeRemaining(n) }
		})
	}
	pub fn storage_kill(c: &[u8], limit: Option<u32>) -> KillStorageResult { clear_prefix(c, b"", limit) }
	pub fn root(c: &[u8], _v: StateVersion) -> Vec<u8> { with(|s| hashing::blake2_256(&s.child.get(c).map(|m| m.encode()).unwrap_or_default()).to_vec()) }
}
pub mod offchain_index {
	use super::*;
	pub fn set(k: &[u8], v: &[u8]) { with(|s| { let l = s.index.len(); s.index.push((k.to_vec(), Some(v.to_vec()))); s.log(Undo::Index(l)) }) }
	pub fn clear(k: &[u8]) { with(|s| { let l = s.index.len(); s.index.push((k.to_vec(), None)); s.log(Undo::Index(l)) }) }
}
pub mod misc {
	pub fn print_utf8(_: &[u8]) {}
	pub fn print_hex(_: &[u8]) {}
	pub fn print_num(_: u64) {}
}
pub mod logging {}
pub mod crypto {
	use crate::core::*;
	pub fn sr25519_verify(s: &sr25519::Signature, m: &[u8], p: &sr25519::Public) -> bool { <sr25519::Pair as Pair>::verify(s, m, p) }
	pub fn ed25519_verify(s: &ed25519::Signature, m: &[u8], p: &ed25519::Public) -> bool { <ed25519::Pair as Pair>::verify(s, m, p) }
	pub fn ecdsa_verify(s: &ecdsa::Signature, m: &[u8], p: &ecdsa::Public) -> bool { <ecdsa::Pair as Pair>::verify(s, m, p) }
}
pub mod offchain {
	use super::*;
	use crate::offchain::{Duration, StorageKind, Timestamp};
	pub fn timestamp() -> Timestamp { with(|s| s.worker.as_ref().map(|w| w.read().timestamp).unwrap_or(Timestamp(0))) }
	pub fn sleep_until(t: Timestamp) { with(|s| if let Some(w) = &s.worker { let mut w = w.write(); if w.timestamp < t { w.timestamp = t } }) }
	pub fn random_seed() -> [u8; 32] { [0; 32] }
	pub fn is_validator() -> bool { true }
	fn db<R>(f: impl FnOnce(&TestPersistentOffchainDB) -> R) -> R { with(|s| f(&s.db)) }
	thread_local! { static WRITES_LEFT: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) } }
	/// The node dies at its n-th write from now: that write and those of the cleanup after it are lost.
	pub fn crash_after(n: Option<u64>) { WRITES_LEFT.with(|w| w.set(n)) }
	pub fn crashed() -> bool { WRITES_LEFT.with(|w| w.get() == Some(0)) }
	fn written() -> bool {
		match WRITES_LEFT.with(|w| w.get()) {
			None => true,
			Some(0) => if std::thread::panicking() { false } else { panic!("{CRASH}") },
			Some(n) => { WRITES_LEFT.with(|w| w.set(Some(n - 1))); true },
		}
	}
	pub const CRASH: &str = "the node dies here";
	pub fn local_storage_set(_k: StorageKind, k: &[u8], v: &[u8]) { if written() { db(|d| d.put(b"", k, Some(v.to_vec()))) } }
	pub fn local_storage_clear(_k: StorageKind, k: &[u8]) { if written() { db(|d| d.put(b"", k, None)) } }
	pub fn local_storage_get(_k: StorageKind, k: &[u8]) -> Option<Vec<u8>> { db(|d| d.fetch(b"", k)) }
	pub fn local_storage_compare_and_set(kind: StorageKind, k: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool {
		let same = local_storage_get(kind, k) == old;
		if same { local_storage_set(kind, k, new) }
		same
	}
	#[allow(unused)]
	fn d(_: Duration) {}
}
pub type SubstrateHostFunctions = ();
