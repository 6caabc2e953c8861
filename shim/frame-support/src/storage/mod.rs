use parity_scale_codec::{Decode, Encode, FullCodec, FullEncode};
use shim_base::{bounded, core::Get, io, runtime::DispatchError};
pub use types::Key;
pub mod types;
pub use crate::traits::StorageInstance;
pub use crate::hash::*;
pub use shim_base::core::storage::*;
pub mod bounded_vec { pub use shim_base::bounded::BoundedVec; }
pub mod bounded_btree_set { pub use shim_base::bounded::BoundedBTreeSet; }
pub mod weak_bounded_vec { pub use shim_base::bounded::WeakBoundedVec; }
pub mod bounded_btree_map { pub use shim_base::bounded::BoundedBTreeMap; }
pub mod generator {
	/// In the stand-in the generator traits and the storage types share their functions.
	pub use super::types::{DoubleMapKeys as StorageDoubleMap, MapKeys as StorageMap};
}
pub mod migration {
	use super::*;
	pub fn storage_key(module: &[u8], item: &[u8]) -> Vec<u8> { [io::hashing::twox_128(module), io::hashing::twox_128(item)].concat() }
	pub fn get_storage_value<T: Decode>(module: &[u8], item: &[u8], hash: &[u8]) -> Option<T> { unhashed::get(&[storage_key(module, item), hash.to_vec()].concat()) }
	pub fn put_storage_value<T: Encode>(module: &[u8], item: &[u8], hash: &[u8], v: T) { unhashed::put(&[storage_key(module, item), hash.to_vec()].concat(), &v) }
	pub fn have_storage_value(module: &[u8], item: &[u8], hash: &[u8]) -> bool { io::storage::exists(&[storage_key(module, item), hash.to_vec()].concat()) }
}
pub mod unhashed {
	use super::*;
	pub fn get<T: Decode>(k: &[u8]) -> Option<T> { io::storage::get(k).and_then(|v| T::decode(&mut &v[..]).ok()) }
	pub fn get_or_default<T: Decode + Default>(k: &[u8]) -> T { get(k).unwrap_or_default() }
	pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) { v.using_encoded(|b| io::storage::set(k, b)) }
	pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> { io::storage::get(k) }
	pub fn put_raw(k: &[u8], v: &[u8]) { io::storage::set(k, v) }
	pub fn take<T: Decode>(k: &[u8]) -> Option<T> { let r = get(k); if r.is_some() { kill(k) } r }
	pub fn exists(k: &[u8]) -> bool { io::storage::exists(k) }
	pub fn kill(k: &[u8]) { io::storage::clear(k) }
	pub fn clear_prefix(p: &[u8], l: Option<u32>, _c: Option<&[u8]>) -> io::MultiRemovalResults { super::removed(io::storage::clear_prefix(p, l)) }
}
pub(crate) fn removed(r: io::KillStorageResult) -> io::MultiRemovalResults {
	match r {
		io::KillStorageResult::AllRemoved(n) => io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n },
		io::KillStorageResult::SomeRemaining(n) => io::MultiRemovalResults { maybe_cursor: Some(vec![]), backend: n, unique: n, loops: n },
	}
}
pub mod child {
	use super::*;
	pub use shim_base::core::storage::{ChildInfo, StateVersion};
	use io::default_child_storage as c;
	pub fn get<T: Decode>(i: &ChildInfo, k: &[u8]) -> Option<T> { c::get(i.storage_key(), k).and_then(|v| T::decode(&mut &v[..]).ok()) }
	pub fn get_or_default<T: Decode + Default>(i: &ChildInfo, k: &[u8]) -> T { get(i, k).unwrap_or_default() }
	pub fn get_or<T: Decode>(i: &ChildInfo, k: &[u8], d: T) -> T { get(i, k).unwrap_or(d) }
	pub fn get_or_else<T: Decode, F: FnOnce() -> T>(i: &ChildInfo, k: &[u8], d: F) -> T { get(i, k).unwrap_or_else(d) }
	pub fn put<T: Encode>(i: &ChildInfo, k: &[u8], v: &T) { v.using_encoded(|b| c::set(i.storage_key(), k, b)) }
	pub fn take<T: Decode>(i: &ChildInfo, k: &[u8]) -> Option<T> { let r = get(i, k); if r.is_some() { kill(i, k) } r }
	pub fn exists(i: &ChildInfo, k: &[u8]) -> bool { c::exists(i.storage_key(), k) }
	pub fn kill(i: &ChildInfo, k: &[u8]) { c::clear(i.storage_key(), k) }
	pub fn get_raw(i: &ChildInfo, k: &[u8]) -> Option<Vec<u8>> { c::get(i.storage_key(), k) }
	pub fn put_raw(i: &ChildInfo, k: &[u8], v: &[u8]) { c::set(i.storage_key(), k, v) }
	pub fn root(i: &ChildInfo, v: StateVersion) -> Vec<u8> { c::root(i.storage_key(), v) }
	pub fn len(i: &ChildInfo, k: &[u8]) -> Option<u32> { c::get(i.storage_key(), k).map(|v| v.len() as u32) }
	pub fn clear_storage(i: &ChildInfo, l: Option<u32>, _c: Option<&[u8]>) -> io::MultiRemovalResults { super::removed(c::storage_kill(i.storage_key(), l)) }
	pub fn kill_storage(i: &ChildInfo, l: Option<u32>) -> io::KillStorageResult { c::storage_kill(i.storage_key(), l) }
}
pub fn with_storage_layer<T, E: From<DispatchError>>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	if io::storage::open_transactions() >= 255 { return Err(DispatchError::Transactional(shim_base::runtime::TransactionalError::LimitReached).into()) }
	io::storage::start_transaction();
	let r = f();
	if r.is_ok() { io::storage::commit_transaction() } else { io::storage::rollback_transaction() }
	r
}
#[derive(Debug)]
pub enum TransactionOutcome<R> { Commit(R), Rollback(R) }
pub fn with_transaction<T, E: From<DispatchError>>(f: impl FnOnce() -> TransactionOutcome<Result<T, E>>) -> Result<T, E> {
	io::storage::start_transaction();
	match f() {
		TransactionOutcome::Commit(r) => { io::storage::commit_transaction(); r },
		TransactionOutcome::Rollback(r) => { io::storage::rollback_transaction(); r },
	}
}
pub mod transactional { pub use super::{with_storage_layer, with_transaction, TransactionOutcome}; }

pub trait StorageDecodeLength: Decode { fn decode_len(k: &[u8]) -> Option<usize>; }
impl<V: Decode + parity_scale_codec::DecodeLength> StorageDecodeLength for V { fn decode_len(k: &[u8]) -> Option<usize> { io::storage::get(k).and_then(|v| <V as parity_scale_codec::DecodeLength>::len(&v).ok()) } }
pub trait StorageAppend<Item: Encode> {}
impl<T: Encode> StorageAppend<T> for Vec<T> {}
pub trait StorageTryAppend<Item> { fn bound() -> usize; }
impl<T, S: Get<u32>> StorageTryAppend<T> for bounded::BoundedVec<T, S> { fn bound() -> usize { S::get() as usize } }

type Decoder<T> = fn(&[u8], &[u8]) -> Result<T, parity_scale_codec::Error>;
/// Walks all keys below a prefix in key order.
pub struct PrefixIterator<T> { child: Option<Vec<u8>>, prefix: Vec<u8>, previous: Vec<u8>, first: bool, drain: bool, f: Decoder<T> }
impl<T> PrefixIterator<T> {
	pub fn new(prefix: Vec<u8>, previous: Vec<u8>, f: Decoder<T>) -> Self { PrefixIterator { child: None, prefix, previous, first: false, drain: false, f } }
	pub fn drain(mut self) -> Self { self.drain = true; self }
	pub fn last_raw_key(&self) -> &[u8] { &self.previous }
}
impl<T> Iterator for PrefixIterator<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			let first = std::mem::take(&mut self.first);
			let k = match &self.child {
				None if first && io::storage::exists(&self.previous) => Some(self.previous.clone()),
				None => io::storage::next_key(&self.previous),
				Some(c) if first && io::default_child_storage::exists(c, &self.previous) => Some(self.previous.clone()),
				Some(c) => io::default_child_storage::next_key(c, &self.previous),
			}?;
			if !k.starts_with(&self.prefix) { return None }
			let v = match &self.child { None => io::storage::get(&k), Some(c) => io::default_child_storage::get(c, &k) };
			self.previous = k.clone();
			let Some(v) = v else { continue };
			if self.drain { match &self.child { None => io::storage::clear(&k), Some(c) => io::default_child_storage::clear(c, &k) } }
			match (self.f)(&k[self.prefix.len()..], &v) {
				Ok(x) => return Some(x),
				Err(_) => continue,
			}
		}
	}
}
pub type KeyPrefixIterator<T> = PrefixIterator<T>;
pub struct ChildTriePrefixIterator<T>(PrefixIterator<T>);
impl<T> Iterator for ChildTriePrefixIterator<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next() } }
impl<T> ChildTriePrefixIterator<T> { pub fn drain(self) -> Self { ChildTriePrefixIterator(self.0.drain()) } }
impl<T: Decode> ChildTriePrefixIterator<(Vec<u8>, T)> {
	pub fn with_prefix(i: &ChildInfo, prefix: &[u8]) -> Self {
		ChildTriePrefixIterator(PrefixIterator { child: Some(i.storage_key().to_vec()), prefix: prefix.to_vec(), previous: prefix.to_vec(), first: true, drain: false, f: |k, mut v| Ok((k.to_vec(), T::decode(&mut v)?)) })
	}
}
impl<K: Decode, T: Decode> ChildTriePrefixIterator<(K, T)> {
	pub fn with_prefix_over_key<H: crate::hash::ReversibleStorageHasher>(i: &ChildInfo, prefix: &[u8]) -> Self {
		ChildTriePrefixIterator(PrefixIterator { child: Some(i.storage_key().to_vec()), prefix: prefix.to_vec(), previous: prefix.to_vec(), first: true, drain: false, f: |k, mut v| { let mut m = H::reverse(k); Ok((K::decode(&mut m)?, T::decode(&mut v)?)) } })
	}
}
#[allow(unused)]
fn _u<A: FullCodec, B: FullEncode>() {}
