//! sp-core::offchain and the off-chain parts of sp-runtime.
use crate::prelude::*;
use std::collections::BTreeMap;
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode)]
pub struct Timestamp(pub u64);
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode)]
pub struct Duration(pub u64);
impl Duration { pub const fn from_millis(m: u64) -> Self { Duration(m) } pub fn millis(&self) -> u64 { self.0 } }
impl Timestamp {
	pub fn from_unix_millis(m: u64) -> Self { Timestamp(m) }
	pub fn unix_millis(&self) -> u64 { self.0 }
	pub fn add(&self, d: Duration) -> Timestamp { Timestamp(self.0.saturating_add(d.0)) }
	pub fn sub(&self, d: Duration) -> Timestamp { Timestamp(self.0.saturating_sub(d.0)) }
	pub fn diff(&self, o: &Timestamp) -> Duration { Duration(self.0.saturating_sub(o.0)) }
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
#[allow(non_camel_case_types)]
pub enum StorageKind { PERSISTENT = 1, LOCAL = 2 }
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum HttpError { DeadlineReached, IoError, Invalid }
pub const STORAGE_PREFIX: &[u8] = b"storage";
pub trait OffchainStorage: Clone + Send + Sync {
	fn set(&mut self, prefix: &[u8], key: &[u8], value: &[u8]);
	fn remove(&mut self, prefix: &[u8], key: &[u8]);
	fn get(&self, prefix: &[u8], key: &[u8]) -> Option<Vec<u8>>;
	fn compare_and_set(&mut self, prefix: &[u8], key: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool;
}
pub mod testing {
	use super::*;
	use parking_lot::RwLock;
	#[derive(Clone, Default)]
	pub struct TestPersistentOffchainDB { pub persistent: Arc<RwLock<BTreeMap<Vec<u8>, Vec<u8>>>> }
	impl TestPersistentOffchainDB {
		pub const PREFIX: &'static [u8] = b"";
		pub fn new() -> Self { Self::default() }
		pub fn put(&self, p: &[u8], k: &[u8], v: Option<Vec<u8>>) {
			// Everything a runtime writes goes below one prefix, which is not part of the key here.
			let p = if p == STORAGE_PREFIX { b"" } else { p };
			let key = [p, k].concat();
			match v { Some(v) => { self.persistent.write().insert(key, v); }, None => { self.persistent.write().remove(&key); } }
		}
		pub fn fetch(&self, p: &[u8], k: &[u8]) -> Option<Vec<u8>> {
			let p = if p == STORAGE_PREFIX { b"" } else { p };
			self.persistent.read().get(&[p, k].concat()).cloned()
		}
	}
	impl OffchainStorage for TestPersistentOffchainDB {
		fn set(&mut self, p: &[u8], k: &[u8], v: &[u8]) { self.put(p, k, Some(v.to_vec())) }
		fn remove(&mut self, p: &[u8], k: &[u8]) { self.put(p, k, None) }
		fn get(&self, p: &[u8], k: &[u8]) -> Option<Vec<u8>> { self.fetch(p, k) }
		fn compare_and_set(&mut self, p: &[u8], k: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool {
			let same = self.fetch(p, k).as_deref() == old;
			if same { self.put(p, k, Some(new.to_vec())) }
			same
		}
	}
	#[derive(Debug, PartialEq, Eq, Default, Clone)]
	pub struct PendingRequest {
		pub method: String,
		pub uri: String,
		pub meta: Vec<u8>,
		pub headers: Vec<(String, String)>,
		pub body: Vec<u8>,
		pub sent: bool,
		pub response: Option<Vec<u8>>,
		pub read: usize,
		pub response_headers: Vec<(String, String)>,
		/// 0 stands for 200
		pub response_status: u16,
	}
	#[derive(Default)]
	pub struct OffchainState {
		pub expected_requests: std::collections::VecDeque<PendingRequest>,
		pub seen: Vec<PendingRequest>,
		pub persistent_storage: TestPersistentOffchainDB,
		pub local_storage: TestPersistentOffchainDB,
		pub seed: [u8; 32],
		pub timestamp: Timestamp,
	}
	impl OffchainState { pub fn expect_request(&mut self, r: PendingRequest) { self.expected_requests.push_back(r) } }
	pub type SharedState = Arc<RwLock<OffchainState>>;
	#[derive(Clone)]
	pub struct TestOffchainExt(pub Arc<RwLock<OffchainState>>);
	impl TestOffchainExt {
		pub fn new() -> (Self, Arc<RwLock<OffchainState>>) { Self::with_offchain_db(Default::default()) }
		pub fn with_offchain_db(db: TestPersistentOffchainDB) -> (Self, Arc<RwLock<OffchainState>>) {
			let s = Arc::new(RwLock::new(OffchainState { persistent_storage: db, ..Default::default() }));
			(TestOffchainExt(s.clone()), s)
		}
	}
	#[derive(Clone)]
	pub struct TestTransactionPoolExt;
}
pub struct OffchainDbExt(testing::TestOffchainExt);
impl OffchainDbExt { pub fn new(o: testing::TestOffchainExt) -> Self { OffchainDbExt(o) } }
pub struct OffchainWorkerExt(testing::TestOffchainExt);
impl OffchainWorkerExt { pub fn new(o: testing::TestOffchainExt) -> Self { OffchainWorkerExt(o) } }
impl crate::io::ExtensionHook for OffchainDbExt {
	fn install(self, s: &mut crate::io::State) { s.db = self.0 .0.read().persistent_storage.clone(); s.ext_db = Some(self.0 .0) }
}
impl crate::io::ExtensionHook for OffchainWorkerExt { fn install(self, s: &mut crate::io::State) { s.worker = Some(self.0 .0) } }

/// sp_runtime::offchain
pub mod runtime {
	pub use super::{Duration, HttpError, StorageKind, Timestamp};
	pub mod storage {
		use super::super::*;
		use crate::io::offchain as ext;
		#[derive(Debug, PartialEq, Eq)]
		pub enum StorageRetrievalError { Undecodable }
		#[derive(Debug, PartialEq, Eq)]
		pub enum MutateStorageError<T, E> { ConcurrentModification(T), ValueFunctionFailed(E) }
		pub struct StorageValueRef<'a> { key: &'a [u8], kind: StorageKind }
		impl<'a> StorageValueRef<'a> {
			pub fn persistent(key: &'a [u8]) -> Self { StorageValueRef { key, kind: StorageKind::PERSISTENT } }
			pub fn local(key: &'a [u8]) -> Self { StorageValueRef { key, kind: StorageKind::LOCAL } }
			pub fn set(&self, v: &impl Encode) { ext::local_storage_set(self.kind, self.key, &v.encode()) }
			pub fn clear(&mut self) { ext::local_storage_clear(self.kind, self.key) }
			pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> {
				ext::local_storage_get(self.kind, self.key).map(|v| T::decode(&mut &v[..]).map_err(|_| StorageRetrievalError::Undecodable)).transpose()
			}
			pub fn mutate<T: Codec, E, F: FnOnce(Result<Option<T>, StorageRetrievalError>) -> Result<T, E>>(&self, f: F) -> Result<T, MutateStorageError<T, E>> {
				let raw = ext::local_storage_get(self.kind, self.key);
				let orig = raw.clone().map(|v| T::decode(&mut &v[..]).map_err(|_| StorageRetrievalError::Undecodable)).transpose();
				let val = f(orig).map_err(MutateStorageError::ValueFunctionFailed)?;
				if ext::local_storage_compare_and_set(self.kind, self.key, raw, &val.encode()) { Ok(val) } else { Err(MutateStorageError::ConcurrentModification(val)) }
			}
		}
	}
	pub mod storage_lock {
		use super::{storage::*, super::*};
		use crate::{io::offchain as ext, runtime::traits::BlockNumberProvider};
		pub trait Lockable: Sized {
			type Deadline: Sized + Codec + Clone;
			fn deadline(&self) -> Self::Deadline;
			fn has_expired(d: &Self::Deadline) -> bool;
			fn snooze(_d: &Self::Deadline) { ext::sleep_until(ext::timestamp().add(Duration::from_millis(10))) }
		}
		#[derive(Clone, Debug)]
		pub struct Time { expiration: Duration }
		impl Default for Time { fn default() -> Self { Time { expiration: Duration::from_millis(20_000) } } }
		impl Lockable for Time {
			type Deadline = Timestamp;
			fn deadline(&self) -> Timestamp { ext::timestamp().add(self.expiration) }
			fn has_expired(d: &Timestamp) -> bool { ext::timestamp() > *d }
			fn snooze(d: &Timestamp) { ext::sleep_until((*d).max(ext::timestamp().add(Duration::from_millis(10)))) }
		}
		#[derive(Encode, Decode, Clone, Debug)]
		pub struct BlockAndTimeDeadline<N> { pub block_number: N, pub timestamp: Timestamp }
		pub struct BlockAndTime<B: BlockNumberProvider> { offset: u32, expiration: Duration, p: PhantomData<B> }
		impl<B: BlockNumberProvider> Default for BlockAndTime<B> { fn default() -> Self { BlockAndTime { offset: 4, expiration: Duration::from_millis(20_000), p: PhantomData } } }
		impl<B: BlockNumberProvider> Lockable for BlockAndTime<B> {
			type Deadline = BlockAndTimeDeadline<B::BlockNumber>;
			fn deadline(&self) -> Self::Deadline {
				BlockAndTimeDeadline { block_number: B::current_block_number() + self.offset.into(), timestamp: ext::timestamp().add(self.expiration) }
			}
			fn has_expired(d: &Self::Deadline) -> bool { ext::timestamp() > d.timestamp && B::current_block_number() > d.block_number }
			fn snooze(d: &Self::Deadline) { ext::sleep_until(d.timestamp.max(ext::timestamp().add(Duration::from_millis(10)))) }
		}
		pub struct StorageLock<'a, L: Lockable = Time> { value: StorageValueRef<'a>, lockable: L }
		impl<'a, L: Lockable + Default> StorageLock<'a, L> {
			pub fn new(k: &'a [u8]) -> Self { Self::with_lockable(k, Default::default()) }
		}
		impl<'a, L: Lockable> StorageLock<'a, L> {
			pub fn with_lockable(k: &'a [u8], l: L) -> Self { StorageLock { value: StorageValueRef::persistent(k), lockable: l } }
			fn extend_active_lock(&mut self) -> Result<L::Deadline, ()> {
				let l = &self.lockable;
				self.value.mutate(|s: Result<Option<L::Deadline>, _>| -> Result<L::Deadline, ()> { match s { Ok(Some(d)) if !L::has_expired(&d) => Ok(l.deadline()), _ => Err(()) } }).map_err(|_| ())
			}
			fn try_lock_inner(&mut self, new: L::Deadline) -> Result<(), L::Deadline> {
				let r = self.value.mutate(|s: Result<Option<L::Deadline>, _>| -> Result<L::Deadline, L::Deadline> {
					match s { Ok(Some(d)) if !L::has_expired(&d) => Err(d), _ => Ok(new.clone()) }
				});
				match r { Ok(_) => Ok(()), Err(MutateStorageError::ConcurrentModification(d)) | Err(MutateStorageError::ValueFunctionFailed(d)) => Err(d) }
			}
			pub fn try_lock(&mut self) -> Result<StorageLockGuard<'a, '_, L>, L::Deadline> {
				let d = self.lockable.deadline();
				self.try_lock_inner(d)?;
				Ok(StorageLockGuard { lock: Some(self) })
			}
			pub fn lock(&mut self) -> StorageLockGuard<'a, '_, L> {
				let mut rounds = 0;
				while let Err(d) = { let n = self.lockable.deadline(); self.try_lock_inner(n) } {
					L::snooze(&d);
					rounds += 1;
					assert!(rounds < 100_000, "waiting forever for a lock");
				}
				StorageLockGuard { lock: Some(self) }
			}
		}
		pub struct StorageLockGuard<'a, 'b, L: Lockable> { lock: Option<&'b mut StorageLock<'a, L>> }
		impl<'a, 'b, L: Lockable> StorageLockGuard<'a, 'b, L> {
			pub fn forget(mut self) { self.lock = None }
			pub fn extend_lock(&mut self) -> Result<L::Deadline, ()> { self.lock.as_mut().unwrap().extend_active_lock() }
		}
		impl<'a, 'b, L: Lockable> Drop for StorageLockGuard<'a, 'b, L> { fn drop(&mut self) { if let Some(l) = &mut self.lock { l.value.clear() } } }
		impl<'a> StorageLock<'a, Time> {
			pub fn with_deadline(k: &'a [u8], expiration: Duration) -> Self { Self::with_lockable(k, Time { expiration }) }
		}
		impl<'a, B: BlockNumberProvider> StorageLock<'a, BlockAndTime<B>> {
			pub fn with_block_and_time_deadline(k: &'a [u8], offset: u32, expiration: Duration) -> Self { Self::with_lockable(k, BlockAndTime { offset, expiration, p: PhantomData }) }
			pub fn with_block_deadline(k: &'a [u8], offset: u32) -> Self { Self::with_lockable(k, BlockAndTime { offset, expiration: Duration::from_millis(20_000), p: PhantomData }) }
		}
	}
	pub mod http {
		use super::super::*;
		#[derive(Debug, PartialEq, Eq, Clone, Copy)]
		pub enum Error { DeadlineReached, IoError, Unknown }
		#[derive(Clone, Debug, PartialEq, Eq)]
		pub enum Method { Get, Post, Put, Patch, Delete, Other(&'static str) }
		pub struct Request<'a, T = Vec<&'static [u8]>> { method: Method, url: &'a str, body: T, deadline: Option<Timestamp>, headers: Vec<(String, String)> }
		impl<'a, T> Request<'a, T> {
			pub fn post(url: &'a str, body: T) -> Self { Request { method: Method::Post, url, body, deadline: None, headers: vec![] } }
			pub fn add_header(mut self, n: &str, v: &str) -> Self { self.headers.push((n.into(), v.into())); self }
			pub fn deadline(mut self, d: Timestamp) -> Self { self.deadline = Some(d); self }
			pub fn method(mut self, m: Method) -> Self { self.method = m; self }
		}
		impl<'a> Request<'a, Vec<&'static [u8]>> { pub fn get(url: &'a str) -> Self { Request { method: Method::Get, url, body: vec![], deadline: None, headers: vec![] } } }
		impl<'a, I: AsRef<[u8]>, T: IntoIterator<Item = I>> Request<'a, T> {
			pub fn send(self) -> Result<PendingRequest, HttpError> {
				let body: Vec<u8> = self.body.into_iter().flat_map(|x| x.as_ref().to_vec()).collect();
				let r = testing::PendingRequest {
					method: match self.method { Method::Post => "POST", Method::Get => "GET", Method::Put => "PUT", Method::Patch => "PATCH", Method::Delete => "DELETE", Method::Other(x) => x }.into(),
					uri: self.url.into(), headers: self.headers, body, sent: true, ..Default::default()
				};
				crate::io::with(|s| {
					let w = s.worker.clone().ok_or(HttpError::IoError)?;
					let mut w = w.write();
					w.seen.push(r.clone());
					match w.expected_requests.pop_front() {
						None => Err(HttpError::IoError),
						Some(e) => {
							let mut got = r;
							got.response = e.response.clone();
							got.response_headers = e.response_headers.clone();
							got.response_status = e.response_status;
							assert_eq!(got, e, "unexpected http request");
							Ok(PendingRequest { response: e.response, code: if e.response_status == 0 { 200 } else { e.response_status } })
						},
					}
				})
			}
		}
		pub struct PendingRequest { response: Option<Vec<u8>>, code: u16 }
		pub type HttpResult = Result<Response, Error>;
		impl PendingRequest {
			pub fn wait(self) -> HttpResult { let code = self.code; self.response.map(|body| Response { code, body }).ok_or(Error::IoError) }
			pub fn try_wait(self, _d: impl Into<Option<Timestamp>>) -> Result<HttpResult, PendingRequest> {
				if self.response.is_none() { return Err(self) }
				Ok(self.wait())
			}
		}
		pub struct Response { pub code: u16, body: Vec<u8> }
		impl Response { pub fn body(&self) -> std::vec::IntoIter<u8> { self.body.clone().into_iter() } }
	}
}
