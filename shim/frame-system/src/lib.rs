//! Stand-in for `frame-system`: accounts, events, block numbers and origins.
#![allow(clippy::all, deprecated)]
extern crate self as frame_system;
pub mod limits;
mod extensions;
pub use extensions::*;
pub use frame_support::dispatch::RawOrigin;
use frame_support::{
	dispatch::{DispatchInfo, DispatchResult, DispatchResultWithPostInfo, PerDispatchClass},
	pallet_prelude::*,
	traits::{Contains, EnsureOrigin, OnKilledAccount, OnNewAccount, OriginTrait, PalletInfo, StoredMap},
	weights::RuntimeDbWeight,
};
pub use pallet::*;
use parity_scale_codec::EncodeLike;
use shim_base::runtime::{
	generic,
	traits::{self, AtLeast32Bit, BadOrigin, BlockNumberProvider, Dispatchable, Hash, HeaderProvider, MaybeDisplay, One, Saturating, StaticLookup, Zero},
	DispatchError,
};
pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;
pub type RefCount = u32;
pub type ConsumedWeight = PerDispatchClass<Weight>;
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> { pub nonce: Nonce, pub consumers: RefCount, pub providers: RefCount, pub sufficients: RefCount, pub data: AccountData }
#[derive(Encode, Decode, Debug, TypeInfo, PartialEq, Eq, Clone)]
pub enum Phase { ApplyExtrinsic(u32), Finalization, Initialization }
impl Default for Phase { fn default() -> Self { Self::Initialization } }
#[derive(Encode, Decode, Debug, TypeInfo, PartialEq, Eq, Clone)]
pub struct EventRecord<E: Encode + Decode, T> { pub phase: Phase, pub event: E, pub topics: Vec<T> }
#[derive(Eq, PartialEq, Debug)]
pub enum IncRefStatus { Created, Existed }
#[derive(Eq, PartialEq, Debug)]
pub enum DecRefStatus { Reaped, Exists }
pub trait WeightInfo {}
impl WeightInfo for () {}
pub mod weights { pub trait WeightInfo {} }
pub trait SetCode<T> {}
impl<T> SetCode<T> for () {}
pub struct ChainContext<T>(std::marker::PhantomData<T>);
pub mod mocking {
	use super::*;
	pub type MockUncheckedExtrinsic<T, S = (), E = ()> = generic::UncheckedExtrinsic<<T as Config>::AccountId, <T as Config>::RuntimeCall, S, E>;
	pub type MockBlock<T> = generic::Block<generic::Header<u64, traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU128<T> = generic::Block<generic::Header<u128, traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}
pub mod pallet_prelude {
	pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
	pub type HeaderFor<T> = <<T as crate::Config>::Block as shim_base::runtime::traits::HeaderProvider>::HeaderT;
	pub type BlockNumberFor<T> = <HeaderFor<T> as shim_base::runtime::traits::Header>::Number;
}
use pallet_prelude::BlockNumberFor;
pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> { match o.into() { Ok(RawOrigin::Signed(t)) => Ok(t), _ => Err(BadOrigin) } }
pub fn ensure_signed_or_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<Option<A>, BadOrigin> { match o.into() { Ok(RawOrigin::Root) => Ok(None), Ok(RawOrigin::Signed(t)) => Ok(Some(t)), _ => Err(BadOrigin) } }
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> { match o.into() { Ok(RawOrigin::Root) => Ok(()), _ => Err(BadOrigin) } }
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> { match o.into() { Ok(RawOrigin::None) => Ok(()), _ => Err(BadOrigin) } }
pub struct EnsureRoot<A>(std::marker::PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::Root => Ok(()), r => Err(O::from(r)) }) } }
pub struct EnsureSigned<A>(std::marker::PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Signed(w) => Ok(w), r => Err(O::from(r)) }) } }
pub struct EnsureNever<T>(std::marker::PhantomData<T>);
impl<O, T> EnsureOrigin<O> for EnsureNever<T> { type Success = T; fn try_origin(o: O) -> Result<T, O> { Err(o) } }
pub struct EnsureSignedBy<Who, A>(std::marker::PhantomData<(Who, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, Who: frame_support::traits::SortedMembers<A>, A: PartialEq + Clone + Ord> EnsureOrigin<O> for EnsureSignedBy<Who, A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Signed(ref who) if Who::contains(who) => Ok(who.clone()), r => Err(O::from(r)) }) }
}
pub struct EnsureNone<A>(std::marker::PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureNone<A> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::None => Ok(()), r => Err(O::from(r)) }) } }

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type BaseCallFilter: Contains<Self::RuntimeCall>;
		type BlockWeights: Get<limits::BlockWeights>;
		type BlockLength: Get<limits::BlockLength>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId> + std::fmt::Debug;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + std::fmt::Debug + From<Call<Self>>;
		type RuntimeTask;
		type Nonce: Parameter + Member + MaybeSerializeDeserialize + std::fmt::Debug + Default + MaybeDisplay + AtLeast32Bit + Copy + MaxEncodedLen;
		type Hash: Parameter + Member + MaybeSerializeDeserialize + std::fmt::Debug + MaybeDisplay + Ord + Default + Copy + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
		type Hashing: Hash<Output = Self::Hash> + TypeInfo;
		type AccountId: Parameter + Member + MaybeSerializeDeserialize + std::fmt::Debug + MaybeDisplay + Ord + MaxEncodedLen;
		type Lookup: StaticLookup<Target = Self::AccountId>;
		type Block: traits::Block<Hash = Self::Hash> + HeaderProvider;
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + std::fmt::Debug + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type DbWeight: Get<RuntimeDbWeight>;
		type Version;
		type PalletInfo: PalletInfo;
		type AccountData: Member + parity_scale_codec::FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
		type OnNewAccount: OnNewAccount<Self::AccountId>;
		type OnKilledAccount: OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo;
		type SS58Prefix;
		type OnSetCode;
		type MaxConsumers: Get<u32>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	pub type Events<T: Config> = StorageValue<_, Vec<Box<EventRecord<T::RuntimeEvent, T::Hash>>>, ValueQuery>;
	#[pallet::storage]
	pub type ExecutionPhase<T: Config> = StorageValue<_, Phase>;
	#[pallet::storage]
	pub type BlockWeight<T: Config> = StorageValue<_, ConsumedWeight, ValueQuery>;
	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess { dispatch_info: DispatchInfo },
		ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: DispatchInfo },
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> { InvalidSpecName, SpecVersionNeedsToIncrease, FailedToExtractRuntimeVersion, NonDefaultComposite, NonZeroRefCount, CallFiltered }
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> { pub _config: std::marker::PhantomData<T> }
	impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { _config: Default::default() } } }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) { BlockHash::<T>::insert(BlockNumberFor::<T>::zero(), T::Hashing::hash(&[69; 32])); }
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(2_000_000 + remark.len() as u64, 0))]
		pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo { let _ = remark; Ok(().into()) }
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_heap_pages(origin: OriginFor<T>, pages: u64) -> DispatchResultWithPostInfo { ensure_root(origin)?; let _ = pages; Ok(().into()) }
		#[pallet::call_index(2)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_code(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo { ensure_root(origin)?; let _ = code; Ok(().into()) }
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(2_000_000 + remark.len() as u64, 0))]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let hash = T::Hashing::hash(&remark[..]);
			Self::deposit_event(Event::Remarked { sender: who, hash });
			Ok(().into())
		}
	}
}
use pallet_prelude::OriginFor;
impl<T: Config> Pallet<T> {
	pub fn account(who: &T::AccountId) -> AccountInfo<T::Nonce, T::AccountData> { Account::<T>::get(who) }
	pub fn block_hash<A: EncodeLike<BlockNumberFor<T>>>(n: A) -> T::Hash { BlockHash::<T>::get(n) }
	pub fn block_number() -> BlockNumberFor<T> { Number::<T>::get() }
	pub fn current_block_number() -> BlockNumberFor<T> { Number::<T>::get() }
	pub fn set_block_number(n: BlockNumberFor<T>) { Number::<T>::put(n) }
	pub fn parent_hash() -> T::Hash { Default::default() }
	pub fn extrinsic_index() -> Option<u32> { frame_support::storage::unhashed::get(b":extrinsic_index") }
	pub fn extrinsic_count() -> u32 { ExtrinsicCount::<T>::get().unwrap_or_default() }
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
		if Self::block_number().is_zero() { return }
		let r = EventRecord { phase: ExecutionPhase::<T>::get().unwrap_or(Phase::Initialization), event: event.into(), topics: vec![] };
		Events::<T>::append(Box::new(r));
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> { Events::<T>::get().into_iter().map(|e| *e).collect() }
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> { Events::<T>::get().into_iter() }
	pub fn event_count() -> u32 { Events::<T>::get().len() as u32 }
	pub fn reset_events() { Events::<T>::kill() }
	pub fn assert_has_event(e: T::RuntimeEvent) { assert!(Self::events().iter().any(|r| r.event == e), "expected event {e:?} not found") }
	pub fn assert_last_event(e: T::RuntimeEvent) { let l = Self::events().pop().expect("events expected").event; assert_eq!(l, e) }
	pub fn block_weight() -> ConsumedWeight { BlockWeight::<T>::get() }
	pub fn on_initialize(_n: BlockNumberFor<T>) {}
	pub fn on_finalize(_n: BlockNumberFor<T>) {}
	pub fn initialize(n: &BlockNumberFor<T>, _p: &T::Hash, _d: &generic::Digest) { Number::<T>::put(*n); Self::reset_events() }
	pub fn finalize() {}
	pub fn account_nonce(who: impl EncodeLike<T::AccountId>) -> T::Nonce { Account::<T>::get(who).nonce }
	pub fn inc_account_nonce(who: impl EncodeLike<T::AccountId>) { Account::<T>::mutate(who, |a| a.nonce = a.nonce.saturating_add(One::one())) }
	pub fn account_exists(who: &T::AccountId) -> bool { Account::<T>::contains_key(who) }
	pub fn providers(who: &T::AccountId) -> u32 { Account::<T>::get(who).providers }
	pub fn sufficients(who: &T::AccountId) -> u32 { Account::<T>::get(who).sufficients }
	pub fn reference_count(who: &T::AccountId) -> u32 { let a = Account::<T>::get(who); a.consumers + a.providers + a.sufficients }
	pub fn consumers(who: &T::AccountId) -> u32 { Account::<T>::get(who).consumers }
	pub fn can_dec_provider(who: &T::AccountId) -> bool { let a = Account::<T>::get(who); a.consumers == 0 || a.providers > 1 }
	pub fn can_inc_consumer(who: &T::AccountId) -> bool { let a = Account::<T>::get(who); a.providers > 0 && a.consumers < T::MaxConsumers::get() }
	fn on_created_account(who: T::AccountId) { T::OnNewAccount::on_new_account(&who); Self::deposit_event(Event::NewAccount { account: who }) }
	fn on_killed_account(who: T::AccountId) { T::OnKilledAccount::on_killed_account(&who); Self::deposit_event(Event::KilledAccount { account: who }) }
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers == 0 && a.sufficients == 0 { a.providers = 1; Self::on_created_account(who.clone()); IncRefStatus::Created } else { a.providers = a.providers.saturating_add(1); IncRefStatus::Existed }
		})
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(who, |m| {
			let Some(mut a) = m.take() else { return Ok(DecRefStatus::Reaped) };
			if a.providers == 0 { a.providers = 1 }
			match (a.providers, a.consumers, a.sufficients) {
				(1, 0, 0) => { Self::on_killed_account(who.clone()); Ok(DecRefStatus::Reaped) },
				(1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
				(x, _, _) => { a.providers = x - 1; *m = Some(a); Ok(DecRefStatus::Exists) },
			}
		})
	}
	pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| { if a.providers + a.sufficients == 0 { a.sufficients = 1; Self::on_created_account(who.clone()); IncRefStatus::Created } else { a.sufficients += 1; IncRefStatus::Existed } })
	}
	pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus {
		Account::<T>::mutate_exists(who, |m| {
			let Some(mut a) = m.take() else { return DecRefStatus::Reaped };
			match (a.sufficients, a.providers) { (0, 0) | (1, 0) => { Self::on_killed_account(who.clone()); DecRefStatus::Reaped }, (x, _) => { a.sufficients = x.saturating_sub(1); *m = Some(a); DecRefStatus::Exists } }
		})
	}
	pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers == 0 { return Err(DispatchError::NoProviders) }
			if a.consumers >= T::MaxConsumers::get() { return Err(DispatchError::TooManyConsumers) }
			a.consumers += 1;
			Ok(())
		})
	}
	pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> { Account::<T>::try_mutate(who, |a| if a.providers > 0 { a.consumers += 1; Ok(()) } else { Err(DispatchError::NoProviders) }) }
	pub fn dec_consumers(who: &T::AccountId) { Account::<T>::mutate(who, |a| a.consumers = a.consumers.saturating_sub(1)) }
}
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData { Account::<T>::get(k).data }
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
		let a = Account::<T>::get(k);
		let is_default = a.data == T::AccountData::default();
		let mut d = if is_default { None } else { Some(a.data) };
		let r = f(&mut d)?;
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 { Account::<T>::mutate(k, |a| a.data = d.unwrap_or_default()) } else { Account::<T>::remove(k) }
		Ok(r)
	}
}
impl<T: Config> BlockNumberProvider for Pallet<T> { type BlockNumber = BlockNumberFor<T>; fn current_block_number() -> BlockNumberFor<T> { Number::<T>::get() } fn set_block_number(n: BlockNumberFor<T>) { Number::<T>::put(n) } }
pub fn unique(e: impl Encode) -> [u8; 32] { shim_base::hashing::blake2_256(&e.encode()) }
#[allow(unused)]
fn _u(_: DispatchResult) {}
