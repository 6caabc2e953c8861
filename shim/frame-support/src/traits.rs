use crate::dispatch::{DispatchResult, DispatchResultWithPostInfo};
use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
pub use shim_base::core::{ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TypedGet};
pub use shim_base::runtime::traits::{ConstU32 as _C, Identity};
use shim_base::{core::storage::Storage, hashing::twox_128, io, runtime::{traits::{AtLeast32BitUnsigned, BadOrigin, Saturating, Zero}, DispatchError}, weights::Weight};
use std::{fmt::Debug, marker::PhantomData};

// ---- metadata of calls and pallets
#[derive(Clone, Eq, PartialEq, Default, Debug)]
pub struct CallMetadataShim { pub function_name: &'static str, pub pallet_name: &'static str }
pub trait GetCallIndex { fn get_call_index(&self) -> u8; fn get_call_indices() -> &'static [u8]; }
pub trait GetCallName { fn get_call_names() -> &'static [&'static str]; fn get_call_name(&self) -> &'static str; }
pub trait GetCallMetadata { fn get_call_metadata(&self) -> CallMetadataShim; }
pub trait PalletInfo { fn index<P: 'static>() -> Option<usize>; fn name<P: 'static>() -> Option<&'static str>; }
pub trait PalletInfoAccess { fn index() -> usize; fn name() -> &'static str; fn name_hash() -> [u8; 16]; fn module_name() -> &'static str; }
#[derive(Debug, PartialEq, Eq, Encode, Decode, Ord, Clone, Copy, PartialOrd, Default, TypeInfo)]
pub struct StorageVersion(u16);
pub const STORAGE_VERSION_STORAGE_KEY_POSTFIX: &[u8] = b":__STORAGE_VERSION__:";
impl StorageVersion {
	pub const fn new(n: u16) -> Self { StorageVersion(n) }
	pub fn storage_key<P: PalletInfoAccess>() -> [u8; 32] {
		let mut o = [0; 32];
		o[..16].copy_from_slice(&P::name_hash());
		o[16..].copy_from_slice(&twox_128(STORAGE_VERSION_STORAGE_KEY_POSTFIX));
		o
	}
	pub fn put<P: PalletInfoAccess>(&self) { crate::storage::unhashed::put(&Self::storage_key::<P>(), self) }
	pub fn get<P: PalletInfoAccess>() -> Self { crate::storage::unhashed::get(&Self::storage_key::<P>()).unwrap_or_default() }
	pub fn exists<P: PalletInfoAccess>() -> bool { io::storage::exists(&Self::storage_key::<P>()) }
}
impl PartialEq<u16> for StorageVersion { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
impl PartialOrd<u16> for StorageVersion { fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> { self.0.partial_cmp(o) } }
pub trait GetStorageVersion { type InCodeStorageVersion; fn in_code_storage_version() -> Self::InCodeStorageVersion; fn on_chain_storage_version() -> StorageVersion; fn current_storage_version() -> Self::InCodeStorageVersion { Self::in_code_storage_version() } }
pub struct NoStorageVersionSet;
pub trait StorageInstance {
	const STORAGE_PREFIX: &'static str;
	fn pallet_prefix() -> &'static str;
	fn prefix_hash() -> [u8; 32] {
		let mut o = [0; 32];
		o[..16].copy_from_slice(&twox_128(Self::pallet_prefix().as_bytes()));
		o[16..].copy_from_slice(&twox_128(Self::STORAGE_PREFIX.as_bytes()));
		o
	}
}
pub trait StorageInfoTrait {}
pub trait Instance: 'static {}
pub trait VariantCount { const VARIANT_COUNT: u32; }
impl VariantCount for () { const VARIANT_COUNT: u32 = 0; }
pub struct VariantCountOf<T>(PhantomData<T>);
impl<T: VariantCount> Get<u32> for VariantCountOf<T> { fn get() -> u32 { T::VARIANT_COUNT } }

// ---- hooks
pub trait BuildGenesisConfig: Default { fn build(&self); }
impl BuildGenesisConfig for () { fn build(&self) {} }
pub trait Hooks<N> {
	fn on_initialize(_n: N) -> Weight { Weight::zero() }
	fn on_finalize(_n: N) {}
	fn on_idle(_n: N, _w: Weight) -> Weight { Weight::zero() }
	fn on_runtime_upgrade() -> Weight { Weight::zero() }
	fn offchain_worker(_n: N) {}
	fn integrity_test() {}
}
pub trait OnInitialize<N> { fn on_initialize(_n: N) -> Weight { Weight::zero() } }
pub trait OnFinalize<N> { fn on_finalize(_n: N) {} }
pub trait OnIdle<N> { fn on_idle(_n: N, _w: Weight) -> Weight { Weight::zero() } }
pub trait OnRuntimeUpgrade { fn on_runtime_upgrade() -> Weight { Weight::zero() } }
pub trait OffchainWorker<N> { fn offchain_worker(_n: N) {} }
pub trait IntegrityTest { fn integrity_test() {} }
pub trait OnGenesis {}
pub trait OnTimestampSet<M> { fn on_timestamp_set(m: M); }
impl<M> OnTimestampSet<M> for () { fn on_timestamp_set(_m: M) {} }
macro_rules! hooks { ($($t:ident),*) => {
	impl<N: Copy, $($t: OnInitialize<N>),*> OnInitialize<N> for ($($t,)*) { #[allow(unused)] fn on_initialize(n: N) -> Weight { let w = Weight::zero(); $(let w = w.saturating_add($t::on_initialize(n));)* w } }
	impl<N: Copy, $($t: OnFinalize<N>),*> OnFinalize<N> for ($($t,)*) { #[allow(unused)] fn on_finalize(n: N) { $($t::on_finalize(n);)* } }
	impl<N: Copy, $($t: OnIdle<N>),*> OnIdle<N> for ($($t,)*) { #[allow(unused)] fn on_idle(n: N, r: Weight) -> Weight { let w = Weight::zero(); $(let w = w.saturating_add($t::on_idle(n, r.saturating_sub(w)));)* w } }
	impl<$($t: OnRuntimeUpgrade),*> OnRuntimeUpgrade for ($($t,)*) { #[allow(unused)] fn on_runtime_upgrade() -> Weight { let w = Weight::zero(); $(let w = w.saturating_add($t::on_runtime_upgrade());)* w } }
	impl<N: Copy, $($t: OffchainWorker<N>),*> OffchainWorker<N> for ($($t,)*) { #[allow(unused)] fn offchain_worker(n: N) { $($t::offchain_worker(n);)* } }
	impl<$($t: IntegrityTest),*> IntegrityTest for ($($t,)*) { fn integrity_test() { $($t::integrity_test();)* } }
	impl<$($t: PalletInfoAccess),*> PalletsInfoAccess for ($($t,)*) {}
} }
pub trait PalletsInfoAccess {}
macro_rules! grow { ($h:ident) => { hooks!($h); }; ($h:ident, $($t:ident),*) => { hooks!($h, $($t),*); grow!($($t),*); } }
hooks!();
grow!(A, B, C, D, E, F, G, H, I, J, K, L, M, O, P, Q, R, S, T, U, V, W, X, Y, Z, A1, B1, C1, D1, E1, F1, G1, H1, I1, J1, K1, L1, M1);

// ---- dispatch and origins
pub trait UnfilteredDispatchable { type RuntimeOrigin; fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo; }
impl UnfilteredDispatchable for () { type RuntimeOrigin = (); fn dispatch_bypass_filter(self, _: ()) -> DispatchResultWithPostInfo { panic!("() is not dispatchable") } }
pub trait IsSubType<T> { fn is_sub_type(&self) -> Option<&T>; }
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
}
impl<T> IsType<T> for T { fn from_ref(t: &T) -> &Self { t } fn into_ref(&self) -> &T { self } }
pub trait CallerTrait<AccountId>: Clone { fn into_system(self) -> Option<crate::dispatch::RawOrigin<AccountId>>; fn as_system_ref(&self) -> Option<&crate::dispatch::RawOrigin<AccountId>>; fn as_signed(&self) -> Option<&AccountId> { self.as_system_ref().and_then(|o| o.as_signed()) } }
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: CallerTrait<Self::AccountId> + From<crate::dispatch::RawOrigin<Self::AccountId>>;
	type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller_from(&mut self, o: impl Into<Self>);
	fn set_caller(&mut self, c: Self::PalletsOrigin);
	fn filter_call(&self, c: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(w: Self::AccountId) -> Self;
	fn as_signer(&self) -> Option<&Self::AccountId> { self.caller().as_signed() }
	fn as_system_ref(&self) -> Option<&crate::dispatch::RawOrigin<Self::AccountId>> { self.caller().as_system_ref() }
}
pub trait EnsureOrigin<O> {
	type Success;
	fn ensure_origin(o: O) -> Result<Self::Success, BadOrigin> { Self::try_origin(o).map_err(|_| BadOrigin) }
	fn try_origin(o: O) -> Result<Self::Success, O>;
}
pub enum Either<L, R> { Left(L), Right(R) }
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> { L::try_origin(o).map(Either::Left).or_else(|o| R::try_origin(o).map(Either::Right)) }
}
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O) -> Result<Self::Success, O> { L::try_origin(o).or_else(R::try_origin) }
}
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> { type Success = S; fn try_origin(o: O) -> Result<S, O> { Err(o) } }
pub trait PrivilegeCmp<O> { fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering>; }
pub struct EqualPrivilegeOnly;
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly { fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering> { (l == r).then_some(std::cmp::Ordering::Equal) } }

// ---- filters and membership
pub trait Contains<T> { fn contains(t: &T) -> bool; }
pub struct Everything;
impl<T> Contains<T> for Everything { fn contains(_: &T) -> bool { true } }
pub struct Nothing;
impl<T> Contains<T> for Nothing { fn contains(_: &T) -> bool { false } }
pub trait InstanceFilter<T>: Sized + Send + Sync { fn filter(&self, _: &T) -> bool; fn is_superset(&self, _o: &Self) -> bool { false } }
impl<T> InstanceFilter<T> for () { fn filter(&self, _: &T) -> bool { true } fn is_superset(&self, _o: &Self) -> bool { true } }
pub trait Len: IntoIterator { fn len(&self) -> usize; }
impl<T: IntoIterator + Clone> Len for T where <T as IntoIterator>::IntoIter: ExactSizeIterator { fn len(&self) -> usize { self.clone().into_iter().len() } }
pub trait ChangeMembers<A: Clone + Ord> {
	fn change_members(incoming: &[A], outgoing: &[A], mut new: Vec<A>) { new.sort(); Self::change_members_sorted(incoming, outgoing, &new[..]); }
	fn change_members_sorted(incoming: &[A], outgoing: &[A], sorted_new: &[A]);
	fn set_members_sorted(new: &[A], old: &[A]) { let i: Vec<A> = new.iter().filter(|a| !old.contains(a)).cloned().collect(); let o: Vec<A> = old.iter().filter(|a| !new.contains(a)).cloned().collect(); Self::change_members_sorted(&i, &o, new) }
	fn set_prime(_p: Option<A>) {}
	fn get_prime() -> Option<A> { None }
}
impl<A: Clone + Ord> ChangeMembers<A> for () { fn change_members(_: &[A], _: &[A], _: Vec<A>) {} fn change_members_sorted(_: &[A], _: &[A], _: &[A]) {} fn set_members_sorted(_: &[A], _: &[A]) {} }
pub trait InitializeMembers<A> { fn initialize_members(m: &[A]); }
impl<T> InitializeMembers<T> for () { fn initialize_members(_: &[T]) {} }
pub trait SortedMembers<T: Ord> { fn contains(t: &T) -> bool { Self::sorted_members().binary_search(t).is_ok() } fn sorted_members() -> Vec<T>; fn count() -> usize { Self::sorted_members().len() } }
pub trait OnNewAccount<A> { fn on_new_account(who: &A); }
pub trait OnKilledAccount<A> { fn on_killed_account(who: &A); }
impl<A> OnNewAccount<A> for () { fn on_new_account(_: &A) {} }
impl<A> OnKilledAccount<A> for () { fn on_killed_account(_: &A) {} }
pub trait StoredMap<K, V: Default> {
	fn get(k: &K) -> V;
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E>;
	fn mutate<R>(k: &K, f: impl FnOnce(&mut V) -> R) -> Result<R, DispatchError> { Self::try_mutate_exists(k, |a| { let mut v = a.take().unwrap_or_default(); let r = f(&mut v); *a = Some(v); Ok(r) }) }
	fn insert(k: &K, t: V) -> Result<(), DispatchError> { Self::mutate(k, |i| *i = t) }
	fn remove(k: &K) -> Result<(), DispatchError> { Self::try_mutate_exists(k, |x| { *x = None; Ok(()) }) }
}
pub trait DefensiveSaturating { fn defensive_saturating_add(self, o: Self) -> Self; fn defensive_saturating_sub(self, o: Self) -> Self; }
impl<T: Saturating> DefensiveSaturating for T { fn defensive_saturating_add(self, o: Self) -> Self { self.saturating_add(o) } fn defensive_saturating_sub(self, o: Self) -> Self { self.saturating_sub(o) } }
/// These log and go on, as in a release build.
pub trait Defensive<T> {
	fn defensive(self) -> Self;
	fn defensive_proof(self, proof: &'static str) -> Self;
	fn defensive_unwrap_or(self, other: T) -> T;
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T;
	fn defensive_unwrap_or_default(self) -> T where T: Default;
}
pub trait DefensiveResult<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>;
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok(self) -> Option<T>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E>;
}
impl<T, E> DefensiveResult<T, E> for Result<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> { self.map_err(o) }
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U { self.map_or_else(default, f) }
	fn defensive_ok(self) -> Option<T> { self.ok() }
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E> { self.map(f) }
}
pub trait DefensiveOption<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E>;
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>;
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U { self.map_or_else(default, f) }
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E> { self.ok_or_else(err) }
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E> { self.ok_or(err) }
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> { self.map(f) }
}
pub trait ContainsPair<A, B> { fn contains(a: &A, b: &B) -> bool; }
impl<A, B> ContainsPair<A, B> for Everything { fn contains(_: &A, _: &B) -> bool { true } }
impl<A, B> ContainsPair<A, B> for Nothing { fn contains(_: &A, _: &B) -> bool { false } }
pub trait TryCollect<C> { type Error; fn try_collect(self) -> Result<C, Self::Error>; }
impl<B: Get<u32>, I: ExactSizeIterator + Iterator> TryCollect<shim_base::bounded::BoundedVec<I::Item, B>> for I {
	type Error = &'static str;
	fn try_collect(self) -> Result<shim_base::bounded::BoundedVec<I::Item, B>, Self::Error> {
		if self.len() > B::get() as usize { Err("iterator length too big") } else { Ok(shim_base::bounded::BoundedVec::truncate_from(self.collect())) }
	}
}
impl<T> Defensive<T> for Option<T> {
	fn defensive(self) -> Self { self }
	fn defensive_proof(self, _: &'static str) -> Self { self }
	fn defensive_unwrap_or(self, other: T) -> T { self.unwrap_or(other) }
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { self.unwrap_or_else(f) }
	fn defensive_unwrap_or_default(self) -> T where T: Default { self.unwrap_or_default() }
}
impl<T, E> Defensive<T> for Result<T, E> {
	fn defensive(self) -> Self { self }
	fn defensive_proof(self, _: &'static str) -> Self { self }
	fn defensive_unwrap_or(self, other: T) -> T { self.unwrap_or(other) }
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { self.unwrap_or_else(|_| f()) }
	fn defensive_unwrap_or_default(self) -> T where T: Default { self.unwrap_or_default() }
}
pub trait UnixTime { fn now() -> std::time::Duration; }
pub trait Time { type Moment; fn now() -> Self::Moment; }
pub trait Randomness<O, B> { fn random(s: &[u8]) -> (O, B); }
pub trait FindAuthor<A> { fn find_author<'a, I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>>(d: I) -> Option<A>; }
pub trait EstimateCallFee<C, B> { fn estimate_call_fee(c: &C, p: crate::dispatch::PostDispatchInfo) -> B; }
pub struct LinearStoragePrice<B, S, Bal>(PhantomData<(B, S, Bal)>);
pub struct EnqueueWithOrigin<T>(PhantomData<T>);
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct TrackedStorageKey { pub key: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct StorageInfo { pub prefix: Vec<u8> }
pub trait WhitelistedStorageKeys {}

// ---- currencies
pub use tokens::{currency::*, fungible, imbalance::{Imbalance, OnUnbalanced, SameOrOther, SignedImbalance}, BalanceStatus, ExistenceRequirement, WithdrawReasons};
pub type LockIdentifier = [u8; 8];
pub mod tokens {
	use super::*;
	pub use misc::*;
	pub use imbalance::Imbalance;
	pub mod misc {
		use super::*;
		pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static + EncodeLike + std::iter::Sum {}
		impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static + EncodeLike + std::iter::Sum> Balance for T {}
		#[derive(Copy, Clone, Debug, Eq, PartialEq)]
		pub enum Precision { Exact, BestEffort }
		#[derive(Copy, Clone, Debug, Eq, PartialEq)]
		pub enum Preservation { Expendable, Protect, Preserve }
		#[derive(Copy, Clone, Debug, Eq, PartialEq)]
		pub enum Fortitude { Polite, Force }
		#[derive(Copy, Clone, Debug, Eq, PartialEq)]
		pub enum Restriction { Free, OnHold }
		#[derive(Copy, Clone, Debug, Eq, PartialEq)]
		pub enum Provenance { Minted, Extant }
		#[derive(Copy, Clone, Debug, Eq, PartialEq)]
		pub enum WithdrawConsequence<B> { BalanceLow, WouldDie, UnknownAsset, Underflow, Overflow, Frozen, ReducedToZero(B), Success }
		impl<B: Zero> WithdrawConsequence<B> {
			pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
				use shim_base::runtime::{ArithmeticError, TokenError};
				Err(match self {
					WithdrawConsequence::BalanceLow => TokenError::FundsUnavailable.into(),
					WithdrawConsequence::WouldDie => TokenError::OnlyProvider.into(),
					WithdrawConsequence::UnknownAsset => TokenError::UnknownAsset.into(),
					WithdrawConsequence::Underflow => ArithmeticError::Underflow.into(),
					WithdrawConsequence::Overflow => ArithmeticError::Overflow.into(),
					WithdrawConsequence::Frozen => TokenError::Frozen.into(),
					WithdrawConsequence::ReducedToZero(_) if keep_nonzero => TokenError::NotExpendable.into(),
					WithdrawConsequence::ReducedToZero(r) => return Ok(r),
					WithdrawConsequence::Success => return Ok(B::zero()),
				})
			}
		}
		#[derive(Copy, Clone, Debug, Eq, PartialEq)]
		pub enum DepositConsequence { BelowMinimum, CannotCreate, UnknownAsset, Overflow, Success, Blocked }
		impl DepositConsequence {
			pub fn into_result(self) -> DispatchResult {
				use shim_base::runtime::{ArithmeticError, TokenError};
				match self {
					DepositConsequence::BelowMinimum => Err(TokenError::BelowMinimum.into()),
					DepositConsequence::CannotCreate => Err(TokenError::CannotCreate.into()),
					DepositConsequence::UnknownAsset => Err(TokenError::UnknownAsset.into()),
					DepositConsequence::Blocked => Err(TokenError::Blocked.into()),
					DepositConsequence::Overflow => Err(ArithmeticError::Overflow.into()),
					DepositConsequence::Success => Ok(()),
				}
			}
		}
		#[derive(Copy, Clone, Debug, Eq, PartialEq)]
		pub enum ExistenceRequirement { KeepAlive, AllowDeath }
		#[derive(Copy, Clone, Debug, Eq, PartialEq)]
		pub enum BalanceStatus { Free, Reserved }
		#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, TypeInfo, MaxEncodedLen)]
		pub struct WithdrawReasons { pub bits: u8 }
		impl WithdrawReasons {
			pub const TRANSACTION_PAYMENT: Self = Self { bits: 1 };
			pub const TRANSFER: Self = Self { bits: 2 };
			pub const RESERVE: Self = Self { bits: 4 };
			pub const FEE: Self = Self { bits: 8 };
			pub const TIP: Self = Self { bits: 16 };
			pub const fn all() -> Self { Self { bits: 31 } }
			pub const fn empty() -> Self { Self { bits: 0 } }
			pub fn intersects(&self, o: Self) -> bool { self.bits & o.bits != 0 }
			pub fn contains(&self, o: Self) -> bool { self.bits & o.bits == o.bits }
			pub fn except(o: Self) -> Self { Self { bits: 31 & !o.bits } }
		}
		impl std::ops::BitOr for WithdrawReasons { type Output = Self; fn bitor(self, o: Self) -> Self { Self { bits: self.bits | o.bits } } }
	}
	pub mod imbalance {
		use super::*;
		pub enum SameOrOther<A, B> { None, Same(A), Other(B) }
		pub enum SignedImbalance<B, P: Imbalance<B>> { Positive(P), Negative(P::Opposite) }
		pub trait Imbalance<B>: Sized + Default {
			type Opposite: Imbalance<B>;
			fn zero() -> Self;
			fn drop_zero(self) -> Result<(), Self>;
			fn split(self, a: B) -> (Self, Self);
			fn merge(self, o: Self) -> Self;
			fn subsume(&mut self, o: Self);
			fn offset(self, o: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
			fn peek(&self) -> B;
			fn ration(self, first: u32, second: u32) -> (Self, Self) where B: From<u32> + Saturating + std::ops::Div<Output = B> {
				let total = first.saturating_add(second);
				if total == 0 { return (Self::zero(), Self::zero()) }
				let a = self.peek().saturating_mul(first.into()) / total.into();
				self.split(a)
			}
		}
		pub trait OnUnbalanced<I> {
			fn on_unbalanceds<B>(a: impl Iterator<Item = I>) where I: Imbalance<B> { Self::on_unbalanced(a.fold(I::default(), |i, x| x.merge(i))) }
			fn on_unbalanced(i: I) { Self::on_nonzero_unbalanced(i) }
			fn on_nonzero_unbalanced(i: I) { drop(i) }
		}
		impl<I> OnUnbalanced<I> for () {}
	}
	pub mod currency {
		use super::{imbalance::*, *};
		pub trait Currency<A> {
			type Balance: Balance;
			type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
			type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
			fn total_balance(who: &A) -> Self::Balance;
			fn can_slash(who: &A, v: Self::Balance) -> bool;
			fn total_issuance() -> Self::Balance;
			fn minimum_balance() -> Self::Balance;
			fn burn(a: Self::Balance) -> Self::PositiveImbalance;
			fn issue(a: Self::Balance) -> Self::NegativeImbalance;
			fn free_balance(who: &A) -> Self::Balance;
			fn ensure_can_withdraw(who: &A, a: Self::Balance, r: WithdrawReasons, new: Self::Balance) -> DispatchResult;
			fn transfer(s: &A, d: &A, v: Self::Balance, e: ExistenceRequirement) -> DispatchResult;
			fn slash(who: &A, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
			fn deposit_into_existing(who: &A, v: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
			fn deposit_creating(who: &A, v: Self::Balance) -> Self::PositiveImbalance;
			fn withdraw(who: &A, v: Self::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
			fn make_free_balance_be(who: &A, b: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
		}
		pub trait LockableCurrency<A>: Currency<A> {
			type Moment;
			type MaxLocks: Get<u32>;
			fn set_lock(id: LockIdentifier, who: &A, a: Self::Balance, r: WithdrawReasons);
			fn extend_lock(id: LockIdentifier, who: &A, a: Self::Balance, r: WithdrawReasons);
			fn remove_lock(id: LockIdentifier, who: &A);
		}
		pub trait ReservableCurrency<A>: Currency<A> {
			fn can_reserve(who: &A, v: Self::Balance) -> bool;
			fn slash_reserved(who: &A, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
			fn reserved_balance(who: &A) -> Self::Balance;
			fn reserve(who: &A, v: Self::Balance) -> DispatchResult;
			fn unreserve(who: &A, v: Self::Balance) -> Self::Balance;
		}
		pub trait NamedReservableCurrency<A>: ReservableCurrency<A> { type ReserveIdentifier; }
	}
	pub struct PayFromAccount<F, A>(PhantomData<(F, A)>);
	pub struct UnityAssetBalanceConversion;
	pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {}
	pub mod fungible {
		use super::*;
		pub struct HoldConsideration<A, F, R, D>(PhantomData<(A, F, R, D)>);
		pub trait Inspect<A>: Sized {
			type Balance: Balance;
			fn total_issuance() -> Self::Balance;
			fn active_issuance() -> Self::Balance { Self::total_issuance() }
			fn minimum_balance() -> Self::Balance;
			fn total_balance(who: &A) -> Self::Balance;
			fn balance(who: &A) -> Self::Balance;
			fn reducible_balance(who: &A, p: Preservation, f: Fortitude) -> Self::Balance;
			fn can_deposit(who: &A, a: Self::Balance, p: Provenance) -> DepositConsequence;
			fn can_withdraw(who: &A, a: Self::Balance) -> WithdrawConsequence<Self::Balance>;
		}
		pub trait Unbalanced<A>: Inspect<A> { fn write_balance(who: &A, a: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>; fn set_total_issuance(a: Self::Balance); }
		pub trait Mutate<A>: Inspect<A> {
			fn mint_into(who: &A, a: Self::Balance) -> Result<Self::Balance, DispatchError>;
			fn burn_from(who: &A, a: Self::Balance, p: Precision, f: Fortitude) -> Result<Self::Balance, DispatchError>;
			fn transfer(s: &A, d: &A, a: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError>;
			fn set_balance(who: &A, a: Self::Balance) -> Self::Balance;
		}
		pub trait InspectFreeze<A>: Inspect<A> {
			type Id: Encode + TypeInfo + 'static;
			fn balance_frozen(id: &Self::Id, who: &A) -> Self::Balance;
			fn balance_freezable(who: &A) -> Self::Balance { Self::total_balance(who) }
			fn can_freeze(id: &Self::Id, who: &A) -> bool;
		}
		pub trait MutateFreeze<A>: InspectFreeze<A> {
			fn set_freeze(id: &Self::Id, who: &A, a: Self::Balance) -> DispatchResult;
			fn extend_freeze(id: &Self::Id, who: &A, a: Self::Balance) -> DispatchResult;
			fn thaw(id: &Self::Id, who: &A) -> DispatchResult;
			fn ensure_frozen(id: &Self::Id, who: &A, a: Self::Balance, f: Fortitude) -> DispatchResult { if Self::balance_frozen(id, who) >= a { Ok(()) } else { Self::set_frozen(id, who, a, f) } }
			fn set_frozen(id: &Self::Id, who: &A, a: Self::Balance, f: Fortitude) -> DispatchResult {
				if f != Fortitude::Force && Self::balance_freezable(who) < a { return Err(shim_base::runtime::TokenError::FundsUnavailable.into()) }
				Self::set_freeze(id, who, a)
			}
			fn increase_frozen(id: &Self::Id, who: &A, a: Self::Balance) -> DispatchResult where Self::Balance: shim_base::runtime::traits::CheckedAdd { Self::set_frozen(id, who, shim_base::runtime::traits::CheckedAdd::checked_add(&Self::balance_frozen(id, who), &a).ok_or(shim_base::runtime::ArithmeticError::Overflow)?, Fortitude::Polite) }
			fn decrease_frozen(id: &Self::Id, who: &A, a: Self::Balance) -> DispatchResult where Self::Balance: shim_base::runtime::traits::CheckedSub { Self::set_frozen(id, who, shim_base::runtime::traits::CheckedSub::checked_sub(&Self::balance_frozen(id, who), &a).ok_or(shim_base::runtime::ArithmeticError::Underflow)?, Fortitude::Polite) }
		}
		pub trait InspectHold<A>: Inspect<A> { type Reason; fn total_balance_on_hold(who: &A) -> Self::Balance; }
	}
}
#[allow(unused)]
fn _u<A: Codec>(_: Storage) {}
