//! Stand-in for `pallet-balances`: free, reserved and frozen balances with locks and freezes, on the system's account store.
#![allow(clippy::all, deprecated)]
use frame_support::{pallet_prelude::*, traits::{fungible, tokens::*, *}};
use frame_system::pallet_prelude::*;
pub use pallet::*;
use shim_base::runtime::{traits::*, ArithmeticError, TokenError};
use std::marker::PhantomData;
pub mod weights {
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	use frame_support::weights::Weight as W;
	pub trait WeightInfo { fn transfer_allow_death() -> W; fn transfer_keep_alive() -> W; fn force_set_balance_creating() -> W; fn force_set_balance_killing() -> W; fn force_transfer() -> W; fn transfer_all() -> W; fn force_unreserve() -> W; fn upgrade_accounts(_: u32) -> W; }
}
pub use weights::WeightInfo;
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub enum Reasons { Fee = 0, Misc = 1, All = 2 }
#[derive(Encode, Decode, Clone, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct BalanceLock<B> { pub id: LockIdentifier, pub amount: B, pub reasons: Reasons }
#[derive(Encode, Decode, Clone, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct IdAmount<I, B> { pub id: I, pub amount: B }
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct ExtraFlags(pub u128);
impl Default for ExtraFlags { fn default() -> Self { Self(1 << 127) } }
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Default, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct AccountData<B> { pub free: B, pub reserved: B, pub frozen: B, pub flags: ExtraFlags }
impl<B: Saturating + Copy> AccountData<B> { pub fn total(&self) -> B { self.free.saturating_add(self.reserved) } }

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config<AccountData = AccountData<<Self as Config>::Balance>> {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo;
		type Balance: frame_support::traits::tokens::Balance + MaybeSerializeDeserialize;
		type DustRemoval: OnUnbalanced<NegativeImbalance<Self>>;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier: Parameter + MaxEncodedLen;
		type RuntimeHoldReason;
		type RuntimeFreezeReason;
		type FreezeIdentifier: Parameter + MaxEncodedLen + 'static;
		type MaxLocks: Get<u32>;
		type MaxReserves: Get<u32>;
		type MaxHolds: Get<u32>;
		type MaxFreezes: Get<u32>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { account: T::AccountId, free_balance: T::Balance },
		DustLost { account: T::AccountId, amount: T::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		BalanceSet { who: T::AccountId, free: T::Balance },
		Reserved { who: T::AccountId, amount: T::Balance },
		Unreserved { who: T::AccountId, amount: T::Balance },
		Deposit { who: T::AccountId, amount: T::Balance },
		Withdraw { who: T::AccountId, amount: T::Balance },
		Slashed { who: T::AccountId, amount: T::Balance },
		Minted { who: T::AccountId, amount: T::Balance },
		Burned { who: T::AccountId, amount: T::Balance },
		Locked { who: T::AccountId, amount: T::Balance },
		Unlocked { who: T::AccountId, amount: T::Balance },
		Frozen { who: T::AccountId, amount: T::Balance },
		Thawed { who: T::AccountId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T> { VestingBalance, LiquidityRestrictions, InsufficientBalance, ExistentialDeposit, Expendability, ExistingVestingSchedule, DeadAccount, TooManyReserves, TooManyHolds, TooManyFreezes, IssuanceDeactivated, DeltaZero }
	#[pallet::storage]
	pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type InactiveIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, WeakBoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;
	#[pallet::storage]
	pub type Freezes<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, BoundedVec<IdAmount<T::FreezeIdentifier, T::Balance>, T::MaxFreezes>, ValueQuery>;
	use frame_support::WeakBoundedVec;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> { pub balances: Vec<(T::AccountId, T::Balance)> }
	impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { balances: vec![] } } }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			let t = self.balances.iter().fold(T::Balance::zero(), |a, (_, b)| a + *b);
			TotalIssuance::<T>::put(t);
			for (who, b) in &self.balances {
				assert!(*b >= T::ExistentialDeposit::get(), "the balance of any account should always be at least the existential deposit.");
				frame_system::Pallet::<T>::inc_providers(who);
				assert!(T::AccountStore::insert(who, AccountData { free: *b, ..Default::default() }).is_ok());
			}
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(50_000_000, 3593))]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(50_000_000, 6196))]
		pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let (s, d) = (T::Lookup::lookup(source)?, T::Lookup::lookup(dest)?);
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(40_000_000, 3593))]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Preserve)?;
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(40_000_000, 3593))]
		pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, keep_alive: bool) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let p = if keep_alive { Preservation::Preserve } else { Preservation::Expendable };
			let v = <Self as fungible::Inspect<_>>::reducible_balance(&s, p, Fortitude::Polite);
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, v, p)?;
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(20_000_000, 3593))]
		pub fn force_unreserve(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, amount: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let w = T::Lookup::lookup(who)?;
			let _ = <Self as ReservableCurrency<_>>::unreserve(&w, amount);
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(20_000_000, 3593))]
		pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let w = T::Lookup::lookup(who)?;
			let wipe = new_free < T::ExistentialDeposit::get();
			let new_free = if wipe { Zero::zero() } else { new_free };
			let old = Self::mutate_account(&w, |a| { let o = a.free; a.free = new_free; o })?;
			if new_free > old { drop(PositiveImbalance::<T>::new(new_free - old)) } else if new_free < old { drop(NegativeImbalance::<T>::new(old - new_free)) }
			Self::deposit_event(Event::BalanceSet { who: w, free: new_free });
			Ok(())
		}
	}
}
impl<T: Config> Pallet<T> {
	fn ed() -> T::Balance { T::ExistentialDeposit::get() }
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> { T::AccountStore::get(who) }
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { Self::account(who.borrow()).free }
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { Self::account(who.borrow()).reserved }
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { <Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Preservation::Expendable, Fortitude::Polite) }
	pub fn locks(who: &T::AccountId) -> frame_support::WeakBoundedVec<BalanceLock<T::Balance>, T::MaxLocks> { Locks::<T>::get(who) }
	fn mutate_account<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> R) -> Result<R, DispatchError> {
		Self::try_mutate_account(who, |a, _| Ok::<R, DispatchError>(f(a)))
	}
	fn try_mutate_account<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<R, E> {
		let sys = frame_system::Pallet::<T>::providers;
		let ed = Self::ed();
		let (endowed, dust, r) = T::AccountStore::try_mutate_exists(who, |maybe| {
			let is_new = maybe.is_none();
			let mut a = maybe.take().unwrap_or_default();
			let did_provide = a.free >= ed && sys(who) > 0;
			let did_consume = !is_new && (!a.reserved.is_zero() || !a.frozen.is_zero());
			let r = f(&mut a, is_new)?;
			let does_provide = a.free >= ed;
			let does_consume = !a.reserved.is_zero() || !a.frozen.is_zero();
			if !did_provide && does_provide { frame_system::Pallet::<T>::inc_providers(who); }
			if did_consume && !does_consume { frame_system::Pallet::<T>::dec_consumers(who); }
			if !did_consume && does_consume { frame_system::Pallet::<T>::inc_consumers(who)?; }
			if did_provide && !does_provide {
				frame_system::Pallet::<T>::dec_providers(who).map_err(|e| {
					if did_consume && !does_consume { let _ = frame_system::Pallet::<T>::inc_consumers(who); }
					if !did_consume && does_consume { frame_system::Pallet::<T>::dec_consumers(who); }
					e
				})?;
			}
			let endowed = is_new.then_some(a.free);
			let dust = if a.free < ed && a.reserved.is_zero() { (!a.free.is_zero()).then_some(a.free) } else { *maybe = Some(a); None };
			Ok::<_, E>((endowed, dust, r))
		})?;
		if let Some(e) = endowed { Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: e }) }
		if let Some(amount) = dust {
			Self::deposit_event(Event::DustLost { account: who.clone(), amount });
			T::DustRemoval::on_unbalanced(NegativeImbalance::new(amount));
		}
		Ok(r)
	}
	fn recompute(who: &T::AccountId, freezes: &[IdAmount<T::FreezeIdentifier, T::Balance>], locks: &[BalanceLock<T::Balance>]) -> Result<(T::Balance, T::Balance), DispatchError> {
		Self::mutate_account(who, |b| {
			let prev = b.frozen;
			b.frozen = locks.iter().map(|l| l.amount).chain(freezes.iter().map(|f| f.amount)).fold(Zero::zero(), |a: T::Balance, b| a.max(b));
			(prev, b.frozen)
		})
	}
	fn update_freezes(who: &T::AccountId, f: BoundedVec<IdAmount<T::FreezeIdentifier, T::Balance>, T::MaxFreezes>) -> DispatchResult {
		let (prev, after) = Self::recompute(who, &f, &Locks::<T>::get(who))?;
		if f.is_empty() { Freezes::<T>::remove(who) } else { Freezes::<T>::insert(who, &f) }
		if prev > after { Self::deposit_event(Event::Thawed { who: who.clone(), amount: prev - after }) } else if after > prev { Self::deposit_event(Event::Frozen { who: who.clone(), amount: after - prev }) }
		Ok(())
	}
	fn update_locks(who: &T::AccountId, l: Vec<BalanceLock<T::Balance>>) {
		let Ok((prev, after)) = Self::recompute(who, &Freezes::<T>::get(who), &l) else { return };
		let existed = Locks::<T>::contains_key(who);
		if l.is_empty() {
			Locks::<T>::remove(who);
			let _ = existed;
		} else {
			Locks::<T>::insert(who, frame_support::WeakBoundedVec::force_from(l, None));
		}
		if prev > after { Self::deposit_event(Event::Unlocked { who: who.clone(), amount: prev - after }) } else if after > prev { Self::deposit_event(Event::Locked { who: who.clone(), amount: after - prev }) }
	}
	fn decrease(who: &T::AccountId, amount: T::Balance, pr: Precision, p: Preservation, f: Fortitude) -> Result<T::Balance, DispatchError> {
		use fungible::*;
		let old = <Self as Inspect<_>>::balance(who);
		let red = <Self as Inspect<_>>::reducible_balance(who, p, f);
		let amount = match pr { Precision::BestEffort => amount.min(red), Precision::Exact => { if red < amount { return Err(TokenError::FundsUnavailable.into()) } amount } };
		let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
		<Self as Unbalanced<_>>::write_balance(who, new)?;
		Ok(old.saturating_sub(new))
	}
	fn increase(who: &T::AccountId, amount: T::Balance) -> Result<T::Balance, DispatchError> {
		use fungible::*;
		let old = <Self as Inspect<_>>::balance(who);
		let new = old.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		if new < Self::ed() { return Err(TokenError::BelowMinimum.into()) }
		if old != new { <Self as Unbalanced<_>>::write_balance(who, new)?; }
		Ok(new.saturating_sub(old))
	}
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() }
	fn minimum_balance() -> T::Balance { Self::ed() }
	fn total_balance(who: &T::AccountId) -> T::Balance { Self::account(who).total() }
	fn balance(who: &T::AccountId) -> T::Balance { Self::account(who).free }
	fn reducible_balance(who: &T::AccountId, p: Preservation, f: Fortitude) -> T::Balance {
		let a = Self::account(who);
		let mut u: T::Balance = Zero::zero();
		if f == Fortitude::Polite { u = a.frozen.saturating_sub(a.reserved) }
		if p == Preservation::Preserve
			|| p == Preservation::Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1
			|| p == Preservation::Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who)
		{
			u = u.max(Self::ed())
		}
		a.free.saturating_sub(u)
	}
	fn can_deposit(who: &T::AccountId, a: T::Balance, p: Provenance) -> DepositConsequence {
		if a.is_zero() { return DepositConsequence::Success }
		if p == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&a).is_none() { return DepositConsequence::Overflow }
		let acc = Self::account(who);
		match acc.free.checked_add(&a) { None => return DepositConsequence::Overflow, Some(n) if n < Self::ed() => return DepositConsequence::BelowMinimum, _ => () }
		if acc.total().checked_add(&a).is_none() { return DepositConsequence::Overflow }
		DepositConsequence::Success
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		use WithdrawConsequence::*;
		if amount.is_zero() { return Success }
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() { return Underflow }
		let a = Self::account(who);
		let Some(new) = a.free.checked_sub(&amount) else { return BalanceLow };
		if amount > <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Polite) { return Frozen }
		let r = if new < Self::ed() { if frame_system::Pallet::<T>::can_dec_provider(who) { ReducedToZero(new) } else { return WouldDie } } else { Success };
		if new.saturating_add(a.reserved) < a.frozen { return Frozen }
		r
	}
}
impl<T: Config> fungible::Unbalanced<T::AccountId> for Pallet<T> {
	fn write_balance(who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		let max = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Force);
		Self::mutate_account(who, |a| -> DispatchResult {
			ensure!(a.free.saturating_sub(amount) <= max, Error::<T>::InsufficientBalance);
			a.free = amount;
			Ok(())
		})??;
		Ok(None)
	}
	fn set_total_issuance(a: T::Balance) { TotalIssuance::<T>::put(a) }
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
	fn mint_into(who: &T::AccountId, a: T::Balance) -> Result<T::Balance, DispatchError> {
		TotalIssuance::<T>::get().checked_add(&a).ok_or(ArithmeticError::Overflow)?;
		let x = Self::increase(who, a)?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_add(x));
		Self::deposit_event(Event::Minted { who: who.clone(), amount: x });
		Ok(x)
	}
	fn burn_from(who: &T::AccountId, a: T::Balance, p: Precision, f: Fortitude) -> Result<T::Balance, DispatchError> {
		let x = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, f).min(a);
		ensure!(x == a || p == Precision::BestEffort, TokenError::FundsUnavailable);
		TotalIssuance::<T>::get().checked_sub(&x).ok_or(ArithmeticError::Overflow)?;
		let x = Self::decrease(who, x, Precision::BestEffort, Preservation::Expendable, f)?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(x));
		Self::deposit_event(Event::Burned { who: who.clone(), amount: x });
		Ok(x)
	}
	fn transfer(s: &T::AccountId, d: &T::AccountId, a: T::Balance, p: Preservation) -> Result<T::Balance, DispatchError> {
		use fungible::Inspect;
		<Self as Inspect<_>>::can_withdraw(s, a).into_result(p != Preservation::Expendable)?;
		<Self as Inspect<_>>::can_deposit(d, a, Provenance::Extant).into_result()?;
		if s == d { return Ok(a) }
		Self::decrease(s, a, Precision::BestEffort, p, Fortitude::Polite)?;
		let _ = Self::increase(d, a);
		Self::deposit_event(Event::Transfer { from: s.clone(), to: d.clone(), amount: a });
		Ok(a)
	}
	fn set_balance(who: &T::AccountId, a: T::Balance) -> T::Balance {
		let b = Self::account(who).free;
		if b > a { <Self as fungible::Mutate<_>>::burn_from(who, b - a, Precision::BestEffort, Fortitude::Force).map(|d| b.saturating_sub(d)) } else { <Self as fungible::Mutate<_>>::mint_into(who, a - b).map(|d| a.saturating_add(d).saturating_sub(d)) }.unwrap_or(b)
	}
}
impl<T: Config> fungible::InspectFreeze<T::AccountId> for Pallet<T> {
	type Id = T::FreezeIdentifier;
	fn balance_frozen(id: &Self::Id, who: &T::AccountId) -> T::Balance { Freezes::<T>::get(who).iter().find(|l| &l.id == id).map_or(Zero::zero(), |l| l.amount) }
	fn can_freeze(id: &Self::Id, who: &T::AccountId) -> bool { let l = Freezes::<T>::get(who); !l.is_full() || l.iter().any(|x| &x.id == id) }
}
impl<T: Config> fungible::MutateFreeze<T::AccountId> for Pallet<T> {
	fn set_freeze(id: &Self::Id, who: &T::AccountId, a: T::Balance) -> DispatchResult {
		if a.is_zero() { return <Self as fungible::MutateFreeze<_>>::thaw(id, who) }
		let mut l = Freezes::<T>::get(who);
		match l.iter().position(|x| &x.id == id) {
			Some(i) => l[i].amount = a,
			None => l.try_push(IdAmount { id: id.clone(), amount: a }).map_err(|_| Error::<T>::TooManyFreezes)?,
		}
		Self::update_freezes(who, l)
	}
	fn extend_freeze(id: &Self::Id, who: &T::AccountId, a: T::Balance) -> DispatchResult {
		if a.is_zero() { return Ok(()) }
		let mut l = Freezes::<T>::get(who);
		match l.iter().position(|x| &x.id == id) {
			Some(i) => l[i].amount = l[i].amount.max(a),
			None => l.try_push(IdAmount { id: id.clone(), amount: a }).map_err(|_| Error::<T>::TooManyFreezes)?,
		}
		Self::update_freezes(who, l)
	}
	fn thaw(id: &Self::Id, who: &T::AccountId) -> DispatchResult {
		let mut l = Freezes::<T>::get(who);
		l.retain(|x| &x.id != id);
		Self::update_freezes(who, l)
	}
}
macro_rules! imbalances { ($($n:ident, $o:ident, $f:ident;)*) => { $(
	#[must_use]
	pub struct $n<T: Config>(T::Balance, PhantomData<T>);
	impl<T: Config> $n<T> { pub fn new(b: T::Balance) -> Self { Self(b, PhantomData) } fn take(self) -> T::Balance { let b = self.0; std::mem::forget(self); b } }
	impl<T: Config> Default for $n<T> { fn default() -> Self { Self::new(Zero::zero()) } }
	impl<T: Config> std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}({:?})", stringify!($n), self.0) } }
	impl<T: Config> PartialEq for $n<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
	impl<T: Config> Eq for $n<T> {}
	impl<T: Config> Drop for $n<T> { fn drop(&mut self) { if !self.0.is_zero() { TotalIssuance::<T>::mutate(|t| *t = t.$f(self.0)) } } }
	impl<T: Config> Imbalance<T::Balance> for $n<T> {
		type Opposite = $o<T>;
		fn zero() -> Self { Self::new(Zero::zero()) }
		fn drop_zero(self) -> Result<(), Self> { if self.0.is_zero() { Ok(()) } else { Err(self) } }
		fn split(self, a: T::Balance) -> (Self, Self) { let t = self.take(); let f = t.min(a); (Self::new(f), Self::new(t - f)) }
		fn merge(self, o: Self) -> Self { let (a, b) = (self.take(), o.take()); Self::new(a.saturating_add(b)) }
		fn subsume(&mut self, o: Self) { self.0 = self.0.saturating_add(o.take()) }
		fn offset(self, o: $o<T>) -> imbalance::SameOrOther<Self, $o<T>> {
			let (a, b) = (self.take(), o.take());
			if a > b { imbalance::SameOrOther::Same(Self::new(a - b)) } else if b > a { imbalance::SameOrOther::Other($o::new(b - a)) } else { imbalance::SameOrOther::None }
		}
		fn peek(&self) -> T::Balance { self.0 }
	}
)* } }
imbalances! { PositiveImbalance, NegativeImbalance, saturating_add; NegativeImbalance, PositiveImbalance, saturating_sub; }
impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	type PositiveImbalance = PositiveImbalance<T>;
	type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(who: &T::AccountId) -> T::Balance { Self::account(who).total() }
	fn can_slash(who: &T::AccountId, v: T::Balance) -> bool { Self::account(who).free >= v }
	fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() }
	fn minimum_balance() -> T::Balance { Self::ed() }
	fn burn(a: T::Balance) -> PositiveImbalance<T> { let mut a = a; TotalIssuance::<T>::mutate(|t| { a = a.min(*t); *t -= a }); PositiveImbalance::new(a) }
	fn issue(a: T::Balance) -> NegativeImbalance<T> { let mut a = a; TotalIssuance::<T>::mutate(|t| { a = a.min(T::Balance::max_value() - *t); *t += a }); NegativeImbalance::new(a) }
	fn free_balance(who: &T::AccountId) -> T::Balance { Self::account(who).free }
	fn ensure_can_withdraw(who: &T::AccountId, a: T::Balance, _r: WithdrawReasons, new: T::Balance) -> DispatchResult {
		if a.is_zero() { return Ok(()) }
		ensure!(new >= Self::account(who).frozen, Error::<T>::LiquidityRestrictions);
		Ok(())
	}
	fn transfer(s: &T::AccountId, d: &T::AccountId, v: T::Balance, e: ExistenceRequirement) -> DispatchResult {
		if v.is_zero() || s == d { return Ok(()) }
		<Self as fungible::Mutate<_>>::transfer(s, d, v, if e == ExistenceRequirement::KeepAlive { Preservation::Preserve } else { Preservation::Expendable })?;
		Ok(())
	}
	fn slash(who: &T::AccountId, v: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		let x = v.min(Self::account(who).free);
		match Self::mutate_account(who, |a| a.free -= x) { Ok(()) => (NegativeImbalance::new(x), v - x), Err(_) => (NegativeImbalance::zero(), v) }
	}
	fn deposit_into_existing(who: &T::AccountId, v: T::Balance) -> Result<PositiveImbalance<T>, DispatchError> {
		if v.is_zero() { return Ok(PositiveImbalance::zero()) }
		Self::try_mutate_account(who, |a, is_new| {
			ensure!(!is_new, Error::<T>::DeadAccount);
			a.free = a.free.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: v });
			Ok(PositiveImbalance::new(v))
		})
	}
	fn deposit_creating(who: &T::AccountId, v: T::Balance) -> PositiveImbalance<T> {
		if v.is_zero() { return PositiveImbalance::zero() }
		Self::try_mutate_account(who, |a, is_new| -> Result<_, DispatchError> {
			ensure!(v >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
			a.free = a.free.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: v });
			Ok(PositiveImbalance::new(v))
		}).unwrap_or_else(|_| PositiveImbalance::zero())
	}
	fn withdraw(who: &T::AccountId, v: T::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<NegativeImbalance<T>, DispatchError> {
		if v.is_zero() { return Ok(NegativeImbalance::zero()) }
		Self::try_mutate_account(who, |a, _| {
			let new = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?;
			let would_kill = new < Self::ed() && a.free >= Self::ed();
			ensure!(l == ExistenceRequirement::AllowDeath || !would_kill, Error::<T>::Expendability);
			<Self as Currency<_>>::ensure_can_withdraw(who, v, r, new)?;
			a.free = new;
			Self::deposit_event(Event::Withdraw { who: who.clone(), amount: v });
			Ok(NegativeImbalance::new(v))
		})
	}
	fn make_free_balance_be(who: &T::AccountId, b: T::Balance) -> imbalance::SignedImbalance<T::Balance, PositiveImbalance<T>> {
		let r: Result<_, DispatchError> = Self::try_mutate_account(who, |a, is_new| {
			ensure!(b >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
			let i = if a.free <= b { imbalance::SignedImbalance::Positive(PositiveImbalance::new(b - a.free)) } else { imbalance::SignedImbalance::Negative(NegativeImbalance::new(a.free - b)) };
			a.free = b;
			Self::deposit_event(Event::BalanceSet { who: who.clone(), free: b });
			Ok(i)
		});
		r.unwrap_or_else(|_| imbalance::SignedImbalance::Positive(PositiveImbalance::zero()))
	}
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = BlockNumberFor<T>;
	type MaxLocks = T::MaxLocks;
	fn set_lock(id: LockIdentifier, who: &T::AccountId, a: T::Balance, r: WithdrawReasons) {
		if r == WithdrawReasons::empty() || a.is_zero() { return Self::remove_lock(id, who) }
		let n = BalanceLock { id, amount: a, reasons: Reasons::All };
		let mut l: Vec<_> = Self::locks(who).iter().cloned().collect();
		match l.iter().position(|x| x.id == id) { Some(i) => l[i] = n, None => l.push(n) }
		Self::update_locks(who, l)
	}
	fn extend_lock(id: LockIdentifier, who: &T::AccountId, a: T::Balance, r: WithdrawReasons) {
		let old = Self::locks(who).iter().find(|x| x.id == id).map_or(Zero::zero(), |l| l.amount);
		Self::set_lock(id, who, a.max(old), r)
	}
	fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
		let l: Vec<_> = Self::locks(who).iter().cloned().filter(|x| x.id != id).collect();
		Self::update_locks(who, l)
	}
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(who: &T::AccountId, v: T::Balance) -> bool {
		v.is_zero() || Self::account(who).free.checked_sub(&v).map_or(false, |n| n >= Self::ed() && n.saturating_add(T::Balance::zero()) >= Self::account(who).frozen)
	}
	fn slash_reserved(who: &T::AccountId, v: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		let x = v.min(Self::account(who).reserved);
		match Self::mutate_account(who, |a| a.reserved -= x) { Ok(()) => (NegativeImbalance::new(x), v - x), Err(_) => (NegativeImbalance::zero(), v) }
	}
	fn reserved_balance(who: &T::AccountId) -> T::Balance { Self::account(who).reserved }
	fn reserve(who: &T::AccountId, v: T::Balance) -> DispatchResult {
		if v.is_zero() { return Ok(()) }
		Self::try_mutate_account(who, |a, _| -> DispatchResult {
			a.free = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?;
			a.reserved = a.reserved.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
			<Self as Currency<_>>::ensure_can_withdraw(who, v, WithdrawReasons::RESERVE, a.free)
		})?;
		Self::deposit_event(Event::Reserved { who: who.clone(), amount: v });
		Ok(())
	}
	fn unreserve(who: &T::AccountId, v: T::Balance) -> T::Balance {
		let x = v.min(Self::account(who).reserved);
		if x.is_zero() { return v }
		if Self::mutate_account(who, |a| { a.reserved -= x; a.free = a.free.saturating_add(x) }).is_err() { return v }
		Self::deposit_event(Event::Unreserved { who: who.clone(), amount: x });
		v - x
	}
}
