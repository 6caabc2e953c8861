//! Stand-in for `pallet-transaction-payment`: fees of an extrinsic and how they are charged.
#![allow(clippy::all, deprecated)]
use frame_support::{
	dispatch::{DispatchClass, DispatchInfo, GetDispatchInfo, Pays, PostDispatchInfo},
	pallet_prelude::*,
	traits::{Currency, ExistenceRequirement, Imbalance, OnUnbalanced, WithdrawReasons},
	weights::{Weight, WeightToFee},
};
pub use pallet::*;
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
use shim_base::{
	arith::{FixedPointNumber, FixedPointOperand, FixedU128},
	runtime::{traits::*, transaction_validity::*},
};
use std::marker::PhantomData;
pub type Multiplier = FixedU128;
pub trait MultiplierUpdate {}
pub struct ConstFeeMultiplier<M>(PhantomData<M>);
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo)]
pub struct InclusionFee<B> { pub base_fee: B, pub len_fee: B, pub adjusted_weight_fee: B }
impl<B: AtLeast32BitUnsigned + Copy> InclusionFee<B> { pub fn inclusion_fee(&self) -> B { self.base_fee.saturating_add(self.len_fee).saturating_add(self.adjusted_weight_fee) } }
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo)]
pub struct FeeDetails<B> { pub inclusion_fee: Option<InclusionFee<B>>, pub tip: B }
impl<B: AtLeast32BitUnsigned + Copy> FeeDetails<B> { pub fn final_fee(&self) -> B { self.inclusion_fee.as_ref().map(|i| i.inclusion_fee()).unwrap_or_else(B::zero).saturating_add(self.tip) } }
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo)]
pub struct RuntimeDispatchInfo<B> { pub weight: Weight, pub class: DispatchClass, pub partial_fee: B }
type Bal<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
pub trait OnChargeTransaction<T: Config> {
	type Balance: frame_support::traits::tokens::Balance + FixedPointOperand;
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(who: &T::AccountId, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance, paid: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
}
pub struct CurrencyAdapter<C, O>(PhantomData<(C, O)>);
impl<T: Config, C: Currency<T::AccountId>, O: OnUnbalanced<C::NegativeImbalance>> OnChargeTransaction<T> for CurrencyAdapter<C, O>
where C::Balance: FixedPointOperand {
	type Balance = C::Balance;
	type LiquidityInfo = Option<C::NegativeImbalance>;
	fn withdraw_fee(who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, fee: C::Balance, tip: C::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() { return Ok(None) }
		let r = if tip.is_zero() { WithdrawReasons::TRANSACTION_PAYMENT } else { WithdrawReasons::TRANSACTION_PAYMENT | WithdrawReasons::TIP };
		match C::withdraw(who, fee, r, ExistenceRequirement::KeepAlive) { Ok(i) => Ok(Some(i)), Err(_) => Err(InvalidTransaction::Payment.into()) }
	}
	fn correct_and_deposit_fee(who: &T::AccountId, _i: &DispatchInfoOf<T::RuntimeCall>, _p: &PostDispatchInfoOf<T::RuntimeCall>, fee: C::Balance, tip: C::Balance, paid: Self::LiquidityInfo) -> Result<(), TransactionValidityError> {
		if let Some(paid) = paid {
			let refund = paid.peek().saturating_sub(fee);
			let r = C::deposit_into_existing(who, refund).unwrap_or_else(|_| C::PositiveImbalance::zero());
			let adjusted = match paid.offset(r) {
				frame_support::traits::SameOrOther::Same(x) => x,
				frame_support::traits::SameOrOther::None => C::NegativeImbalance::zero(),
				frame_support::traits::SameOrOther::Other(_) => return Err(InvalidTransaction::Payment.into()),
			};
			let (tip, fee) = adjusted.split(tip);
			O::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
		}
		Ok(())
	}
}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type OperationalFeeMultiplier: Get<u8>;
		type WeightToFee: WeightToFee<Balance = Bal<Self>>;
		type LengthToFee: WeightToFee<Balance = Bal<Self>>;
		type FeeMultiplierUpdate;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> { TransactionFeePaid { who: T::AccountId, actual_fee: Bal<T>, tip: Bal<T> } }
	#[pallet::type_value]
	pub fn NextFeeMultiplierOnEmpty() -> Multiplier { Multiplier::one() }
	#[pallet::storage]
	#[pallet::getter(fn next_fee_multiplier)]
	pub type NextFeeMultiplier<T: Config> = StorageValue<_, Multiplier, ValueQuery, NextFeeMultiplierOnEmpty>;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> { pub multiplier: Multiplier, pub _config: PhantomData<T> }
	impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { multiplier: Multiplier::one(), _config: PhantomData } } }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> { fn build(&self) { NextFeeMultiplier::<T>::put(self.multiplier) } }
}
impl<T: Config> Pallet<T> {
	pub fn compute_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: Bal<T>) -> Bal<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo> { Self::compute_fee_details(len, info, tip).final_fee() }
	pub fn compute_fee_details(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: Bal<T>) -> FeeDetails<Bal<T>> where T::RuntimeCall: Dispatchable<Info = DispatchInfo> { Self::raw(len, info.weight, tip, info.pays_fee, info.class) }
	pub fn compute_actual_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, tip: Bal<T>) -> Bal<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> { Self::compute_actual_fee_details(len, info, post, tip).final_fee() }
	pub fn compute_actual_fee_details(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, tip: Bal<T>) -> FeeDetails<Bal<T>> where T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> { Self::raw(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info.class) }
	pub fn query_info<X: Encode + GetDispatchInfo>(x: X, len: u32) -> RuntimeDispatchInfo<Bal<T>> where T::RuntimeCall: Dispatchable<Info = DispatchInfo> { let i = x.get_dispatch_info(); RuntimeDispatchInfo { weight: i.weight, class: i.class, partial_fee: Self::compute_fee(len, &i, Zero::zero()) } }
	fn raw(len: u32, w: Weight, tip: Bal<T>, pays: Pays, class: DispatchClass) -> FeeDetails<Bal<T>> {
		if pays == Pays::No { return FeeDetails { inclusion_fee: None, tip } }
		let adjusted_weight_fee = NextFeeMultiplier::<T>::get().saturating_mul_int(Self::weight_to_fee(w));
		let base_fee = Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic);
		FeeDetails { inclusion_fee: Some(InclusionFee { base_fee, len_fee: Self::length_to_fee(len), adjusted_weight_fee }), tip }
	}
	pub fn length_to_fee(l: u32) -> Bal<T> { T::LengthToFee::weight_to_fee(&Weight::from_parts(l as u64, 0)) }
	pub fn weight_to_fee(w: Weight) -> Bal<T> { T::WeightToFee::weight_to_fee(&w.min(T::BlockWeights::get().max_block)) }
}
#[derive(Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(T))]
pub struct ChargeTransactionPayment<T: Config>(#[codec(compact)] Bal<T>);
impl<T: Config> Clone for ChargeTransactionPayment<T> { fn clone(&self) -> Self { Self(self.0) } }
impl<T: Config> PartialEq for ChargeTransactionPayment<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: Config> Eq for ChargeTransactionPayment<T> {}
impl<T: Config> std::fmt::Debug for ChargeTransactionPayment<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "ChargeTransactionPayment<{:?}>", self.0) } }
impl<T: Config> ChargeTransactionPayment<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>, Bal<T>: Send + Sync {
	pub fn from(f: Bal<T>) -> Self { Self(f) }
	pub fn tip(&self) -> Bal<T> { self.0 }
	fn withdraw_fee(&self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<(Bal<T>, <T::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo), TransactionValidityError> {
		let fee = Pallet::<T>::compute_fee(len as u32, info, self.0);
		<T::OnChargeTransaction as OnChargeTransaction<T>>::withdraw_fee(who, call, info, fee, self.0).map(|i| (fee, i))
	}
	pub fn get_priority(info: &DispatchInfoOf<T::RuntimeCall>, len: usize, tip: Bal<T>, final_fee: Bal<T>) -> TransactionPriority {
		let max_w = T::BlockWeights::get().max_block;
		let max_l = T::BlockLength::get().max.get(info.class).clone() as u64;
		let w = info.weight.max(Weight::from_parts(1, 1)).min(max_w);
		let l = (len as u64).clamp(1, max_l);
		let per = |a: u64, b: u64| if b == 0 { u64::MAX } else { a / b };
		let by_w = per(max_w.ref_time(), w.ref_time()).min(per(max_w.proof_size(), w.proof_size()));
		let n: Bal<T> = (max_l / l).min(by_w).unique_saturated_into();
		let tip = tip.saturating_add(One::one());
		let scaled: Bal<T> = tip.saturating_mul(n);
		let p = match info.class {
			DispatchClass::Normal | DispatchClass::Mandatory => scaled,
			DispatchClass::Operational => { let m: Bal<T> = T::OperationalFeeMultiplier::get().into(); scaled.saturating_add(final_fee.saturating_mul(m).saturating_mul(n)) },
		};
		p.unique_saturated_into()
	}
}
impl<T: Config> SignedExtension for ChargeTransactionPayment<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>, Bal<T>: Send + Sync {
	const IDENTIFIER: &'static str = "ChargeTransactionPayment";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = (Bal<T>, T::AccountId, <T::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) }
	fn validate(&self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> TransactionValidity {
		let (f, _) = self.withdraw_fee(who, call, info, len)?;
		Ok(ValidTransaction { priority: Self::get_priority(info, len, self.0, f), ..Default::default() })
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let (_f, i) = self.withdraw_fee(who, call, info, len)?;
		Ok((self.0, who.clone(), i))
	}
	fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, len: usize, _r: &frame_support::dispatch::DispatchResult) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, i)) = pre {
			let fee = Pallet::<T>::compute_actual_fee(len as u32, info, post, tip);
			T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post, fee, tip, i)?;
			Pallet::<T>::deposit_event(Event::TransactionFeePaid { who, actual_fee: fee, tip });
		}
		Ok(())
	}
}
