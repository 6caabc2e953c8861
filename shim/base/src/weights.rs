//! sp-weights.
use crate::{arith::*, prelude::*};
use std::{fmt, ops::*};
#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, RuntimeDebug, Default, serde::Serialize, serde::Deserialize)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, RuntimeDebug, Default, PartialOrd, Ord)]
pub struct OldWeight(pub u64);
macro_rules! each { ($($f:ident),*) => { $(pub const fn $f(self, o: Weight) -> Weight { Weight { ref_time: self.ref_time.$f(o.ref_time), proof_size: self.proof_size.$f(o.proof_size) } })* } }
const fn mn(a: u64, b: u64) -> u64 { if a < b { a } else { b } }
const fn mx(a: u64, b: u64) -> u64 { if a > b { a } else { b } }
impl Weight {
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn zero() -> Self { Weight { ref_time: 0, proof_size: 0 } }
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self { Weight { ref_time, proof_size } }
	pub const fn from_ref_time(ref_time: u64) -> Self { Weight { ref_time, proof_size: 0 } }
	pub const fn from_all(v: u64) -> Self { Weight { ref_time: v, proof_size: v } }
	pub const fn ref_time(&self) -> u64 { self.ref_time }
	pub const fn proof_size(&self) -> u64 { self.proof_size }
	pub fn ref_time_mut(&mut self) -> &mut u64 { &mut self.ref_time }
	pub fn proof_size_mut(&mut self) -> &mut u64 { &mut self.proof_size }
	pub const fn set_ref_time(mut self, v: u64) -> Self { self.ref_time = v; self }
	pub const fn set_proof_size(mut self, v: u64) -> Self { self.proof_size = v; self }
	pub const fn without_ref_time(&self) -> Self { Weight { ref_time: 0, proof_size: self.proof_size } }
	pub const fn without_proof_size(&self) -> Self { Weight { ref_time: self.ref_time, proof_size: 0 } }
	each!(saturating_add, saturating_sub);
	pub const fn min(self, o: Self) -> Self { Weight { ref_time: mn(self.ref_time, o.ref_time), proof_size: mn(self.proof_size, o.proof_size) } }
	pub const fn max(self, o: Self) -> Self { Weight { ref_time: mx(self.ref_time, o.ref_time), proof_size: mx(self.proof_size, o.proof_size) } }
	pub const fn saturating_mul(self, k: u64) -> Self { Weight { ref_time: self.ref_time.saturating_mul(k), proof_size: self.proof_size.saturating_mul(k) } }
	pub const fn saturating_div(self, k: u64) -> Self { Weight { ref_time: self.ref_time / k, proof_size: self.proof_size / k } }
	pub const fn div(self, k: u64) -> Self { self.saturating_div(k) }
	pub const fn mul(self, k: u64) -> Self { Weight { ref_time: self.ref_time * k, proof_size: self.proof_size * k } }
	pub const fn add(self, o: &Self) -> Self { Weight { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size } }
	pub fn add_proof_size(self, p: u64) -> Self { Weight { proof_size: self.proof_size.saturating_add(p), ..self } }
	pub fn sub_ref_time(self, p: u64) -> Self { Weight { ref_time: self.ref_time.saturating_sub(p), ..self } }
	pub fn sub_proof_size(self, p: u64) -> Self { Weight { proof_size: self.proof_size.saturating_sub(p), ..self } }
	pub fn add_ref_time(self, p: u64) -> Self { Weight { ref_time: self.ref_time.saturating_add(p), ..self } }
	pub fn saturating_accrue(&mut self, o: Self) { *self = self.saturating_add(o) }
	pub fn saturating_reduce(&mut self, o: Self) { *self = self.saturating_sub(o) }
	pub fn checked_add(&self, o: &Self) -> Option<Self> { Some(Weight { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? }) }
	pub fn checked_sub(&self, o: &Self) -> Option<Self> { Some(Weight { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? }) }
	pub fn checked_mul(self, k: u64) -> Option<Self> { Some(Weight { ref_time: self.ref_time.checked_mul(k)?, proof_size: self.proof_size.checked_mul(k)? }) }
	pub fn checked_div(self, k: u64) -> Option<Self> { Some(Weight { ref_time: self.ref_time.checked_div(k)?, proof_size: self.proof_size.checked_div(k)? }) }
	pub const fn any_gt(self, o: Self) -> bool { self.ref_time > o.ref_time || self.proof_size > o.proof_size }
	pub const fn all_gt(self, o: Self) -> bool { self.ref_time > o.ref_time && self.proof_size > o.proof_size }
	pub const fn any_lt(self, o: Self) -> bool { self.ref_time < o.ref_time || self.proof_size < o.proof_size }
	pub const fn all_lt(self, o: Self) -> bool { self.ref_time < o.ref_time && self.proof_size < o.proof_size }
	pub const fn any_lte(self, o: Self) -> bool { self.ref_time <= o.ref_time || self.proof_size <= o.proof_size }
	pub const fn all_lte(self, o: Self) -> bool { self.ref_time <= o.ref_time && self.proof_size <= o.proof_size }
	pub const fn any_gte(self, o: Self) -> bool { self.ref_time >= o.ref_time || self.proof_size >= o.proof_size }
	pub const fn all_gte(self, o: Self) -> bool { self.ref_time >= o.ref_time && self.proof_size >= o.proof_size }
}
impl Zero for Weight { fn zero() -> Self { Self::from_all(0) } fn is_zero(&self) -> bool { *self == Self::from_all(0) } }
impl Bounded for Weight { fn min_value() -> Self { Self::zero() } fn max_value() -> Self { Self::MAX } }
impl Add for Weight { type Output = Self; fn add(self, o: Self) -> Self { Weight::add(self, &o) } }
impl Sub for Weight { type Output = Self; fn sub(self, o: Self) -> Self { Weight { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size } } }
impl Mul<u64> for Weight { type Output = Self; fn mul(self, k: u64) -> Self { Weight::mul(self, k) } }
impl Div<u64> for Weight { type Output = Self; fn div(self, k: u64) -> Self { Weight::div(self, k) } }
impl AddAssign for Weight { fn add_assign(&mut self, o: Self) { *self = Add::add(*self, o) } }
impl SubAssign for Weight { fn sub_assign(&mut self, o: Self) { *self = Sub::sub(*self, o) } }
macro_rules! per { ($($p:ty),*) => { $(impl Mul<Weight> for $p { type Output = Weight; fn mul(self, w: Weight) -> Weight { Weight { ref_time: self * w.ref_time, proof_size: self * w.proof_size } } })* } }
per!(Perbill, Permill, Percent, Perquintill);
impl fmt::Display for Weight { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size) } }
impl From<u64> for Weight { fn from(v: u64) -> Self { Weight { ref_time: v, proof_size: 0 } } }
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct RuntimeDbWeight { pub read: u64, pub write: u64 }
impl RuntimeDbWeight {
	pub const fn reads(self, n: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(n), 0) }
	pub const fn writes(self, n: u64) -> Weight { Weight::from_parts(self.write.saturating_mul(n), 0) }
	pub const fn reads_writes(self, r: u64, w: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0) }
}
pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	pub struct RocksDbWeight;
	impl RocksDbWeight { pub const fn get() -> RuntimeDbWeight { RuntimeDbWeight { read: 25_000 * 1000, write: 100_000 * 1000 } } }
	impl<I: From<RuntimeDbWeight>> crate::core::Get<I> for RocksDbWeight { fn get() -> I { RocksDbWeight::get().into() } }
	pub struct ParityDbWeight;
	impl ParityDbWeight { pub const fn get() -> RuntimeDbWeight { RuntimeDbWeight { read: 8_000 * 1000, write: 50_000 * 1000 } } }
	impl<I: From<RuntimeDbWeight>> crate::core::Get<I> for ParityDbWeight { fn get() -> I { ParityDbWeight::get().into() } }
	pub struct ExtrinsicBaseWeight;
	impl ExtrinsicBaseWeight { pub const fn get() -> Weight { Weight::from_parts(113_638 * 1000, 0) } }
	impl<I: From<Weight>> crate::core::Get<I> for ExtrinsicBaseWeight { fn get() -> I { ExtrinsicBaseWeight::get().into() } }
	pub struct BlockExecutionWeight;
	impl BlockExecutionWeight { pub const fn get() -> Weight { Weight::from_parts(390_584 * 1000, 0) } }
	impl<I: From<Weight>> crate::core::Get<I> for BlockExecutionWeight { fn get() -> I { BlockExecutionWeight::get().into() } }
}
pub trait WeightToFee { type Balance: AtLeast32BitUnsigned + Copy; fn weight_to_fee(w: &Weight) -> Self::Balance; }
#[derive(Clone, Debug)]
pub struct WeightToFeeCoefficient<B> { pub coeff_integer: B, pub coeff_frac: Perbill, pub negative: bool, pub degree: u8 }
pub type WeightToFeeCoefficients<T> = Vec4<WeightToFeeCoefficient<T>>;
/// Collects what `smallvec!` builds.
pub type Vec4<T> = smallvec::SmallVec<[T; 4]>;
pub trait WeightToFeePolynomial {
	type Balance: AtLeast32BitUnsigned + Copy;
	fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
impl<T: WeightToFeePolynomial> WeightToFee for T {
	type Balance = T::Balance;
	fn weight_to_fee(w: &Weight) -> T::Balance {
		Self::polynomial().iter().fold(T::Balance::zero(), |mut acc, c| {
			let b: u128 = T::Balance::saturated_from(w.ref_time()).unique_saturated_into();
			let x: u128 = b.saturating_pow(c.degree as u32);
			let frac = c.coeff_frac.mul_floor(x);
			let int = c.coeff_integer.saturating_mul(T::Balance::saturated_from(x));
			let t = T::Balance::saturated_from(frac).saturating_add(int);
			acc = if c.negative { acc.saturating_sub(t) } else { acc.saturating_add(t) };
			acc
		})
	}
}
pub struct IdentityFee<T>(PhantomData<T>);
impl<T: AtLeast32BitUnsigned + Copy> WeightToFee for IdentityFee<T> { type Balance = T; fn weight_to_fee(w: &Weight) -> T { T::saturated_from(w.ref_time()) } }
pub struct ConstantMultiplier<T, M>(PhantomData<(T, M)>);
impl<T: AtLeast32BitUnsigned + Copy, M: crate::core::Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T { T::saturated_from(w.ref_time()).saturating_mul(M::get()) }
}
pub struct FixedFee<const F: u32, T>(PhantomData<T>);
#[derive(Clone, Debug, Default)]
pub struct WeightMeter { consumed: Weight, limit: Weight }
impl WeightMeter {
	pub fn new() -> Self { Self::with_limit(Weight::MAX) }
	pub fn with_limit(limit: Weight) -> Self { WeightMeter { consumed: Weight::zero(), limit } }
	pub fn consumed(&self) -> Weight { self.consumed }
	pub fn remaining(&self) -> Weight { self.limit.saturating_sub(self.consumed) }
	pub fn consume(&mut self, w: Weight) { self.consumed.saturating_accrue(w) }
	pub fn try_consume(&mut self, w: Weight) -> Result<(), ()> { let n = self.consumed.checked_add(&w).ok_or(())?; if n.any_gt(self.limit) { return Err(()) } self.consumed = n; Ok(()) }
	pub fn can_consume(&self, w: Weight) -> bool { self.consumed.checked_add(&w).map_or(false, |t| t.all_lte(self.limit)) }
}
