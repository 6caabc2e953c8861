//! sp-arithmetic: number traits and fixed-denominator parts.
use crate::prelude::*;
pub use num_traits::{
	checked_pow, ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub}, Bounded, One, Signed, Unsigned, Zero,
};
use std::ops::*;

pub trait UniqueSaturatedFrom<T: Sized>: Sized { fn unique_saturated_from(t: T) -> Self; }
pub trait UniqueSaturatedInto<T: Sized>: Sized { fn unique_saturated_into(self) -> T; }
impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
	fn unique_saturated_from(t: T) -> Self { S::try_from(t).unwrap_or_else(|_| Bounded::max_value()) }
}
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
	fn unique_saturated_into(self) -> T { self.try_into().unwrap_or_else(|_| Bounded::max_value()) }
}
pub trait SaturatedConversion {
	fn saturated_from<T>(t: T) -> Self where Self: UniqueSaturatedFrom<T> { <Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t) }
	fn saturated_into<T>(self) -> T where Self: UniqueSaturatedInto<T> + Sized { <Self as UniqueSaturatedInto<T>>::unique_saturated_into(self) }
}
impl<T: Sized> SaturatedConversion for T {}
pub trait Saturating {
	fn saturating_add(self, rhs: Self) -> Self;
	fn saturating_sub(self, rhs: Self) -> Self;
	fn saturating_mul(self, rhs: Self) -> Self;
	fn saturating_pow(self, exp: usize) -> Self;
	fn saturating_less_one(self) -> Self where Self: One + Sized { self.saturating_sub(One::one()) }
	fn saturating_plus_one(self) -> Self where Self: One + Sized { self.saturating_add(One::one()) }
	fn saturating_inc(&mut self) where Self: One + Sized { let mut o = Self::one(); std::mem::swap(self, &mut o); *self = o.saturating_add(One::one()) }
	fn saturating_dec(&mut self) where Self: One + Sized { let mut o = Self::one(); std::mem::swap(self, &mut o); *self = o.saturating_sub(One::one()) }
	fn saturating_accrue(&mut self, amount: Self) where Self: One + Sized { let mut o = Self::one(); std::mem::swap(self, &mut o); *self = o.saturating_add(amount) }
	fn saturating_reduce(&mut self, amount: Self) where Self: One + Sized { let mut o = Self::one(); std::mem::swap(self, &mut o); *self = o.saturating_sub(amount) }
}
macro_rules! sat { ($($t:ty),*) => { $(impl Saturating for $t {
	fn saturating_add(self, o: Self) -> Self { <$t>::saturating_add(self, o) }
	fn saturating_sub(self, o: Self) -> Self { <$t>::saturating_sub(self, o) }
	fn saturating_mul(self, o: Self) -> Self { <$t>::saturating_mul(self, o) }
	fn saturating_pow(self, e: usize) -> Self { <$t>::saturating_pow(self, e as u32) }
})* } }
sat!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
pub trait CheckedConversion {
	fn checked_from<T>(t: T) -> Option<Self> where Self: TryFrom<T> { <Self as TryFrom<T>>::try_from(t).ok() }
	fn checked_into<T>(self) -> Option<T> where Self: TryInto<T> + Sized { self.try_into().ok() }
}
impl<T: Sized> CheckedConversion for T {}
macro_rules! ensure_ops { ($($tr:ident $f:ident $a:ident $af:ident $c:ident $cf:ident $e:ident);*) => { $(
	pub trait $tr: $c { fn $f(self, v: Self) -> Result<Self, crate::runtime::ArithmeticError> where Self: Sized { self.$cf(&v).ok_or(crate::runtime::ArithmeticError::$e) } }
	impl<T: $c> $tr for T {}
	pub trait $a: $tr { fn $af(&mut self, v: Self) -> Result<(), crate::runtime::ArithmeticError> where Self: Sized + Clone { *self = self.clone().$f(v)?; Ok(()) } }
	impl<T: $tr> $a for T {}
)* } }
pub trait EnsureFrom<T>: TryFrom<T> { fn ensure_from(v: T) -> Result<Self, crate::runtime::ArithmeticError> { Self::try_from(v).map_err(|_| crate::runtime::ArithmeticError::Overflow) } }
impl<T, U: TryFrom<T>> EnsureFrom<T> for U {}
pub trait EnsureInto<T>: TryInto<T> { fn ensure_into(self) -> Result<T, crate::runtime::ArithmeticError> { self.try_into().map_err(|_| crate::runtime::ArithmeticError::Overflow) } }
impl<T, U: TryInto<T>> EnsureInto<T> for U {}
pub trait IntegerSquareRoot: Sized { fn integer_sqrt(&self) -> Self; }
macro_rules! isqrt { ($($t:ty),*) => { $(impl IntegerSquareRoot for $t { fn integer_sqrt(&self) -> Self { let (mut lo, mut hi) = (0u128, (*self as u128).min(u64::MAX as u128)); while lo < hi { let m = lo + (hi - lo + 1) / 2; if m * m <= *self as u128 { lo = m } else { hi = m - 1 } } lo as $t } })* } }
isqrt!(u8, u16, u32, u64, u128);
ensure_ops!(EnsureAdd ensure_add EnsureAddAssign ensure_add_assign CheckedAdd checked_add Overflow;
	EnsureSub ensure_sub EnsureSubAssign ensure_sub_assign CheckedSub checked_sub Underflow;
	EnsureMul ensure_mul EnsureMulAssign ensure_mul_assign CheckedMul checked_mul Overflow;
	EnsureDiv ensure_div EnsureDivAssign ensure_div_assign CheckedDiv checked_div DivisionByZero);
pub trait Scale<O> { type Output; fn mul(self, o: O) -> Self::Output; fn div(self, o: O) -> Self::Output; fn rem(self, o: O) -> Self::Output; }

pub trait BaseArithmetic: parity_scale_codec::HasCompact +
	From<u8> + Zero + One + Add<Output = Self> + AddAssign + Sub<Output = Self> + SubAssign + Mul<Output = Self> + MulAssign + Div<Output = Self> + DivAssign
	+ Rem<Output = Self> + RemAssign + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + CheckedRem + Saturating
	+ PartialOrd + Ord + Bounded + TryFrom<u8> + TryFrom<u16> + TryFrom<u32> + TryFrom<u64> + TryFrom<u128> + TryFrom<usize> + TryInto<u8> + TryInto<u16>
	+ TryInto<u32> + TryInto<u64> + TryInto<u128> + TryInto<usize>
	+ UniqueSaturatedFrom<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedFrom<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedFrom<u128>
	+ UniqueSaturatedInto<u8> + UniqueSaturatedInto<u16> + UniqueSaturatedInto<u32> + UniqueSaturatedInto<u64> + UniqueSaturatedInto<u128>
{
}
macro_rules! base { ($($t:ty),*) => { $(impl BaseArithmetic for $t {})* } }
base!(u8, u16, u32, u64, u128);
pub trait AtLeast8Bit: BaseArithmetic + From<u8> {}
impl<T: BaseArithmetic + From<u8>> AtLeast8Bit for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rounding { Up, Down, NearestPrefUp, NearestPrefDown }
pub fn div_rounded(n: u128, d: u128, r: Rounding) -> u128 {
	let (q, m) = (n / d, n % d);
	let up = match r {
		Rounding::Up => m > 0,
		Rounding::Down => false,
		Rounding::NearestPrefUp => m >= d - d / 2,
		Rounding::NearestPrefDown => m > d / 2,
	};
	q + up as u128
}
pub trait PerThing: Sized + Copy + Ord + Default + std::fmt::Debug {
	const ACC: u128;
	fn part(self) -> u128;
	fn mk(p: u128) -> Self;
	fn one() -> Self { Self::mk(Self::ACC) }
	fn scale(self, b: u128, r: Rounding) -> u128 {
		let (q, m) = (b / Self::ACC, b % Self::ACC);
		(q * self.part()).saturating_add(div_rounded(m * self.part(), Self::ACC, r))
	}
}
/// Unsigned numbers a part can be taken of.
pub trait Num128: Copy { fn up(self) -> u128; fn down(v: u128) -> Self; }
macro_rules! num { ($($t:ty),*) => { $(impl Num128 for $t { fn up(self) -> u128 { self as u128 } fn down(v: u128) -> Self { v.try_into().unwrap_or(<$t>::MAX) } })* } }
num!(u8, u16, u32, u64, u128, usize);
fn to128<N: UniqueSaturatedInto<u128>>(n: N) -> u128 { n.unique_saturated_into() }

macro_rules! per { ($n:ident, $t:ty, $max:expr) => {
	#[derive(Encode, Decode, MaxEncodedLen, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Default, Debug, Hash, serde::Serialize, serde::Deserialize, scale_info::TypeInfo)]
	pub struct $n($t);
	impl PerThing for $n { const ACC: u128 = $max; fn part(self) -> u128 { self.0 as u128 } fn mk(p: u128) -> Self { $n(p.min($max) as $t) } }
	impl $n {
		pub const ACCURACY: $t = $max;
		pub const fn from_parts(p: $t) -> Self { if p > $max { $n($max) } else { $n(p) } }
		pub const fn deconstruct(self) -> $t { self.0 }
		pub const fn one() -> Self { $n($max) }
		pub const fn zero() -> Self { $n(0) }
		pub const fn is_zero(&self) -> bool { self.0 == 0 }
		pub const fn is_one(&self) -> bool { self.0 == $max }
		pub const fn from_percent(p: u32) -> Self { let p = if p > 100 { 100 } else { p }; $n((p as u128 * $max / 100) as $t) }
		pub const fn from_perthousand(p: u32) -> Self { let p = if p > 1000 { 1000 } else { p }; $n((p as u128 * $max / 1000) as $t) }
		pub fn from_float(x: f64) -> Self { $n((x.max(0.).min(1.) * ($max as f64)) as $t) }
		pub fn from_rational_with_rounding<N: UniqueSaturatedInto<u128>>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
			let (p, q) = (to128(p), to128(q));
			if q == 0 || p > q { return Err(()) }
			let factor = div_rounded(q, $max, Rounding::Up).max(1);
			let (qr, pr) = (div_rounded(q, factor, r), div_rounded(p, factor, r));
			Ok(Self::mk(div_rounded(pr * $max, qr, r)))
		}
		pub fn from_rational<N: UniqueSaturatedInto<u128>>(p: N, q: N) -> Self { Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or(Self::one()) }
		pub fn mul_floor<N: AtLeast32BitUnsigned + Clone>(self, b: N) -> N { N::unique_saturated_from(self.scale(to128(b), Rounding::Down)) }
		pub fn mul_ceil<N: AtLeast32BitUnsigned + Clone>(self, b: N) -> N { N::unique_saturated_from(self.scale(to128(b), Rounding::Up)) }
		pub fn left_from_one(self) -> Self { $n($max - self.0) }
		pub fn square(self) -> Self { self * self }
	}
	impl Saturating for $n {
		fn saturating_add(self, o: Self) -> Self { Self::mk(self.0 as u128 + o.0 as u128) }
		fn saturating_sub(self, o: Self) -> Self { $n(self.0.saturating_sub(o.0)) }
		fn saturating_mul(self, o: Self) -> Self { self * o }
		fn saturating_pow(self, e: usize) -> Self { (0..e).fold(Self::one(), |a, _| a * self) }
	}
	impl Mul for $n { type Output = Self; fn mul(self, o: Self) -> Self { Self::mk(self.0 as u128 * o.0 as u128 / $max) } }
	impl Div for $n { type Output = Self; fn div(self, o: Self) -> Self { Self::from_rational(self.0, o.0) } }
	impl Add for $n { type Output = Self; fn add(self, o: Self) -> Self { $n(self.0 + o.0) } }
	impl Sub for $n { type Output = Self; fn sub(self, o: Self) -> Self { $n(self.0 - o.0) } }
	impl<N: Unsigned + Copy + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>> Mul<N> for $n { type Output = N; fn mul(self, b: N) -> N { N::unique_saturated_from(self.scale(to128(b), Rounding::NearestPrefDown)) } }
	};
}
per!(Percent, u8, 100);
per!(Permill, u32, 1_000_000);
per!(Perbill, u32, 1_000_000_000);
per!(Perquintill, u64, 1_000_000_000_000_000_000);
pub mod per_things { pub use super::{PerThing, Perbill, Percent, Permill, Perquintill, Rounding}; }

/// floor/ceil/nearest of a*b/c over 256-bit intermediate values.
pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
	if c == 0 { return None }
	let (hi, lo) = {
		let (a1, a0, b1, b0) = (a >> 64, a & u64::MAX as u128, b >> 64, b & u64::MAX as u128);
		let mid = a1 * b0;
		let mid2 = a0 * b1;
		let lo = a0 * b0;
		let t = (lo >> 64) + (mid & u64::MAX as u128) + (mid2 & u64::MAX as u128);
		(a1 * b1 + (mid >> 64) + (mid2 >> 64) + (t >> 64), (t << 64) | (lo & u64::MAX as u128))
	};
	if hi >= c { return None }
	let (mut rem, mut q) = (hi, 0u128);
	for i in (0..128).rev() {
		let top = rem >> 127;
		rem = rem << 1 | (lo >> i & 1);
		q <<= 1;
		if top == 1 || rem >= c { rem = rem.wrapping_sub(c); q |= 1 }
	}
	let up = match r { Rounding::Up => rem > 0, Rounding::Down => false, Rounding::NearestPrefUp => rem >= c - c / 2, Rounding::NearestPrefDown => rem > c / 2 };
	q.checked_add(up as u128)
}
pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + TryFrom<u128> + TryInto<u128> + CheckedNegOrNot {}
pub trait CheckedNegOrNot {}
impl<T> CheckedNegOrNot for T {}
macro_rules! fpo { ($($t:ty),*) => { $(impl FixedPointOperand for $t {})* } }
fpo!(u8, u16, u32, u64, u128);
pub trait FixedPointNumber: Sized + Copy {
	const DIV: u128;
	fn inner128(self) -> u128;
	fn from_inner128(v: u128) -> Self;
	fn accuracy() -> u128 { Self::DIV }
	fn saturating_from_integer<N: UniqueSaturatedInto<u128>>(n: N) -> Self { Self::from_inner128(to128(n).saturating_mul(Self::DIV)) }
	fn saturating_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self {
		Self::from_inner128(multiply_by_rational_with_rounding(to128(n), Self::DIV, to128(d), Rounding::Down).unwrap_or(u128::MAX))
	}
	fn checked_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Option<Self> {
		multiply_by_rational_with_rounding(to128(n), Self::DIV, to128(d), Rounding::Down).map(Self::from_inner128)
	}
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N {
		multiply_by_rational_with_rounding(self.inner128(), n.unique_saturated_into(), Self::DIV, Rounding::Down).and_then(|x| N::try_from(x).ok()).unwrap_or(N::max_value())
	}
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
		multiply_by_rational_with_rounding(self.inner128(), n.unique_saturated_into(), Self::DIV, Rounding::Down).and_then(|x| N::try_from(x).ok())
	}
	fn saturating_mul_acc_int<N: FixedPointOperand>(self, n: N) -> N { self.saturating_mul_int(n).saturating_add(n) }
	fn trunc(self) -> Self { Self::from_inner128(self.inner128() / Self::DIV * Self::DIV) }
}
#[derive(Encode, Decode, MaxEncodedLen, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Default, Debug, serde::Serialize, serde::Deserialize, scale_info::TypeInfo)]
pub struct FixedU128(u128);
impl FixedU128 {
	pub const fn from_inner(v: u128) -> Self { FixedU128(v) }
	pub const fn into_inner(self) -> u128 { self.0 }
	pub const fn from_u32(v: u32) -> Self { FixedU128(v as u128 * 1_000_000_000_000_000_000) }
	pub const fn one() -> Self { Self::from_u32(1) }
}
impl FixedPointNumber for FixedU128 {
	const DIV: u128 = 1_000_000_000_000_000_000;
	fn inner128(self) -> u128 { self.0 }
	fn from_inner128(v: u128) -> Self { FixedU128(v) }
}
impl Bounded for FixedU128 { fn min_value() -> Self { FixedU128(0) } fn max_value() -> Self { FixedU128(u128::MAX) } }
impl Zero for FixedU128 { fn zero() -> Self { FixedU128(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl Add for FixedU128 { type Output = Self; fn add(self, o: Self) -> Self { FixedU128(self.0 + o.0) } }
impl Sub for FixedU128 { type Output = Self; fn sub(self, o: Self) -> Self { FixedU128(self.0 - o.0) } }
impl From<u128> for FixedU128 { fn from(v: u128) -> Self { FixedU128(v.saturating_mul(1_000_000_000_000_000_000)) } }
pub trait DefensiveSaturating {}
pub mod traits { pub use super::*; }
pub mod fixed_point { pub use super::*; }
