//! Stand-in for `enumflags2`.
pub use shim_macros::bitflags;
use core::{fmt, marker::PhantomData, ops};
pub trait BitFlag: Copy + Clone + 'static {
	const VARIANTS: &'static [Self];
	fn bit(self) -> u64;
	type Numeric: Copy + PartialEq + Eq + fmt::Debug + Default + core::hash::Hash + PartialOrd + Ord;
	fn narrow(v: u64) -> Self::Numeric;
	fn widen(v: Self::Numeric) -> u64;
	fn empty() -> BitFlags<Self> { BitFlags::EMPTY }
	fn all() -> BitFlags<Self> { BitFlags::ALL }
	fn from_bits(b: Self::Numeric) -> Result<BitFlags<Self>, FromBitsError<Self>> { BitFlags::from_bits(b) }
}
#[derive(Debug, Clone, Copy)]
pub struct FromBitsError<T>(PhantomData<T>);
pub struct BitFlags<T: BitFlag> { v: u64, all: bool, p: PhantomData<T> }
fn mask<T: BitFlag>() -> u64 { T::VARIANTS.iter().fold(0, |a, x| a | x.bit()) }
impl<T: BitFlag> Copy for BitFlags<T> {}
impl<T: BitFlag> Clone for BitFlags<T> { fn clone(&self) -> Self { *self } }
impl<T: BitFlag> PartialEq for BitFlags<T> { fn eq(&self, o: &Self) -> bool { self.raw() == o.raw() } }
impl<T: BitFlag> Eq for BitFlags<T> {}
impl<T: BitFlag> core::hash::Hash for BitFlags<T> { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.raw().hash(h) } }
impl<T: BitFlag> Default for BitFlags<T> { fn default() -> Self { Self::EMPTY } }
impl<T: BitFlag> fmt::Debug for BitFlags<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "BitFlags(0b{:b})", self.raw()) } }
impl<T: BitFlag> From<T> for BitFlags<T> { fn from(t: T) -> Self { Self::mk(t.bit()) } }
impl<T: BitFlag> BitFlags<T> {
	pub const EMPTY: Self = BitFlags { v: 0, all: false, p: PhantomData };
	pub const ALL: Self = BitFlags { v: 0, all: true, p: PhantomData };
	fn mk(v: u64) -> Self { BitFlags { v, all: false, p: PhantomData } }
	fn raw(&self) -> u64 { if self.all { mask::<T>() } else { self.v } }
	pub fn empty() -> Self { Self::EMPTY }
	pub fn all() -> Self { Self::ALL }
	pub fn bits(self) -> T::Numeric { T::narrow(self.raw()) }
	pub fn from_bits(b: T::Numeric) -> Result<Self, FromBitsError<T>> {
		let w = T::widen(b);
		if w & !mask::<T>() == 0 { Ok(Self::mk(w)) } else { Err(FromBitsError(PhantomData)) }
	}
	pub fn from_bits_truncate(b: T::Numeric) -> Self { Self::mk(T::widen(b) & mask::<T>()) }
	pub fn from_flag(t: T) -> Self { t.into() }
	pub fn contains<B: Into<BitFlags<T>>>(self, o: B) -> bool { let o = o.into(); self.raw() & o.raw() == o.raw() }
	pub fn intersects<B: Into<BitFlags<T>>>(self, o: B) -> bool { self.raw() & o.into().raw() != 0 }
	pub fn insert<B: Into<BitFlags<T>>>(&mut self, o: B) { *self = Self::mk(self.raw() | o.into().raw()) }
	pub fn remove<B: Into<BitFlags<T>>>(&mut self, o: B) { *self = Self::mk(self.raw() & !o.into().raw()) }
	pub fn toggle<B: Into<BitFlags<T>>>(&mut self, o: B) { *self = Self::mk(self.raw() ^ o.into().raw()) }
	pub fn set<B: Into<BitFlags<T>>>(&mut self, o: B, c: bool) { if c { self.insert(o) } else { self.remove(o) } }
	pub fn is_empty(self) -> bool { self.raw() == 0 }
	pub fn is_all(self) -> bool { self.raw() == mask::<T>() }
	pub fn len(self) -> usize { self.raw().count_ones() as usize }
	pub fn iter(self) -> std::vec::IntoIter<T> {
		let mut v: Vec<T> = T::VARIANTS.iter().copied().filter(|x| self.raw() & x.bit() != 0).collect();
		v.sort_by_key(|x| x.bit());
		v.into_iter()
	}
}
impl<T: BitFlag> IntoIterator for BitFlags<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<T: BitFlag, B: Into<BitFlags<T>>> ops::BitOr<B> for BitFlags<T> { type Output = Self; fn bitor(mut self, o: B) -> Self { self.insert(o); self } }
impl<T: BitFlag, B: Into<BitFlags<T>>> ops::BitAnd<B> for BitFlags<T> { type Output = Self; fn bitand(self, o: B) -> Self { Self::mk(self.raw() & o.into().raw()) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> ops::BitXor<B> for BitFlags<T> { type Output = Self; fn bitxor(mut self, o: B) -> Self { self.toggle(o); self } }
impl<T: BitFlag> ops::Not for BitFlags<T> { type Output = Self; fn not(self) -> Self { Self::mk(mask::<T>() & !self.raw()) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> ops::BitOrAssign<B> for BitFlags<T> { fn bitor_assign(&mut self, o: B) { self.insert(o) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> ops::BitAndAssign<B> for BitFlags<T> { fn bitand_assign(&mut self, o: B) { *self = *self & o } }
impl<T: BitFlag> FromIterator<T> for BitFlags<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut s = Self::EMPTY; for x in i { s.insert(x) } s } }
impl<T: BitFlag> Extend<T> for BitFlags<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for x in i { self.insert(x) } } }
#[macro_export]
macro_rules! make_bitflags {
	( $enum:ident ::{ $($variant:ident)|* } ) => {{ let mut f = $crate::BitFlags::<$enum>::EMPTY; $( f.insert($enum::$variant); )* f }};
}
