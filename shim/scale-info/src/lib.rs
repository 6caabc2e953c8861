//! Stand-in for `scale-info`: the traits exist, the metadata they would describe is empty.
pub use shim_macros::TypeInfo;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Type;
pub struct MetaType;
pub struct Path;
pub struct TypeParameter;
impl Path {
	pub fn new(_i: &'static str, _m: &'static str) -> Path { Path }
}
impl TypeParameter {
	pub fn new<T>(_n: &'static str, _t: T) -> TypeParameter { TypeParameter }
}
pub fn meta_type<T: ?Sized>() -> MetaType { MetaType }
pub struct Builder;
impl Type {
	pub fn builder() -> Builder { Builder }
}
impl Builder {
	pub fn path(self, _p: Path) -> Self { self }
	pub fn type_params<I>(self, _p: I) -> Self { self }
	pub fn docs(self, _d: &'static [&'static str]) -> Self { self }
	pub fn composite(self, _f: build::Fields) -> Type { Type }
	pub fn variant(self, _f: build::Fields) -> Type { Type }
}
pub mod build {
	pub struct Fields;
	pub struct FieldsB;
	pub struct FieldB;
	impl Fields {
		pub fn unnamed() -> Fields { Fields }
		pub fn named() -> Fields { Fields }
		pub fn unit() -> Fields { Fields }
		pub fn field<F: FnOnce(FieldB) -> FieldB>(self, _f: F) -> Fields { self }
	}
	impl FieldB {
		pub fn ty<T: ?Sized>(self) -> FieldB { self }
		pub fn name(self, _n: &'static str) -> FieldB { self }
		pub fn type_name(self, _n: &'static str) -> FieldB { self }
		pub fn docs(self, _d: &'static [&'static str]) -> FieldB { self }
		pub fn compact<T: ?Sized>(self) -> FieldB { self }
	}
}
pub mod prelude {
	pub use std::{boxed, string, vec, format, any};
}
pub trait TypeInfo: 'static {
	type Identity: ?Sized + 'static;
	fn type_info() -> Type;
}
pub trait StaticTypeInfo: TypeInfo + 'static {}
impl<T: TypeInfo + 'static> StaticTypeInfo for T {}
macro_rules! plain { ($($t:ty),*) => { $(impl TypeInfo for $t { type Identity = Self; fn type_info() -> Type { Type } })* } }
plain!(bool, char, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, String, str, (), &'static str);
macro_rules! one { ($($t:ident),*) => { $(impl<T: 'static> TypeInfo for $t<T> { type Identity = Self; fn type_info() -> Type { Type } })* } }
use std::{boxed::Box, collections::{BTreeMap, BTreeSet, VecDeque}, marker::PhantomData, vec::Vec};
one!(Vec, Option, Box, PhantomData, BTreeSet, VecDeque);
impl<K: 'static, V: 'static> TypeInfo for BTreeMap<K, V> { type Identity = Self; fn type_info() -> Type { Type } }
impl<K: 'static, V: 'static> TypeInfo for Result<K, V> { type Identity = Self; fn type_info() -> Type { Type } }
impl<T: 'static, const N: usize> TypeInfo for [T; N] { type Identity = Self; fn type_info() -> Type { Type } }
impl<T: 'static> TypeInfo for [T] { type Identity = Self; fn type_info() -> Type { Type } }
macro_rules! tup { ($($n:ident)*) => { impl<$($n: 'static),*> TypeInfo for ($($n,)*) { type Identity = Self; fn type_info() -> Type { Type } } } }
tup!(A);
tup!(A B);
tup!(A B C);
tup!(A B C D);
tup!(A B C D E);
tup!(A B C D E F);
tup!(A B C D E F G);
tup!(A B C D E F G H);
tup!(A B C D E F G H I);
tup!(A B C D E F G H I J);
tup!(A B C D E F G H I J K);
tup!(A B C D E F G H I J K L);
