use crate::traits::IsSubType;
pub use crate::traits::{CallMetadataShim as CallMetadata, GetCallIndex, GetCallMetadata, GetCallName, GetStorageVersion, UnfilteredDispatchable};
pub use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, HasCompact, Input, MaxEncodedLen, Output};
pub use scale_info::TypeInfo;
pub use shim_base::runtime::{traits::Dispatchable, DispatchError, DispatchErrorWithPostInfo as BaseErr, DispatchResult};
use shim_base::{runtime::{traits::{Printable, SignedExtension}, generic::UncheckedExtrinsic}, weights::Weight};
use serde::{Deserialize, Serialize};

pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo>;
pub type DispatchErrorWithPostInfo = BaseErr<PostDispatchInfo>;
pub trait Callable<T> { type RuntimeCall: UnfilteredDispatchable + Codec + Clone + PartialEq + Eq; }
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;
pub trait Parameter: Codec + EncodeLike + Clone + Eq + std::fmt::Debug + TypeInfo {}
impl<T: Codec + EncodeLike + Clone + Eq + std::fmt::Debug + TypeInfo> Parameter for T {}

#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId> { Root, Signed(AccountId), None }
impl<A> From<Option<A>> for RawOrigin<A> { fn from(s: Option<A>) -> Self { match s { Some(w) => RawOrigin::Signed(w), None => RawOrigin::None } } }
impl<A> RawOrigin<A> { pub fn as_signed(&self) -> Option<&A> { match self { RawOrigin::Signed(x) => Some(x), _ => None } } }

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub enum Pays { Yes, No }
impl Default for Pays { fn default() -> Self { Pays::Yes } }
impl From<Pays> for PostDispatchInfo { fn from(pays_fee: Pays) -> Self { PostDispatchInfo { actual_weight: None, pays_fee } } }
#[derive(PartialEq, Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, Serialize, Deserialize)]
pub enum DispatchClass { Normal, Operational, Mandatory }
impl Default for DispatchClass { fn default() -> Self { DispatchClass::Normal } }
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] { &[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory] }
	pub fn non_mandatory() -> &'static [DispatchClass] { &[DispatchClass::Normal, DispatchClass::Operational] }
}
pub trait OneOrMany<T> { type Iter: Iterator<Item = T>; fn into_iter(self) -> Self::Iter; }
impl OneOrMany<DispatchClass> for DispatchClass { type Iter = std::iter::Once<DispatchClass>; fn into_iter(self) -> Self::Iter { std::iter::once(self) } }
impl<'a> OneOrMany<DispatchClass> for &'a [DispatchClass] { type Iter = std::iter::Cloned<std::slice::Iter<'a, DispatchClass>>; fn into_iter(self) -> Self::Iter { self.iter().cloned() } }

#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchInfo { pub weight: Weight, pub class: DispatchClass, pub pays_fee: Pays }
pub trait GetDispatchInfo { fn get_dispatch_info(&self) -> DispatchInfo; }
impl GetDispatchInfo for () { fn get_dispatch_info(&self) -> DispatchInfo { DispatchInfo::default() } }
impl<A, C: GetDispatchInfo, S, E> GetDispatchInfo for UncheckedExtrinsic<A, C, S, E> { fn get_dispatch_info(&self) -> DispatchInfo { self.function.get_dispatch_info() } }
impl<C: GetDispatchInfo, E> GetDispatchInfo for shim_base::runtime::testing::TestXt<C, E> { fn get_dispatch_info(&self) -> DispatchInfo { self.call.get_dispatch_info() } }
impl GetDispatchInfo for shim_base::runtime::OpaqueExtrinsic { fn get_dispatch_info(&self) -> DispatchInfo { DispatchInfo::default() } }
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo { pub actual_weight: Option<Weight>, pub pays_fee: Pays }
impl PostDispatchInfo {
	pub fn calc_unspent(&self, i: &DispatchInfo) -> Weight { i.weight - self.calc_actual_weight(i) }
	pub fn calc_actual_weight(&self, i: &DispatchInfo) -> Weight { match self.actual_weight { Some(w) => w.min(i.weight), None => i.weight } }
	pub fn pays_fee(&self, i: &DispatchInfo) -> Pays { if i.pays_fee == Pays::No || self.pays_fee == Pays::No { Pays::No } else { Pays::Yes } }
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo { fn from(x: (Option<Weight>, Pays)) -> Self { PostDispatchInfo { actual_weight: x.0, pays_fee: x.1 } } }
impl From<Option<Weight>> for PostDispatchInfo { fn from(actual_weight: Option<Weight>) -> Self { PostDispatchInfo { actual_weight, pays_fee: Pays::Yes } } }
impl From<()> for PostDispatchInfo { fn from(_: ()) -> Self { Default::default() } }
impl Printable for PostDispatchInfo {}
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Weight {
	match r { Ok(p) => p, Err(e) => &e.post_info }.calc_actual_weight(i)
}
pub fn extract_actual_pays_fee(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Pays { match r { Ok(p) => p, Err(e) => &e.post_info }.pays_fee(i) }
pub trait WithPostDispatchInfo { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo; }
impl<T: Into<DispatchError>> WithPostDispatchInfo for T { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo { BaseErr { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: self.into() } } }
pub trait ClassifyDispatch<T> {}
pub trait IntoDispatchInfo { fn into_dispatch_info(self) -> DispatchInfo; }
impl IntoDispatchInfo for Weight { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self, ..Default::default() } } }
impl IntoDispatchInfo for u64 { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() } } }
impl IntoDispatchInfo for (Weight, DispatchClass) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, class: self.1, ..Default::default() } } }
impl IntoDispatchInfo for (Weight, Pays) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, pays_fee: self.1, ..Default::default() } } }
impl IntoDispatchInfo for (Weight, DispatchClass, Pays) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, class: self.1, pays_fee: self.2 } } }
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct PerDispatchClass<T> { normal: T, operational: T, mandatory: T }
impl<T> PerDispatchClass<T> {
	pub fn new(f: impl Fn(DispatchClass) -> T) -> Self { PerDispatchClass { normal: f(DispatchClass::Normal), operational: f(DispatchClass::Operational), mandatory: f(DispatchClass::Mandatory) } }
	pub fn get(&self, c: DispatchClass) -> &T { match c { DispatchClass::Normal => &self.normal, DispatchClass::Operational => &self.operational, DispatchClass::Mandatory => &self.mandatory } }
	pub fn get_mut(&mut self, c: DispatchClass) -> &mut T { match c { DispatchClass::Normal => &mut self.normal, DispatchClass::Operational => &mut self.operational, DispatchClass::Mandatory => &mut self.mandatory } }
	pub fn set(&mut self, v: T, c: impl OneOrMany<DispatchClass>) where T: Clone { for c in c.into_iter() { *self.get_mut(c) = v.clone() } }
}
pub type ConsumedWeight = PerDispatchClass<Weight>;
impl PerDispatchClass<Weight> {
	pub fn total(&self) -> Weight { self.normal.saturating_add(self.operational).saturating_add(self.mandatory) }
	pub fn accrue(&mut self, w: Weight, c: DispatchClass) { let x = self.get_mut(c); *x = x.saturating_add(w) }
}
pub mod dispatchable { pub use super::*; }
#[allow(unused)]
fn _u<T: IsSubType<T>, S: SignedExtension>() {}
