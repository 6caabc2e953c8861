//! Transaction extensions: the stand-in only checks what matters to the code under test.
use crate::Config;
use frame_support::{dispatch::DispatchInfo, pallet_prelude::*};
use shim_base::runtime::{generic::Era, traits::{DispatchInfoOf, Dispatchable, SignedExtension}};
use std::marker::PhantomData;
macro_rules! pass { ($($n:ident),*) => { $(
	#[derive(Encode, Decode, TypeInfo)]
	#[scale_info(skip_type_params(T))]
	pub struct $n<T: Config>(PhantomData<T>);
	pass!(@ $n, Self(PhantomData));
	impl<T: Config> $n<T> { pub fn new() -> Self { Self(PhantomData) } }
)* };
	(@ $n:ident, $c:expr) => {
	impl<T: Config> Clone for $n<T> { fn clone(&self) -> Self { Self(self.0.clone()) } }
	impl<T: Config> PartialEq for $n<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
	impl<T: Config> Eq for $n<T> {}
	impl<T: Config> std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(stringify!($n)) } }
	impl<T: Config + Send + Sync> SignedExtension for $n<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo> {
		const IDENTIFIER: &'static str = stringify!($n);
		type AccountId = T::AccountId;
		type Call = T::RuntimeCall;
		type AdditionalSigned = ();
		type Pre = ();
		fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) }
		fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> { self.validate(who, call, info, len).map(|_| ()) }
	} };
}
pass!(CheckNonZeroSender, CheckSpecVersion, CheckTxVersion, CheckGenesis, CheckWeight);
#[derive(Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(T))]
pub struct CheckEra<T: Config>((Era, PhantomData<T>));
impl<T: Config> CheckEra<T> { pub fn from(e: Era) -> Self { Self((e, PhantomData)) } }
pass!(@ CheckEra, ());
#[derive(Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(T))]
pub struct CheckNonce<T: Config>(#[codec(compact)] pub T::Nonce);
impl<T: Config> CheckNonce<T> { pub fn from(n: T::Nonce) -> Self { Self(n) } }
