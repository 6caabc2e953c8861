//! Stand-in for `frame-support`: storage, dispatch and the traits that pallets are written against.
#![allow(clippy::all, deprecated)]
extern crate self as frame_support;
pub mod dispatch;
pub mod hash;
pub mod storage;
pub mod traits;
pub use hash::*;
pub use shim_base::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use shim_base::core::storage as sp_storage;
pub use shim_base::parameter_types;
pub use shim_base::runtime as sp_runtime;
pub type ConsensusEngineId = [u8; 4];
pub use shim_base::runtime::traits as sp_runtime_traits;
pub use shim_macros::{
	construct_runtime, pallet, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound,
};
pub use storage::types::{self as storage_types};
pub mod weights {
	pub use shim_base::weights::*;
	pub use crate::dispatch::{ClassifyDispatch, DispatchClass, GetDispatchInfo, Pays};
}
pub mod error { pub use shim_base::runtime::traits::{BadOrigin, LookupError}; }
pub mod unsigned {
	pub use shim_base::runtime::{traits::ValidateUnsigned, transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction}};
}
pub mod genesis_builder_helper {}
pub mod inherent { pub use std::marker::PhantomData; }
pub mod instances {
	#[derive(Clone, Copy, PartialEq, Eq, Debug, shim_macros::TypeInfo)]
	pub struct Instance1;
	#[derive(Clone, Copy, PartialEq, Eq, Debug, shim_macros::TypeInfo)]
	pub struct Instance2;
	#[derive(Clone, Copy, PartialEq, Eq, Debug, shim_macros::TypeInfo)]
	pub struct Instance3;
}
#[derive(Clone, Copy, Eq, PartialEq, shim_macros::Encode, shim_macros::Decode, Debug, shim_macros::TypeInfo)]
pub struct PalletId(pub [u8; 8]);
impl shim_base::runtime::traits::TypeId for PalletId { const TYPE_ID: [u8; 4] = *b"modl"; }

pub mod pallet_prelude {
	pub use crate::{
		dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays},
		ensure,
		hash::*,
		storage::{
			bounded_vec::BoundedVec,
			types::{CountedStorageMap, Key as NMapKey, OptionQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery},
		},
		traits::{BuildGenesisConfig, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInfoTrait, StorageVersion, TypedGet},
		CloneNoBound, DebugNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound,
	};
	pub use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	pub use scale_info::TypeInfo;
	pub use shim_base::{
		runtime::{
			traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned},
			transaction_validity::{InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction},
		},
		weights::Weight,
	};
	pub use shim_macros::RuntimeDebug;
	pub use std::marker::PhantomData;
	pub use crate::storage;
}
#[doc(hidden)]
pub mod __private {
	pub use crate::dispatch::{CallableCallFor, RawOrigin};
	pub use parity_scale_codec::{self, Decode, Encode, EncodeLike, MaxEncodedLen};
	pub use scale_info::{self, TypeInfo};
	pub use shim_base::core::{storage::Storage, Void};
	pub use shim_base::hashing::{blake2_256, twox_128};
	pub use shim_base::io::{self as sp_io, BasicExternalities, TestExternalities};
	pub use shim_base::runtime::traits::{Dispatchable, GetRuntimeBlockType, ValidateUnsigned};
	pub use shim_base::runtime::transaction_validity::{TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction};
	pub use shim_base::runtime::{self as sp_runtime, BuildStorage, ModuleError};
	pub use shim_macros::RuntimeDebug;
	pub use log;
	pub use serde;
	pub use shim_base::io::storage::dump as state_dump;
	#[derive(Clone, PartialEq, Eq, Debug, shim_macros::Encode, shim_macros::Decode, shim_macros::TypeInfo)]
	pub enum Never {}
	pub trait GenesisOf<P> { fn assimilate(&self); }
}

#[macro_export]
macro_rules! ensure { ($x:expr, $y:expr $(,)?) => {{ if !$x { $crate::fail!($y) } }} }
#[macro_export]
macro_rules! fail { ($y:expr) => {{ return Err($y.into()) }} }
#[macro_export]
macro_rules! bail { ($y:expr) => {{ return Err($y.into()) }} }
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => { let is = $x; match is { Ok(_) => (), _ => assert!(false, "Expected Ok(_). Got {:#?}", is) } };
	($x:expr, $y:expr $(,)?) => { assert_eq!($x, Ok($y)) };
}
#[macro_export]
macro_rules! assert_err { ($x:expr, $y:expr $(,)?) => { assert_eq!($x, Err($y.into())) } }
#[macro_export]
macro_rules! assert_err_ignore_postinfo { ($x:expr, $y:expr $(,)?) => { $crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y) } }
#[macro_export]
macro_rules! assert_noop { ($x:expr, $y:expr $(,)?) => { let h = $crate::__private::state_dump(); $crate::assert_err!($x, $y); assert!(h == $crate::__private::state_dump(), "storage has been mutated") } }
#[macro_export]
macro_rules! assert_storage_noop { ($x:expr $(,)?) => { let h = $crate::__private::state_dump(); $x; assert!(h == $crate::__private::state_dump(), "storage has been mutated") } }
#[macro_export]
macro_rules! assert_error_encoded_size { ($($t:tt)*) => {} }
#[macro_export]
macro_rules! defensive { ($($t:tt)*) => {{ debug_assert!(false, "defensive failure"); }} }
#[macro_export]
macro_rules! defensive_assert { ($c:expr $(, $($t:tt)*)?) => { debug_assert!($c) } }
#[macro_export]
macro_rules! ord_parameter_types { ($($t:tt)*) => { $crate::parameter_types! { $($t)* } } }
