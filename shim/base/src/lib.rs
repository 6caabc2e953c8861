//! Stand-in for the `sp-*` crates. The crates named `sp-core`, `sp-io`, `sp-runtime`, ... re-export its modules.
#![allow(clippy::all, deprecated)]
extern crate self as shim_base;
pub mod api;
pub mod arith;
pub mod bounded;
pub mod core;
pub mod hashing;
pub mod io;
pub mod offchain;
pub mod runtime;
pub mod weights;
pub mod prelude {
	pub use parity_scale_codec::{self, Codec, Decode, Encode, EncodeLike, FullCodec, FullEncode, HasCompact, Input, MaxEncodedLen, Output};
	pub use scale_info::{self, TypeInfo};
	pub use shim_macros::RuntimeDebug;
	pub use std::{marker::PhantomData, sync::Arc};
}
#[doc(hidden)]
pub use parity_scale_codec;
#[doc(hidden)]
pub use serde;
#[doc(hidden)]
pub use shim_macros::__parameter_types;
