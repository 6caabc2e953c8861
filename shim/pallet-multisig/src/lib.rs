//! Stand-in for `pallet-multisig`: only what its weights are called.
use shim_base::weights::Weight as W;
pub mod weights { use super::W; pub trait WeightInfo { fn as_multi_threshold_1(_: u32) -> W; fn as_multi_create(_: u32, _: u32) -> W; fn as_multi_approve(_: u32, _: u32) -> W; fn as_multi_complete(_: u32, _: u32) -> W; fn approve_as_multi_create(_: u32) -> W; fn approve_as_multi_approve(_: u32) -> W; fn cancel_as_multi(_: u32) -> W; } }
pub use weights::WeightInfo;
