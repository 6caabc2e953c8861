//! Stand-in for `pallet-timestamp`: only what its weights are called.
use shim_base::weights::Weight as W;
pub mod weights { use super::W; pub trait WeightInfo { fn set() -> W; fn on_finalize() -> W; } }
pub use weights::WeightInfo;
