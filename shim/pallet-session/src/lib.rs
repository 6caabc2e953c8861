//! Stand-in for `pallet-session`: only what its weights are called.
use shim_base::weights::Weight as W;
pub mod weights { use super::W; pub trait WeightInfo { fn set_keys() -> W; fn purge_keys() -> W; } }
pub use weights::WeightInfo;
