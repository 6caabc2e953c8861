//! Stand-in for `pallet-treasury`: only what its weights are called.
use shim_base::weights::Weight as W;
pub mod weights { use super::W; pub trait WeightInfo { fn spend_local() -> W; fn propose_spend() -> W; fn reject_proposal() -> W; fn approve_proposal(_: u32) -> W; fn remove_approval() -> W; fn on_initialize_proposals(_: u32) -> W; fn spend() -> W; fn payout() -> W; fn check_status() -> W; fn void_spend() -> W; } }
pub use weights::WeightInfo;
