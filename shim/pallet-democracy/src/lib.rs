//! Stand-in for `pallet-democracy`: only what its weights are called.
use shim_base::weights::Weight as W;
pub mod weights { use super::W; pub trait WeightInfo { fn propose() -> W; fn second() -> W; fn vote_new() -> W; fn vote_existing() -> W; fn emergency_cancel() -> W; fn blacklist() -> W; fn external_propose() -> W; fn external_propose_majority() -> W; fn external_propose_default() -> W; fn fast_track() -> W; fn veto_external() -> W; fn cancel_proposal() -> W; fn cancel_referendum() -> W; fn on_initialize_base(_: u32) -> W; fn on_initialize_base_with_launch_period(_: u32) -> W; fn delegate(_: u32) -> W; fn undelegate(_: u32) -> W; fn clear_public_proposals() -> W; fn unlock_remove(_: u32) -> W; fn unlock_set(_: u32) -> W; fn remove_vote(_: u32) -> W; fn remove_other_vote(_: u32) -> W; fn set_external_metadata() -> W; fn clear_external_metadata() -> W; fn set_proposal_metadata() -> W; fn clear_proposal_metadata() -> W; fn set_referendum_metadata() -> W; fn clear_referendum_metadata() -> W; } }
pub use weights::WeightInfo;
