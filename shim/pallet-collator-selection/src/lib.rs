//! Stand-in for `pallet-collator-selection`: only what its weights are called.
use shim_base::weights::Weight as W;
pub mod weights { use super::W; pub trait WeightInfo { fn set_invulnerables(_: u32) -> W; fn add_invulnerable(_: u32, _: u32) -> W; fn remove_invulnerable(_: u32) -> W; fn set_desired_candidates() -> W; fn set_candidacy_bond(_: u32, _: u32) -> W; fn update_bond(_: u32) -> W; fn register_as_candidate(_: u32) -> W; fn take_candidate_slot(_: u32) -> W; fn leave_intent(_: u32) -> W; fn note_author() -> W; fn new_session(_: u32, _: u32) -> W; } }
pub use weights::WeightInfo;
