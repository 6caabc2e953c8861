//! Stand-in for `pallet-preimage`: only what its weights are called.
use shim_base::weights::Weight as W;
pub mod weights { use super::W; pub trait WeightInfo { fn note_preimage(_: u32) -> W; fn note_requested_preimage(_: u32) -> W; fn note_no_deposit_preimage(_: u32) -> W; fn unnote_preimage() -> W; fn unnote_no_deposit_preimage() -> W; fn request_preimage() -> W; fn request_no_deposit_preimage() -> W; fn request_unnoted_preimage() -> W; fn request_requested_preimage() -> W; fn unrequest_preimage() -> W; fn unrequest_unnoted_preimage() -> W; fn unrequest_multi_referenced_preimage() -> W; fn ensure_updated(_: u32) -> W; } }
pub use weights::WeightInfo;
