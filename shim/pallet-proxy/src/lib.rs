//! Stand-in for `pallet-proxy`: only what its weights are called.
use shim_base::weights::Weight as W;
pub mod weights { use super::W; pub trait WeightInfo { fn proxy(_: u32) -> W; fn proxy_announced(_: u32, _: u32) -> W; fn remove_announcement(_: u32, _: u32) -> W; fn reject_announcement(_: u32, _: u32) -> W; fn announce(_: u32, _: u32) -> W; fn add_proxy(_: u32) -> W; fn remove_proxy(_: u32) -> W; fn remove_proxies(_: u32) -> W; fn create_pure(_: u32) -> W; fn kill_pure(_: u32) -> W; } }
pub use weights::WeightInfo;
