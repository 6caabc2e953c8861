//! Stand-in for `pallet-scheduler`: only what its weights are called.
use shim_base::weights::Weight as W;
pub mod weights { use super::W; pub trait WeightInfo { fn service_agendas_base() -> W; fn service_agenda_base(_: u32) -> W; fn service_task_base() -> W; fn service_task_fetched(_: u32) -> W; fn service_task_named() -> W; fn service_task_periodic() -> W; fn execute_dispatch_signed() -> W; fn execute_dispatch_unsigned() -> W; fn schedule(_: u32) -> W; fn cancel(_: u32) -> W; fn schedule_named(_: u32) -> W; fn cancel_named(_: u32) -> W; } }
pub use weights::WeightInfo;
