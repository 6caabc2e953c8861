//! The node's query layer on the world runtime: the RPC handlers of the pallets, calling the
//! runtime APIs as the repository's runtime implements them.
#![allow(unused_imports)]
use std::sync::Arc;
use world::*;
use world::sp_runtime::traits::Block as BlockT;
use frame_support::dispatch::GetDispatchInfo;

pub use pallet_frequency_tx_payment_rpc as fee_rpc;
pub use pallet_handles_rpc as handles_rpc;
pub use pallet_messages_rpc as messages_rpc;
pub use pallet_msa_rpc as msa_rpc;
pub use pallet_schemas_rpc as schemas_rpc;
pub use pallet_stateful_storage_rpc as storage_rpc;
pub use {frequency_rpc, sc_transaction_pool_api, jsonrpsee, sp_api, sp_blockchain, sp_rpc, common_helpers};

pub struct RuntimeApiImpl;
mod apis {
	use super::*;
	use world::Block;
	use frame_support::{pallet_prelude::*, weights::Weight, dispatch::GetDispatchInfo};
	include!("../../../wrap/runtime-items/apis.rs");
}
/// A node whose best block is the current state of this thread.
pub struct Node;
pub fn node() -> Arc<Node> {
	Arc::new(Node)
}
impl sp_api::ProvideRuntimeApi<Block> for Node {
	type Api = RuntimeApiImpl;
	fn runtime_api(&self) -> sp_api::ApiRef<'_, RuntimeApiImpl> {
		RuntimeApiImpl.into()
	}
}
impl sp_blockchain::HeaderBackend<Block> for Node {
	fn info(&self) -> sp_blockchain::Info<Block> {
		sp_blockchain::Info { best_hash: Default::default() }
	}
}
