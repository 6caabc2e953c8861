//! Stand-in for `sp-blockchain`: the best block's hash.
use shim_base::api::BlockT;
pub struct Info<B: BlockT> {
	pub best_hash: B::Hash,
}
pub trait HeaderBackend<B: BlockT>: Send + Sync {
	fn info(&self) -> Info<B>;
}
