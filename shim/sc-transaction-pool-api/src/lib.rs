//! Stand-in for `sc-transaction-pool-api`: reading the transactions of a pool.
use sp_runtime::traits::Block as BlockT;
pub use sp_runtime::transaction_validity::{TransactionLongevity, TransactionPriority, TransactionTag};
use std::sync::Arc;

pub type TxHash<P> = <P as TransactionPool>::Hash;
pub type BlockHash<P> = <<P as TransactionPool>::Block as BlockT>::Hash;
pub type TransactionFor<P> = <<P as TransactionPool>::Block as BlockT>::Extrinsic;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct PoolStatus {
	pub ready: usize,
	pub ready_bytes: usize,
	pub future: usize,
	pub future_bytes: usize,
}
impl PoolStatus {
	pub fn is_empty(&self) -> bool {
		self.ready == 0 && self.future == 0
	}
}
pub trait InPoolTransaction {
	type Transaction;
	type Hash;
	fn data(&self) -> &Self::Transaction;
	fn hash(&self) -> &Self::Hash;
	fn priority(&self) -> &TransactionPriority;
	fn longevity(&self) -> &TransactionLongevity;
	fn requires(&self) -> &[TransactionTag];
	fn provides(&self) -> &[TransactionTag];
	fn is_propagable(&self) -> bool;
}
pub trait ReadyTransactions: Iterator {
	fn report_invalid(&mut self, _tx: &Self::Item);
}
impl<T> ReadyTransactions for std::vec::IntoIter<T> {
	fn report_invalid(&mut self, _tx: &T) {}
}
pub trait TransactionPool: Send + Sync {
	type Block: BlockT;
	type Hash: Clone + Send + 'static;
	type InPoolTransaction: InPoolTransaction<Transaction = TransactionFor<Self>, Hash = TxHash<Self>>;
	type Error: std::fmt::Debug;
	fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<Self::InPoolTransaction>> + Send>;
	fn futures(&self) -> Vec<Self::InPoolTransaction>;
	fn status(&self) -> PoolStatus {
		PoolStatus { ready: self.ready().count(), ready_bytes: 0, future: self.futures().len(), future_bytes: 0 }
	}
	fn hash_of(&self, xt: &TransactionFor<Self>) -> TxHash<Self>;
	fn ready_transaction(&self, _hash: &TxHash<Self>) -> Option<Arc<Self::InPoolTransaction>> {
		None
	}
}
