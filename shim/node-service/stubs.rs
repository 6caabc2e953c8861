use futures::channel::mpsc;
use std::sync::{Arc, Mutex};
pub use log;

/// What happened on the node, in order.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
	/// A block was asked for; `made` says what became of it.
	Seal { at: u64, create_empty: bool, finalize: bool, parent: Option<u64>, made: Option<Vec<u64>> },
	Finalize { at: u64, hash: u64, justification: Option<Vec<u8>> },
}
#[derive(Default)]
pub struct State {
	pub ready: Vec<u64>,
	pub acts: Vec<Act>,
	pub listeners: Vec<mpsc::UnboundedSender<u64>>,
	pub sink: Option<mpsc::Sender<sc_consensus_manual_seal::EngineCommand<u64>>>,
	pub handlers: u32,
	pub tasks: Vec<(&'static str, std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>)>,
	pub names: Vec<&'static str>,
	/// Milliseconds a block takes to make.
	pub takes: u64,
	pub blocks: u64,
	pub start: Option<tokio::time::Instant>,
	pub network_started: bool,
}
pub type Shared = Arc<Mutex<State>>;
pub fn now(s: &Shared) -> u64 {
	let start = s.lock().unwrap().start;
	start.map_or(0, |t| t.elapsed().as_millis() as u64)
}

pub struct Client(pub Shared);
#[derive(Clone)]
pub struct Backend;
impl Backend {
	pub fn offchain_storage(&self) -> Option<()> {
		None
	}
}
pub struct Keystore;
impl Keystore {
	pub fn keystore(&self) -> () {}
}
#[derive(Clone)]
pub struct Chain;
pub struct Telemetry;
impl Telemetry {
	pub fn handle(&self) -> () {}
}
pub struct Block;
pub struct FullPool(pub Shared);
pub struct Inner(Shared);
pub struct ValidatedPool(Shared);
impl FullPool {
	pub fn pool(&self) -> Arc<Inner> {
		Arc::new(Inner(self.0.clone()))
	}
}
impl Inner {
	pub fn validated_pool(&self) -> ValidatedPool {
		ValidatedPool(self.0.clone())
	}
}
impl ValidatedPool {
	pub fn import_notification_stream(&self) -> mpsc::UnboundedReceiver<u64> {
		let (s, r) = mpsc::unbounded();
		self.0.lock().unwrap().listeners.push(s);
		r
	}
}
pub struct Status {
	pub ready: usize,
	pub future: usize,
}

pub mod sp_runtime {
	pub mod traits {
		pub trait Block {
			type Hash: Copy + Send + 'static;
			fn number(h: Self::Hash) -> u64;
			fn hash(n: u64) -> Self::Hash;
		}
		impl Block for crate::stubs::Block {
			type Hash = u64;
			fn number(h: u64) -> u64 {
				h
			}
			fn hash(n: u64) -> u64 {
				n
			}
		}
	}
}
use sp_runtime::traits::Block as BlockT;

pub mod sp_api {
	pub trait ProvideRuntimeApi<B> {}
	impl<B> ProvideRuntimeApi<B> for super::Client {}
}
pub mod sp_blockchain {
	pub trait HeaderBackend<B> {}
	impl<B> HeaderBackend<B> for super::Client {}
}
pub mod sc_client_api {
	pub use backend::{Backend, Finalizer};
	pub mod backend {
		pub trait Backend<B> {}
		impl<B> Backend<B> for crate::stubs::Backend {}
		pub trait Finalizer<B, CB> {
			fn node(&self) -> crate::stubs::Shared;
		}
		impl<B> Finalizer<B, crate::stubs::Backend> for crate::stubs::Client {
			fn node(&self) -> crate::stubs::Shared {
				self.0.clone()
			}
		}
	}
}
pub mod sc_consensus {
	pub use block_import::BlockImport;
	pub mod block_import {
		pub trait BlockImport<B> {
			type Error;
		}
		impl<B> BlockImport<B> for std::sync::Arc<crate::stubs::Client> {
			type Error = crate::stubs::sp_consensus::Error;
		}
	}
}
pub mod sp_consensus {
	#[derive(Debug)]
	pub struct Error;
	pub trait Proposer<B> {
		type Proof;
	}
	pub trait Environment<B> {
		type Proposer: Proposer<B>;
	}
	pub trait SelectChain<B> {}
	impl<B> SelectChain<B> for super::Chain {}
}
pub mod sp_inherents {
	pub trait CreateInherentDataProviders<B, X> {}
	impl<F, Fut, T, B: super::BlockT, X> CreateInherentDataProviders<B, X> for F
	where
		F: Fn(B::Hash, X) -> Fut + Sync + Send,
		Fut: std::future::Future<Output = Result<T, Box<dyn std::error::Error + Send + Sync>>> + Send + 'static,
	{
	}
}
pub mod sp_timestamp {
	pub struct InherentDataProvider;
	impl InherentDataProvider {
		pub fn from_system_time() -> Self {
			Self
		}
	}
}
pub mod sc_basic_authorship {
	pub struct ProposerFactory;
	pub struct Made;
	impl ProposerFactory {
		pub fn new<S, C, P>(_: S, _: std::sync::Arc<C>, _: std::sync::Arc<P>, _: Option<&()>, _: Option<()>) -> Self {
			Self
		}
	}
	impl<B> super::sp_consensus::Environment<B> for ProposerFactory {
		type Proposer = Made;
	}
	impl<B> super::sp_consensus::Proposer<B> for Made {
		type Proof = ();
	}
}
pub mod sc_transaction_pool_api {
	pub struct OffchainTransactionPoolFactory;
	impl OffchainTransactionPoolFactory {
		pub fn new<P>(_: std::sync::Arc<P>) -> Self {
			Self
		}
	}
	pub trait TransactionPool {
		type Block;
		fn ready(&self) -> Box<dyn Iterator<Item = u64> + Send>;
		fn status(&self) -> super::Status;
		fn node(&self) -> super::Shared;
	}
	impl TransactionPool for super::FullPool {
		type Block = super::Block;
		fn ready(&self) -> Box<dyn Iterator<Item = u64> + Send> {
			Box::new(self.0.lock().unwrap().ready.clone().into_iter())
		}
		fn status(&self) -> super::Status {
			super::Status { ready: self.0.lock().unwrap().ready.len(), future: 0 }
		}
		fn node(&self) -> super::Shared {
			self.0.clone()
		}
	}
}
pub mod sc_consensus_manual_seal {
	use super::{sc_transaction_pool_api::TransactionPool, sp_runtime::traits::Block as BlockT, Act};
	use futures::channel::oneshot;
	use std::{marker::PhantomData, sync::Arc};

	pub const MANUAL_SEAL_ENGINE_ID: [u8; 4] = *b"manl";
	#[derive(Debug, PartialEq)]
	pub enum Error {
		EmptyTransactionPool,
	}
	#[derive(Debug, PartialEq)]
	pub struct CreatedBlock<H> {
		pub hash: H,
	}
	pub type Sender<T> = Option<oneshot::Sender<Result<T, Error>>>;
	pub enum EngineCommand<H> {
		SealNewBlock { create_empty: bool, finalize: bool, parent_hash: Option<H>, sender: Sender<CreatedBlock<H>> },
		FinalizeBlock { hash: H, sender: Sender<()>, justification: Option<Vec<u8>> },
	}
	pub trait ConsensusDataProvider<B>: Send + Sync {
		type Proof;
	}
	pub struct ManualSealParams<B, BI, E, C, TP, SC, CS, CIDP, P> {
		pub block_import: BI,
		pub env: E,
		pub client: Arc<C>,
		pub pool: Arc<TP>,
		pub commands_stream: CS,
		pub select_chain: SC,
		pub consensus_data_provider: Option<Box<dyn ConsensusDataProvider<B, Proof = P>>>,
		pub create_inherent_data_providers: CIDP,
	}
	pub struct SealBlockParams<'a, B: BlockT, BI, SC, C, E, TP, CIDP, P> {
		pub sender: Sender<CreatedBlock<B::Hash>>,
		pub parent_hash: Option<B::Hash>,
		pub finalize: bool,
		pub create_empty: bool,
		pub pool: Arc<TP>,
		pub client: Arc<C>,
		pub select_chain: &'a SC,
		pub block_import: &'a mut BI,
		pub env: &'a mut E,
		pub consensus_data_provider: Option<&'a dyn ConsensusDataProvider<B, Proof = P>>,
		pub create_inherent_data_providers: &'a CIDP,
	}
	/// As the original: refuses to make an empty block unless asked to.
	pub async fn seal_block<B, BI, SC, C, E, TP, CIDP, P>(p: SealBlockParams<'_, B, BI, SC, C, E, TP, CIDP, P>)
	where
		B: BlockT,
		TP: TransactionPool<Block = B>,
	{
		let node = p.pool.node();
		let at = super::now(&node);
		let (takes, txs) = {
			let s = node.lock().unwrap();
			(s.takes, s.ready.clone())
		};
		let made = (p.create_empty || !txs.is_empty()).then_some(txs.clone());
		if made.is_some() && takes > 0 {
			tokio::time::sleep(std::time::Duration::from_millis(takes)).await;
		}
		let hash = {
			let mut s = node.lock().unwrap();
			s.acts.push(Act::Seal { at, create_empty: p.create_empty, finalize: p.finalize, parent: p.parent_hash.map(B::number), made: made.clone() });
			s.ready.retain(|t| !txs.contains(t));
			s.blocks += made.is_some() as u64;
			s.blocks
		};
		if let Some(s) = p.sender {
			let _ = s.send(if made.is_some() { Ok(CreatedBlock { hash: B::hash(hash) }) } else { Err(Error::EmptyTransactionPool) });
		}
	}
	pub struct FinalizeBlockParams<B: BlockT, F, CB> {
		pub hash: B::Hash,
		pub sender: Sender<()>,
		pub justification: Option<([u8; 4], Vec<u8>)>,
		pub finalizer: Arc<F>,
		pub _phantom: PhantomData<CB>,
	}
	pub async fn finalize_block<B, F, CB>(p: FinalizeBlockParams<B, F, CB>)
	where
		B: BlockT,
		F: super::sc_client_api::Finalizer<B, CB>,
	{
		let node = p.finalizer.node();
		let at = super::now(&node);
		let justification = p.justification.map(|(e, j)| [&e[..], &j].concat());
		node.lock().unwrap().acts.push(Act::Finalize { at, hash: B::number(p.hash), justification });
		if let Some(s) = p.sender {
			let _ = s.send(Ok(()));
		}
	}
}
pub mod sc_network {
	pub mod config {
		pub struct FullNetworkConfiguration;
		impl FullNetworkConfiguration {
			pub fn new(_: &()) -> Self {
				Self
			}
		}
	}
}
pub mod sc_offchain {
	pub struct OffchainWorkerOptions<R, K, D, T, N, F> {
		pub runtime_api_provider: R,
		pub is_validator: bool,
		pub keystore: Option<K>,
		pub offchain_db: Option<D>,
		pub transaction_pool: Option<T>,
		pub network_provider: N,
		pub enable_http_requests: bool,
		pub custom_extensions: F,
	}
	pub struct OffchainWorkers;
	impl OffchainWorkers {
		pub fn new<R, K, D, T, N, F: Fn(()) -> Vec<()>>(_: OffchainWorkerOptions<R, K, D, T, N, F>) -> Self {
			Self
		}
		pub async fn run<C, S>(self, _: C, _: S) {}
	}
}
pub mod sc_service {
	use super::Shared;
	use std::{future::Future, sync::Arc};
	pub use error::Error;

	pub mod error {
		#[derive(Debug)]
		pub struct Error(pub String);
		impl From<Box<dyn std::error::Error + Send + Sync>> for Error {
			fn from(e: Box<dyn std::error::Error + Send + Sync>) -> Self {
				Error(e.to_string())
			}
		}
	}
	#[derive(Clone, Copy)]
	pub enum DenyUnsafe {
		No,
		Yes,
	}
	#[derive(Clone)]
	pub struct Role(pub bool);
	impl Role {
		pub fn is_authority(&self) -> bool {
			self.0
		}
	}
	pub struct Offchain {
		pub enabled: bool,
	}
	pub struct Configuration {
		pub node: Shared,
		pub network: (),
		pub offchain_worker: Offchain,
		pub role: Role,
	}
	impl Configuration {
		pub fn prometheus_registry(&self) -> Option<&()> {
			None
		}
	}
	#[derive(Clone)]
	pub struct SpawnHandle(Shared);
	impl SpawnHandle {
		pub fn spawn(&self, name: &'static str, _: impl Into<Option<&'static str>>, f: impl Future<Output = ()> + Send + 'static) {
			let mut s = self.0.lock().unwrap();
			s.names.push(name);
			s.tasks.push((name, Box::pin(f)));
		}
		pub fn spawn_blocking(&self, name: &'static str, g: impl Into<Option<&'static str>>, f: impl Future<Output = ()> + Send + 'static) {
			self.spawn(name, g, f)
		}
	}
	pub struct TaskManager {
		pub node: Shared,
	}
	impl TaskManager {
		pub fn spawn_handle(&self) -> SpawnHandle {
			SpawnHandle(self.node.clone())
		}
		pub fn spawn_essential_handle(&self) -> SpawnHandle {
			SpawnHandle(self.node.clone())
		}
	}
	pub struct PartialComponents<O> {
		pub client: Arc<super::Client>,
		pub backend: Arc<super::Backend>,
		pub task_manager: TaskManager,
		pub import_queue: (),
		pub keystore_container: super::Keystore,
		pub select_chain: Option<super::Chain>,
		pub transaction_pool: Arc<super::FullPool>,
		pub other: O,
	}
	pub struct BuildNetworkParams<'a, N, C, P, S> {
		pub config: &'a Configuration,
		pub net_config: N,
		pub client: Arc<C>,
		pub transaction_pool: Arc<P>,
		pub spawn_handle: S,
		pub import_queue: (),
		pub block_announce_validator_builder: Option<()>,
		pub warp_sync_params: Option<()>,
		pub block_relay: Option<()>,
	}
	pub struct Starter(Shared);
	impl Starter {
		pub fn start_network(self) {
			self.0.lock().unwrap().network_started = true;
		}
	}
	pub fn build_network<N, C, P, S>(p: BuildNetworkParams<'_, N, C, P, S>) -> Result<(Arc<()>, (), (), Starter, Arc<()>), Error> {
		Ok((Arc::new(()), (), (), Starter(p.config.node.clone()), Arc::new(())))
	}
	pub struct SpawnTasksParams<'a, R, K> {
		pub rpc_builder: Box<dyn Fn(DenyUnsafe, ()) -> Result<R, Error>>,
		pub client: Arc<super::Client>,
		pub transaction_pool: Arc<super::FullPool>,
		pub task_manager: &'a mut TaskManager,
		pub config: Configuration,
		pub keystore: K,
		pub backend: Arc<super::Backend>,
		pub network: Arc<()>,
		pub sync_service: Arc<()>,
		pub system_rpc_tx: (),
		pub tx_handler_controller: (),
		pub telemetry: Option<&'a mut super::Telemetry>,
	}
	pub fn spawn_tasks<R, K>(p: SpawnTasksParams<'_, R, K>) -> Result<(), Error> {
		(p.rpc_builder)(DenyUnsafe::No, ())?;
		Ok(())
	}
}
