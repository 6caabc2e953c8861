use crate::stubs::*;
use std::sync::Arc;

pub struct FullDeps {
	pub client: Arc<Client>,
	pub pool: Arc<FullPool>,
	pub deny_unsafe: sc_service::DenyUnsafe,
	pub command_sink: Option<futures::channel::mpsc::Sender<sc_consensus_manual_seal::EngineCommand<u64>>>,
}
pub struct Extension;
pub fn create_full(deps: FullDeps, _: Option<()>) -> Result<Extension, Box<dyn std::error::Error + Send + Sync>> {
	let mut s = deps.client.0.lock().unwrap();
	s.handlers += 1;
	s.sink = deps.command_sink;
	Ok(Extension)
}
