use crate::stubs::*;
use std::sync::Arc;

pub type Other = (Arc<Client>, Option<Telemetry>, ());
pub fn new_partial(
	config: &sc_service::Configuration,
	instant: bool,
) -> Result<sc_service::PartialComponents<Other>, sc_service::error::Error> {
	let n = config.node.clone();
	Ok(sc_service::PartialComponents {
		client: Arc::new(Client(n.clone())),
		backend: Arc::new(Backend),
		task_manager: sc_service::TaskManager { node: n.clone() },
		import_queue: (),
		keystore_container: Keystore,
		select_chain: instant.then_some(Chain),
		transaction_pool: Arc::new(FullPool(n.clone())),
		other: (Arc::new(Client(n)), None, ()),
	})
}
