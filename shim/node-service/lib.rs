//! Stand-ins for the node's surroundings (client, pool, network, task manager) that record what
//! the node's block authoring does, so that `node/service/src/block_sealing.rs` runs unchanged.
#![allow(unused, clippy::all)]
extern crate self as frequency_sealing;

pub mod stubs;
pub mod service;
pub mod rpc;
pub mod block_sealing {
	use crate::stubs::*;
	include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/block_sealing.rs"));
}
