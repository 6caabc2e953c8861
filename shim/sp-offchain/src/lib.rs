//! Stand-in for `sp-offchain`.
pub const STORAGE_PREFIX: &[u8] = b"storage";
