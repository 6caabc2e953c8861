pub use shim_base::io::*;
pub use shim_base::hashing;
