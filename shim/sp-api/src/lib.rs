pub use shim_base::api::*;
