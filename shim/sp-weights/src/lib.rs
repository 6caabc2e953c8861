pub use shim_base::weights::*;
