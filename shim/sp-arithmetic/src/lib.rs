pub use shim_base::arith::*;
