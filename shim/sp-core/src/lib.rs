pub use shim_base::core::*;
pub use shim_base::hashing;
pub use shim_base::{parameter_types, __parameter_types};
#[macro_export]
macro_rules! bounded_vec {
	($($v:expr),* $(,)?) => { $crate::BoundedVec::<_, _>::truncate_from(vec![$($v),*]) };
	($v:expr; $n:expr) => { $crate::BoundedVec::<_, _>::truncate_from(vec![$v; $n]) };
}
