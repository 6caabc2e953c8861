pub use shim_base::runtime::*;
#[macro_export]
macro_rules! bounded_vec { ($($t:tt)*) => { $crate::BoundedVec::<_, _>::truncate_from(vec![$($t)*]) }; }
