//! Stand-in: the standard assertions under the crate's names.
pub use std::{assert_eq, assert_ne};
#[macro_export]
macro_rules! assert_str_eq { ($($t:tt)*) => { ::std::assert_eq!($($t)*) }; }
