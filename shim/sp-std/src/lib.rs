//! Stand-in for `sp-std` (std only).
#[macro_export]
macro_rules! if_std { ($($c:tt)*) => { $($c)* } }
#[macro_export]
macro_rules! map {
	($( $n:expr => $v:expr ),* $(,)?) => { ::std::collections::BTreeMap::from_iter([$(($n, $v)),*]) };
}
pub use std::{alloc, any, ascii, borrow, boxed, cell, char, clone, cmp, convert, default, error, fmt, hash, iter, marker, mem, num, ops, ptr, rc, result, slice, str, sync, time, vec};
pub mod collections {
	pub use std::collections::{btree_map, btree_set, vec_deque, BTreeMap, BTreeSet, VecDeque};
}
pub struct Writer(Vec<u8>);
impl Default for Writer { fn default() -> Self { Writer(vec![]) } }
impl fmt::Write for Writer {
	fn write_str(&mut self, s: &str) -> fmt::Result { self.0.extend_from_slice(s.as_bytes()); Ok(()) }
}
impl Writer { pub fn inner(&self) -> &Vec<u8> { &self.0 } pub fn into_inner(self) -> Vec<u8> { self.0 } }
pub mod prelude {
	pub use std::{
		borrow::ToOwned, boxed::Box, clone::Clone, cmp::{Eq, PartialEq, Reverse}, iter::{Extend, FromIterator, IntoIterator}, vec, vec::Vec,
	};
}
