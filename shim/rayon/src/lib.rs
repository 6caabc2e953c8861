//! Stand-in for `rayon`: the iteration runs on the calling thread, in order.
pub mod prelude {
	pub trait ParIter<'a> {
		type Iter: Iterator;
		fn par_iter(&'a self) -> Self::Iter;
	}
	impl<'a, T: 'a> ParIter<'a> for Vec<T> {
		type Iter = std::slice::Iter<'a, T>;
		fn par_iter(&'a self) -> Self::Iter {
			self.iter()
		}
	}
}
