//! Collections with a maximum length.
use crate::{core::Get, prelude::*};
use parity_scale_codec::{Compact, DecodeLength, Error};
use std::{borrow::Borrow, cmp::Ordering, collections::{BTreeMap, BTreeSet}, fmt, hash::{Hash, Hasher}, ops::{Deref, Index, IndexMut, RangeBounds}, slice::SliceIndex};

pub trait TryCollect<C> { type Error; fn try_collect(self) -> Result<C, Self::Error>; }
impl<I: ExactSizeIterator + Iterator<Item = T>, T, S: Get<u32>> TryCollect<BoundedVec<T, S>> for I {
	type Error = &'static str;
	fn try_collect(self) -> Result<BoundedVec<T, S>, &'static str> {
		if self.len() > BoundedVec::<T, S>::bound() { Err("iterator length too big") } else { Ok(BoundedVec::unchecked_from(self.collect())) }
	}
}

pub struct BoundedVec<T, S>(Vec<T>, PhantomData<S>);
impl<T, S> BoundedVec<T, S> {
	fn unchecked_from(v: Vec<T>) -> Self { BoundedVec(v, PhantomData) }
	pub fn new() -> Self { Self::unchecked_from(vec![]) }
	pub fn into_inner(self) -> Vec<T> { self.0 }
	pub fn as_slice(&self) -> &[T] { &self.0 }
	pub fn as_mut_slice(&mut self) -> &mut [T] { &mut self.0 }
	pub fn clear(&mut self) { self.0.clear() }
	pub fn sort(&mut self) where T: Ord { self.0.sort() }
	pub fn sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) { self.0.sort_by(f) }
	pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.0.sort_by_key(f) }
	pub fn remove(&mut self, i: usize) -> T { self.0.remove(i) }
	pub fn swap_remove(&mut self, i: usize) -> T { self.0.swap_remove(i) }
	pub fn pop(&mut self) -> Option<T> { self.0.pop() }
	pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
	pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
	pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, f: F) { self.0.retain_mut(f) }
	pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> { self.0.drain(r) }
	pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> { self.0.iter_mut() }
	pub fn last_mut(&mut self) -> Option<&mut T> { self.0.last_mut() }
	pub fn get_mut<I: SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> { self.0.get_mut(i) }
	pub fn split_off(&mut self, at: usize) -> Self { Self::unchecked_from(self.0.split_off(at)) }
	pub fn reverse(&mut self) { self.0.reverse() }
	pub fn dedup(&mut self) where T: PartialEq { self.0.dedup() }
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn with_capacity(n: usize) -> Self { Self::unchecked_from(Vec::with_capacity(n.min(Self::bound()))) }
	pub fn with_max_capacity() -> Self { Self::with_bounded_capacity(Self::bound()) }
	pub fn bounded_resize(&mut self, n: usize, v: T) where T: Clone { let n = n.min(Self::bound()); self.0.resize(n, v) }
	pub fn with_bounded_capacity(n: usize) -> Self { Self::with_capacity(n) }
	pub fn bound() -> usize { S::get() as usize }
	pub fn is_full(&self) -> bool { self.len() >= Self::bound() }
	pub fn truncate_from(mut v: Vec<T>) -> Self { v.truncate(Self::bound()); Self::unchecked_from(v) }
	pub fn try_mutate(mut self, f: impl FnOnce(&mut Vec<T>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then(|| self) }
	pub fn try_push(&mut self, e: T) -> Result<(), T> { if self.len() < Self::bound() { self.0.push(e); Ok(()) } else { Err(e) } }
	pub fn try_insert(&mut self, i: usize, e: T) -> Result<(), T> { if self.len() < Self::bound() { self.0.insert(i, e); Ok(()) } else { Err(e) } }
	pub fn try_extend(&mut self, with: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
		if with.len().saturating_add(self.len()) <= Self::bound() { self.0.extend(with); Ok(()) } else { Err(()) }
	}
	pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> { if o.len().saturating_add(self.len()) <= Self::bound() { self.0.append(o); Ok(()) } else { Err(()) } }
	pub fn try_resize(&mut self, n: usize, v: T) -> Result<(), ()> where T: Clone { if n > Self::bound() { return Err(()) } self.0.resize(n, v); Ok(()) }
	pub fn force_push(&mut self, e: T) { if self.try_push(e).is_err() { panic!("force_push on a full BoundedVec") } }
	pub fn force_insert_keep_right(&mut self, i: usize, e: T) -> Result<Option<T>, ()> {
		if Self::bound() < i || self.len() < i || Self::bound() == 0 { return Err(()) }
		if self.is_full() {
			if i == 0 { return Err(()) }
			let r = Some(self.0.remove(0));
			self.0.insert(i - 1, e);
			return Ok(r);
		}
		self.0.insert(i, e);
		Ok(None)
	}
}
impl<T, S> Default for BoundedVec<T, S> { fn default() -> Self { Self::new() } }
impl<T: Clone, S> Clone for BoundedVec<T, S> { fn clone(&self) -> Self { Self::unchecked_from(self.0.clone()) } }
impl<T: fmt::Debug, S> fmt::Debug for BoundedVec<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_tuple("BoundedVec").field(&self.0).finish() } }
impl<T: PartialEq, S, R> PartialEq<BoundedVec<T, R>> for BoundedVec<T, S> { fn eq(&self, o: &BoundedVec<T, R>) -> bool { self.0 == o.0 } }
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> { fn eq(&self, o: &Vec<T>) -> bool { &self.0 == o } }
impl<'a, T: PartialEq, S> PartialEq<&'a [T]> for BoundedVec<T, S> { fn eq(&self, o: &&'a [T]) -> bool { &self.0[..] == *o } }
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.0.partial_cmp(&o.0) } }
impl<T: Ord, S> Ord for BoundedVec<T, S> { fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) } }
impl<T: Hash, S> Hash for BoundedVec<T, S> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<T, S> Deref for BoundedVec<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
impl<T, S> AsRef<[T]> for BoundedVec<T, S> { fn as_ref(&self) -> &[T] { &self.0 } }
impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> { fn as_ref(&self) -> &Vec<T> { &self.0 } }
impl<T, S> AsMut<[T]> for BoundedVec<T, S> { fn as_mut(&mut self) -> &mut [T] { &mut self.0 } }
impl<T, S> Borrow<[T]> for BoundedVec<T, S> { fn borrow(&self) -> &[T] { &self.0 } }
impl<T, S, I: SliceIndex<[T]>> Index<I> for BoundedVec<T, S> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
impl<T, S, I: SliceIndex<[T]>> IndexMut<I> for BoundedVec<T, S> { fn index_mut(&mut self, i: I) -> &mut I::Output { &mut self.0[i] } }
impl<T, S> IntoIterator for BoundedVec<T, S> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<'a, T, S> IntoIterator for &'a mut BoundedVec<T, S> { type Item = &'a mut T; type IntoIter = std::slice::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> { if v.len() <= Self::bound() { Ok(Self::unchecked_from(v)) } else { Err(v) } }
}
impl<T, S> From<BoundedVec<T, S>> for Vec<T> { fn from(v: BoundedVec<T, S>) -> Vec<T> { v.0 } }
impl<T: Encode, S> Encode for BoundedVec<T, S> {
	fn size_hint(&self) -> usize { self.0.size_hint() }
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.0.encode_to(d) }
}
impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
impl<T: Encode, S> EncodeLike<Vec<T>> for BoundedVec<T, S> {}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let n = Compact::<u32>::decode(i)?.0;
		if n as usize > Self::bound() { return Err("BoundedVec exceeds its limit".into()) }
		let mut v = Vec::with_capacity((n as usize).min(1024));
		for _ in 0..n { v.push(T::decode(i)?) }
		Ok(Self::unchecked_from(v))
	}
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> {
	fn max_encoded_len() -> usize { Compact(Self::bound() as u32).encode().len().saturating_add(Self::bound().saturating_mul(T::max_encoded_len())) }
}
impl<T, S> DecodeLength for BoundedVec<T, S> { fn len(e: &[u8]) -> Result<usize, Error> { <Vec<T> as DecodeLength>::len(e) } }
impl<T: 'static, S: 'static> TypeInfo for BoundedVec<T, S> { type Identity = Self; fn type_info() -> scale_info::Type { scale_info::Type::default() } }
impl<T: serde::Serialize, S> serde::Serialize for BoundedVec<T, S> { fn serialize<R: serde::Serializer>(&self, s: R) -> Result<R::Ok, R::Error> { self.0.serialize(s) } }
impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for BoundedVec<T, S> {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		Self::try_from(Vec::<T>::deserialize(d)?).map_err(|_| serde::de::Error::custom("out of bounds"))
	}
}

pub struct WeakBoundedVec<T, S>(Vec<T>, PhantomData<S>);
impl<T, S: Get<u32>> WeakBoundedVec<T, S> {
	pub fn force_from(v: Vec<T>, _scope: Option<&'static str>) -> Self { WeakBoundedVec(v, PhantomData) }
	pub fn into_inner(self) -> Vec<T> { self.0 }
}
impl<T, S> Default for WeakBoundedVec<T, S> { fn default() -> Self { WeakBoundedVec(vec![], PhantomData) } }
impl<T, S> Deref for WeakBoundedVec<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
impl<T: Clone, S> Clone for WeakBoundedVec<T, S> { fn clone(&self) -> Self { WeakBoundedVec(self.0.clone(), PhantomData) } }
impl<T: fmt::Debug, S> fmt::Debug for WeakBoundedVec<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<T: PartialEq, S> PartialEq for WeakBoundedVec<T, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: PartialEq, S> PartialEq<Vec<T>> for WeakBoundedVec<T, S> { fn eq(&self, o: &Vec<T>) -> bool { self.0 == *o } }
impl<T: Encode, S> Encode for WeakBoundedVec<T, S> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.0.encode_to(d) } }
impl<T: Encode, S> EncodeLike for WeakBoundedVec<T, S> {}
impl<T: Decode, S> Decode for WeakBoundedVec<T, S> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(WeakBoundedVec(Vec::decode(i)?, PhantomData)) } }
impl<T: 'static, S: 'static> TypeInfo for WeakBoundedVec<T, S> { type Identity = Self; fn type_info() -> scale_info::Type { scale_info::Type::default() } }

pub struct BoundedSlice<'a, T, S>(pub &'a [T], PhantomData<S>);
impl<'a, T, S> Deref for BoundedSlice<'a, T, S> { type Target = [T]; fn deref(&self) -> &[T] { self.0 } }

pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<S>);
impl<K: Ord, V, S> BoundedBTreeMap<K, V, S> {
	pub fn new() -> Self { BoundedBTreeMap(BTreeMap::new(), PhantomData) }
	pub fn into_inner(self) -> BTreeMap<K, V> { self.0 }
	pub fn clear(&mut self) { self.0.clear() }
	pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { self.0.get_mut(k) }
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.0.remove(k) }
	pub fn remove_entry<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { self.0.remove_entry(k) }
	pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> { self.0.iter_mut() }
	pub fn values_mut(&mut self) -> std::collections::btree_map::ValuesMut<'_, K, V> { self.0.values_mut() }
	pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) { self.0.retain(f) }
	pub fn map<U, F: FnMut((&K, V)) -> U>(self, mut f: F) -> BoundedBTreeMap<K, U, S> {
		BoundedBTreeMap(self.0.into_iter().map(|(k, v)| { let u = f((&k, v)); (k, u) }).collect(), PhantomData)
	}
}
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn bound() -> usize { S::get() as usize }
	pub fn is_full(&self) -> bool { self.len() >= Self::bound() }
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if self.len() < Self::bound() || self.0.contains_key(&k) { Ok(self.0.insert(k, v)) } else { Err((k, v)) }
	}
	pub fn try_mutate(mut self, f: impl FnOnce(&mut BTreeMap<K, V>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then(|| self) }
}
impl<K: Ord, V, S> Default for BoundedBTreeMap<K, V, S> { fn default() -> Self { Self::new() } }
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> { fn clone(&self) -> Self { BoundedBTreeMap(self.0.clone(), PhantomData) } }
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for BoundedBTreeMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_tuple("BoundedBTreeMap").field(&self.0).finish() } }
impl<K: PartialEq, V: PartialEq, S, R> PartialEq<BoundedBTreeMap<K, V, R>> for BoundedBTreeMap<K, V, S> { fn eq(&self, o: &BoundedBTreeMap<K, V, R>) -> bool { self.0 == o.0 } }
impl<K: PartialEq, V: PartialEq, S> PartialEq<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> { fn eq(&self, o: &BTreeMap<K, V>) -> bool { &self.0 == o } }
impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> { type Target = BTreeMap<K, V>; fn deref(&self) -> &BTreeMap<K, V> { &self.0 } }
impl<K: Ord, V, S> AsRef<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> { fn as_ref(&self) -> &BTreeMap<K, V> { &self.0 } }
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> { type Item = (K, V); type IntoIter = std::collections::btree_map::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, K, V, S> IntoIterator for &'a BoundedBTreeMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = std::collections::btree_map::Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<K: Ord, V, S: Get<u32>> TryFrom<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	type Error = ();
	fn try_from(v: BTreeMap<K, V>) -> Result<Self, ()> { if v.len() <= Self::bound() { Ok(BoundedBTreeMap(v, PhantomData)) } else { Err(()) } }
}
impl<K: Ord, V, S> From<BoundedBTreeMap<K, V, S>> for BTreeMap<K, V> { fn from(v: BoundedBTreeMap<K, V, S>) -> Self { v.0 } }
impl<K: Encode + Ord, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.0.encode_to(d) } }
impl<K: Encode + Ord, V: Encode, S> EncodeLike for BoundedBTreeMap<K, V, S> {}
impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let n = Compact::<u32>::decode(i)?.0;
		if n as usize > Self::bound() { return Err("BoundedBTreeMap exceeds its limit".into()) }
		let mut m = BTreeMap::new();
		for _ in 0..n { let (k, v) = Decode::decode(i)?; m.insert(k, v); }
		Ok(BoundedBTreeMap(m, PhantomData))
	}
}
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> where K: Ord {
	fn max_encoded_len() -> usize { Self::bound().saturating_mul(K::max_encoded_len().saturating_add(V::max_encoded_len())).saturating_add(Compact(Self::bound() as u32).encode().len()) }
}
impl<K: 'static, V: 'static, S: 'static> TypeInfo for BoundedBTreeMap<K, V, S> { type Identity = Self; fn type_info() -> scale_info::Type { scale_info::Type::default() } }

pub struct BoundedBTreeSet<T, S>(BTreeSet<T>, PhantomData<S>);
impl<T: Ord, S: Get<u32>> BoundedBTreeSet<T, S> {
	pub fn new() -> Self { BoundedBTreeSet(BTreeSet::new(), PhantomData) }
	pub fn bound() -> usize { S::get() as usize }
	pub fn try_insert(&mut self, t: T) -> Result<bool, T> { if self.0.len() < Self::bound() || self.0.contains(&t) { Ok(self.0.insert(t)) } else { Err(t) } }
	pub fn remove(&mut self, t: &T) -> bool { self.0.remove(t) }
	pub fn into_inner(self) -> BTreeSet<T> { self.0 }
}
impl<T, S> Deref for BoundedBTreeSet<T, S> { type Target = BTreeSet<T>; fn deref(&self) -> &BTreeSet<T> { &self.0 } }
impl<T, S> Default for BoundedBTreeSet<T, S> { fn default() -> Self { BoundedBTreeSet(BTreeSet::new(), PhantomData) } }
impl<T: Clone, S> Clone for BoundedBTreeSet<T, S> { fn clone(&self) -> Self { BoundedBTreeSet(self.0.clone(), PhantomData) } }
impl<T: fmt::Debug, S> fmt::Debug for BoundedBTreeSet<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<T: PartialEq, S> PartialEq for BoundedBTreeSet<T, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: Eq, S> Eq for BoundedBTreeSet<T, S> {}
impl<T: Encode + Ord, S> Encode for BoundedBTreeSet<T, S> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.0.encode_to(d) } }
impl<T: Encode + Ord, S> EncodeLike for BoundedBTreeSet<T, S> {}
impl<T: Decode + Ord, S: Get<u32>> Decode for BoundedBTreeSet<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let s = BTreeSet::<T>::decode(i)?;
		if s.len() > S::get() as usize { return Err("BoundedBTreeSet exceeds its limit".into()) }
		Ok(BoundedBTreeSet(s, PhantomData))
	}
}
impl<T: MaxEncodedLen + Ord, S: Get<u32>> MaxEncodedLen for BoundedBTreeSet<T, S> { fn max_encoded_len() -> usize { (S::get() as usize).saturating_mul(T::max_encoded_len()).saturating_add(5) } }
impl<T: 'static, S: 'static> TypeInfo for BoundedBTreeSet<T, S> { type Identity = Self; fn type_info() -> scale_info::Type { scale_info::Type::default() } }
