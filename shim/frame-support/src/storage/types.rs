use super::{PrefixIterator, StorageAppend, StorageDecodeLength, StorageInstance, StorageTryAppend};
use crate::hash::*;
use parity_scale_codec::{Decode, Encode, EncodeLike, FullCodec, FullEncode};
use shim_base::{core::{Get, GetDefault}, hashing::twox_128, io};
use std::marker::PhantomData;

pub trait QueryKindTrait<V, D> {
	type Query;
	fn from_optional(v: Option<V>) -> Self::Query;
	fn to_optional(q: Self::Query) -> Option<V>;
}
#[derive(Clone, Copy, Debug)]
pub struct OptionQuery;
impl<V, D> QueryKindTrait<V, D> for OptionQuery {
	type Query = Option<V>;
	fn from_optional(v: Option<V>) -> Option<V> { v }
	fn to_optional(q: Option<V>) -> Option<V> { q }
}
#[derive(Clone, Copy, Debug)]
pub struct ValueQuery;
impl<V, D: Get<V>> QueryKindTrait<V, D> for ValueQuery {
	type Query = V;
	fn from_optional(v: Option<V>) -> V { v.unwrap_or_else(D::get) }
	fn to_optional(q: V) -> Option<V> { Some(q) }
}
pub struct ResultQuery<E>(PhantomData<E>);

fn raw_get<V: Decode>(k: &[u8]) -> Option<V> { io::storage::get(k).and_then(|v| match V::decode(&mut &v[..]) { Ok(x) => Some(x), Err(e) => { log::error!("Corrupted state: {:?}", e); None } }) }
fn raw_put<V: Encode + ?Sized>(k: &[u8], v: &V) { v.using_encoded(|b| io::storage::set(k, b)) }
fn raw_take<V: Decode>(k: &[u8]) -> Option<V> { let v = raw_get(k); if io::storage::exists(k) { io::storage::clear(k) } v }
fn prefix_of<P: StorageInstance>() -> Vec<u8> { P::prefix_hash().to_vec() }

/// Everything a single storage slot can do.
struct Slot<V, Q, D>(Vec<u8>, PhantomData<(V, Q, D)>);
impl<V: FullCodec, Q: QueryKindTrait<V, D>, D> Slot<V, Q, D> {
	fn get(&self) -> Q::Query { Q::from_optional(raw_get(&self.0)) }
	fn store(&self, q: Q::Query) { match Q::to_optional(q) { Some(v) => raw_put(&self.0, &v), None => io::storage::clear(&self.0) } }
	fn try_mutate<R, E>(&self, f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> { let mut q = self.get(); let r = f(&mut q); if r.is_ok() { self.store(q) } r }
	fn try_mutate_exists<R, E>(&self, f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> {
		let mut q = raw_get(&self.0);
		let r = f(&mut q);
		if r.is_ok() { match q { Some(v) => raw_put(&self.0, &v), None => io::storage::clear(&self.0) } }
		r
	}
	fn take(&self) -> Q::Query { Q::from_optional(raw_take(&self.0)) }
	fn try_append<I: Encode + Clone, EI: EncodeLike<I>>(&self, i: EI) -> Result<(), ()> where V: StorageTryAppend<I> + StorageDecodeLength {
		if V::decode_len(&self.0).unwrap_or(0) < V::bound() { io::storage::append(&self.0, i.encode()); Ok(()) } else { Err(()) }
	}
}
fn infallible<R>(r: Result<R, std::convert::Infallible>) -> R { match r { Ok(x) => x, Err(e) => match e {} } }

pub struct StorageValue<P, V, Q = OptionQuery, D = GetDefault>(PhantomData<(P, V, Q, D)>);
impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, D>, D: 'static> StorageValue<P, V, Q, D> {
	fn slot() -> Slot<V, Q, D> { Slot(prefix_of::<P>(), PhantomData) }
	pub fn hashed_key() -> [u8; 32] { P::prefix_hash() }
	pub fn exists() -> bool { io::storage::exists(&prefix_of::<P>()) }
	pub fn get() -> Q::Query { Self::slot().get() }
	pub fn try_get() -> Result<V, ()> { raw_get(&prefix_of::<P>()).ok_or(()) }
	pub fn put<A: EncodeLike<V>>(v: A) { raw_put(&prefix_of::<P>(), &v) }
	pub fn set(v: Q::Query) { Self::slot().store(v) }
	pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R { infallible(Self::slot().try_mutate(|q| Ok(f(q)))) }
	pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> { Self::slot().try_mutate(f) }
	pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R { infallible(Self::slot().try_mutate_exists(|q| Ok(f(q)))) }
	pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(f: F) -> Result<R, E> { Self::slot().try_mutate_exists(f) }
	pub fn kill() { io::storage::clear(&prefix_of::<P>()) }
	pub fn take() -> Q::Query { Self::slot().take() }
	pub fn append<I: Encode, EI: EncodeLike<I>>(i: EI) where V: StorageAppend<I> { io::storage::append(&prefix_of::<P>(), i.encode()) }
	pub fn try_append<I: Encode + Clone, EI: EncodeLike<I>>(i: EI) -> Result<(), ()> where V: StorageTryAppend<I> + StorageDecodeLength { Self::slot().try_append(i) }
	pub fn decode_len() -> Option<usize> where V: StorageDecodeLength { V::decode_len(&prefix_of::<P>()) }
	pub fn translate<O: Decode, F: FnOnce(Option<O>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
		let k = prefix_of::<P>();
		let old = match io::storage::get(&k) { Some(v) => Some(O::decode(&mut &v[..]).map_err(|_| ())?), None => None };
		let n = f(old);
		match &n { Some(v) => raw_put(&k, v), None => io::storage::clear(&k) }
		Ok(n)
	}
}
macro_rules! slot_api { ([$($g:tt)*] ($($a:ident: $t:ty),*) $key:expr) => {
	pub fn contains_key<$($g)*>($($a: $t),*) -> bool { io::storage::exists(&$key) }
	pub fn get<$($g)*>($($a: $t),*) -> Q::Query { Self::slot($key).get() }
	pub fn try_get<$($g)*>($($a: $t),*) -> Result<V, ()> { raw_get(&$key).ok_or(()) }
	pub fn take<$($g)*>($($a: $t),*) -> Q::Query { Self::slot($key).take() }
	pub fn insert<$($g)*, VArg: EncodeLike<V>>($($a: $t),*, v: VArg) { raw_put(&$key, &v) }
	pub fn set<$($g)*>($($a: $t),*, q: Q::Query) { Self::slot($key).store(q) }
	pub fn remove<$($g)*>($($a: $t),*) { io::storage::clear(&$key) }
	pub fn mutate<$($g)*, R, F: FnOnce(&mut Q::Query) -> R>($($a: $t),*, f: F) -> R { infallible(Self::slot($key).try_mutate(|q| Ok(f(q)))) }
	pub fn try_mutate<$($g)*, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>($($a: $t),*, f: F) -> Result<R, E> { Self::slot($key).try_mutate(f) }
	pub fn mutate_exists<$($g)*, R, F: FnOnce(&mut Option<V>) -> R>($($a: $t),*, f: F) -> R { infallible(Self::slot($key).try_mutate_exists(|q| Ok(f(q)))) }
	pub fn try_mutate_exists<$($g)*, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>($($a: $t),*, f: F) -> Result<R, E> { Self::slot($key).try_mutate_exists(f) }
	pub fn append<I: Encode, EI: EncodeLike<I>, $($g)*>($($a: $t),*, i: EI) where V: StorageAppend<I> { io::storage::append(&$key, i.encode()) }
	pub fn try_append<$($g)*, I: Encode + Clone, EI: EncodeLike<I>>($($a: $t),*, i: EI) -> Result<(), ()> where V: StorageTryAppend<I> + StorageDecodeLength { Self::slot($key).try_append(i) }
	pub fn decode_len<$($g)*>($($a: $t),*) -> Option<usize> where V: StorageDecodeLength { V::decode_len(&$key) }
	fn slot(k: Vec<u8>) -> Slot<V, Q, D> { Slot(k, PhantomData) }
	pub fn clear(l: u32, _c: Option<&[u8]>) -> io::MultiRemovalResults { super::removed(io::storage::clear_prefix(&prefix_of::<P>(), Some(l))) }
	pub fn remove_all(l: Option<u32>) -> io::KillStorageResult { io::storage::clear_prefix(&prefix_of::<P>(), l) }
	pub fn final_prefix() -> [u8; 32] { P::prefix_hash() }
	pub fn iter_values() -> PrefixIterator<V> { let p = prefix_of::<P>(); PrefixIterator::new(p.clone(), p, |_, mut v| V::decode(&mut v)) }
	pub fn translate_values<O: Decode, F: FnMut(O) -> Option<V>>(mut f: F) {
		let p = prefix_of::<P>();
		let mut prev = p.clone();
		while let Some(k) = io::storage::next_key(&prev).filter(|k| k.starts_with(&p)) {
			prev = k.clone();
			if let Some(o) = raw_get::<O>(&k) { match f(o) { Some(n) => raw_put(&k, &n), None => io::storage::clear(&k) } }
		}
	}
} }
fn part<H: StorageHasher, K: Encode>(k: &K) -> Vec<u8> { k.using_encoded(H::hash).as_ref().to_vec() }

pub struct StorageMap<P, H, K, V, Q = OptionQuery, D = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, D, M)>);
pub type CountedStorageMap<P, H, K, V, Q = OptionQuery, D = GetDefault, M = GetDefault> = StorageMap<P, H, K, V, Q, D, M>;
fn key1<P: StorageInstance, H: StorageHasher, K: Encode>(k: &K) -> Vec<u8> { let mut o = prefix_of::<P>(); o.extend(part::<H, _>(k)); o }
impl<P: StorageInstance, H: StorageHasher, K: FullEncode, V: FullCodec, Q: QueryKindTrait<V, D>, D: 'static, M: 'static> StorageMap<P, H, K, V, Q, D, M> {
	slot_api!([KArg: EncodeLike<K>] (k: KArg) key1::<P, H, KArg>(&k));
	pub fn hashed_key_for<KArg: EncodeLike<K>>(k: KArg) -> Vec<u8> { key1::<P, H, _>(&k) }
	pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
		let (a, b) = (key1::<P, H, _>(&a), key1::<P, H, _>(&b));
		let (x, y) = (io::storage::get(&a), io::storage::get(&b));
		for (k, v) in [(a, y), (b, x)] { match v { Some(v) => io::storage::set(&k, &v), None => io::storage::clear(&k) } }
	}
	pub fn count() -> u32 { Self::iter_values().count() as u32 }
}
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, D>, D: 'static, M: 'static> StorageMap<P, H, K, V, Q, D, M> {
	pub fn iter() -> PrefixIterator<(K, V)> { let p = prefix_of::<P>(); PrefixIterator::new(p.clone(), p, |k, mut v| Ok((K::decode(&mut H::reverse(k))?, V::decode(&mut v)?))) }
	pub fn iter_from(start: Vec<u8>) -> PrefixIterator<(K, V)> { let p = prefix_of::<P>(); PrefixIterator::new(p, start, |k, mut v| Ok((K::decode(&mut H::reverse(k))?, V::decode(&mut v)?))) }
	pub fn iter_keys() -> PrefixIterator<K> { let p = prefix_of::<P>(); PrefixIterator::new(p.clone(), p, |k, _| K::decode(&mut H::reverse(k))) }
	pub fn drain() -> PrefixIterator<(K, V)> { Self::iter().drain() }
	pub fn translate<O: Decode, F: FnMut(K, O) -> Option<V>>(mut f: F) {
		let p = prefix_of::<P>();
		let mut prev = p.clone();
		while let Some(k) = io::storage::next_key(&prev).filter(|k| k.starts_with(&p)) {
			prev = k.clone();
			if let (Ok(key), Some(o)) = (K::decode(&mut H::reverse(&k[p.len()..])), raw_get::<O>(&k)) { match f(key, o) { Some(n) => raw_put(&k, &n), None => io::storage::clear(&k) } }
		}
	}
}
pub trait MapKeys<K: Encode> { fn storage_map_final_key<A: EncodeLike<K>>(k: A) -> Vec<u8>; fn module_prefix() -> &'static [u8]; fn pallet_prefix() -> &'static [u8] { Self::module_prefix() } fn storage_prefix() -> &'static [u8]; }
impl<P: StorageInstance, H: StorageHasher, K: FullEncode, V, Q, D, M> MapKeys<K> for StorageMap<P, H, K, V, Q, D, M> {
	fn storage_map_final_key<A: EncodeLike<K>>(k: A) -> Vec<u8> { key1::<P, H, _>(&k) }
	fn module_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() }
	fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() }
}

pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, D = GetDefault, M = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, Q, D, M)>);
fn key2<P: StorageInstance, H1: StorageHasher, H2: StorageHasher, K1: Encode, K2: Encode>(a: &K1, b: &K2) -> Vec<u8> { let mut o = key1::<P, H1, _>(a); o.extend(part::<H2, _>(b)); o }
pub trait DoubleMapKeys<K1: Encode, K2: Encode> { fn storage_double_map_final_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8>; fn module_prefix() -> &'static [u8]; fn pallet_prefix() -> &'static [u8] { Self::module_prefix() } fn storage_prefix() -> &'static [u8]; }
impl<P: StorageInstance, H1: StorageHasher, K1: FullEncode, H2: StorageHasher, K2: FullEncode, V, Q, D, M> DoubleMapKeys<K1, K2> for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, D, M> {
	fn storage_double_map_final_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> { key2::<P, H1, H2, _, _>(&a, &b) }
	fn module_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() }
	fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() }
}
impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, D>, D: 'static, M: 'static> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, D, M> {
	slot_api!([A: EncodeLike<K1>, B: EncodeLike<K2>] (a: A, b: B) key2::<P, H1, H2, A, B>(&a, &b));
	pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> { key2::<P, H1, H2, _, _>(&a, &b) }
	pub fn clear_prefix<A: EncodeLike<K1>>(a: A, l: u32, _c: Option<&[u8]>) -> io::MultiRemovalResults { super::removed(io::storage::clear_prefix(&key1::<P, H1, _>(&a), Some(l))) }
	pub fn remove_prefix<A: EncodeLike<K1>>(a: A, l: Option<u32>) -> io::KillStorageResult { io::storage::clear_prefix(&key1::<P, H1, _>(&a), l) }
	pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> PrefixIterator<V> { let p = key1::<P, H1, _>(&a); PrefixIterator::new(p.clone(), p, |_, mut v| V::decode(&mut v)) }
	pub fn contains_prefix<A: EncodeLike<K1>>(a: A) -> bool { let p = key1::<P, H1, _>(&a); io::storage::next_key(&p).map_or(false, |k| k.starts_with(&p)) }
}
fn rev2<H1: ReversibleStorageHasher, H2: ReversibleStorageHasher, K1: Decode, K2: Decode>(k: &[u8]) -> Result<(K1, K2), parity_scale_codec::Error> {
	let mut m = H1::reverse(k);
	let a = K1::decode(&mut m)?;
	let mut m = H2::reverse(m);
	Ok((a, K2::decode(&mut m)?))
}
impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, D>, D: 'static, M: 'static> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, D, M> {
	pub fn iter() -> PrefixIterator<(K1, K2, V)> { let p = prefix_of::<P>(); PrefixIterator::new(p.clone(), p, |k, mut v| { let (a, b) = rev2::<H1, H2, K1, K2>(k)?; Ok((a, b, V::decode(&mut v)?)) }) }
	pub fn iter_keys() -> PrefixIterator<(K1, K2)> { let p = prefix_of::<P>(); PrefixIterator::new(p.clone(), p, |k, _| rev2::<H1, H2, K1, K2>(k)) }
	pub fn drain() -> PrefixIterator<(K1, K2, V)> { Self::iter().drain() }
	pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> { let p = key1::<P, H1, _>(&a); PrefixIterator::new(p.clone(), p, |k, mut v| Ok((K2::decode(&mut H2::reverse(k))?, V::decode(&mut v)?))) }
	pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<K2> { let p = key1::<P, H1, _>(&a); PrefixIterator::new(p.clone(), p, |k, _| K2::decode(&mut H2::reverse(k))) }
	pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> { Self::iter_prefix(a).drain() }
	pub fn translate<O: Decode, F: FnMut(K1, K2, O) -> Option<V>>(mut f: F) {
		let p = prefix_of::<P>();
		let mut prev = p.clone();
		while let Some(k) = io::storage::next_key(&prev).filter(|k| k.starts_with(&p)) {
			prev = k.clone();
			if let (Ok((a, b)), Some(o)) = (rev2::<H1, H2, K1, K2>(&k[p.len()..]), raw_get::<O>(&k)) { match f(a, b, o) { Some(n) => raw_put(&k, &n), None => io::storage::clear(&k) } }
		}
	}
}

pub struct Key<H, K>(PhantomData<(H, K)>);
/// One part of the key of an n-map.
pub trait KeyPart { type Hasher: StorageHasher; type K: FullCodec; }
impl<H: StorageHasher, K: FullCodec> KeyPart for Key<H, K> { type Hasher = H; type K = K; }
pub trait KeyGenerator { type Key; fn rest(k: &[u8]) -> Result<Self::Key, parity_scale_codec::Error>; }
pub trait EncodeLikeTuple<T> { fn hashed<G: NHash>(&self) -> Vec<u8> { self.parts(G::hashers()) } fn parts(&self, h: Vec<fn(&[u8]) -> Vec<u8>>) -> Vec<u8>; }
pub trait NHash { fn hashers() -> Vec<fn(&[u8]) -> Vec<u8>>; fn reversers() -> Vec<fn(&[u8]) -> &[u8]>; }
fn vec_hash<H: StorageHasher>(x: &[u8]) -> Vec<u8> { H::hash(x).as_ref().to_vec() }
pub trait HasKeyPrefix<P>: KeyGenerator { type Suffix; fn prefix(p: &P) -> Vec<u8>; fn suffix(k: &[u8]) -> Result<Self::Suffix, parity_scale_codec::Error>; }
fn dec<'a, H: ReversibleStorageHasher, K: Decode>(k: &'a [u8]) -> Result<(K, &'a [u8]), parity_scale_codec::Error> { let mut m = H::reverse(k); let v = K::decode(&mut m)?; Ok((v, m)) }
macro_rules! nkeys { ($($h:ident $k:ident $a:ident $i:tt),*) => {
	impl<$($h: ReversibleStorageHasher, $k: FullCodec),*> KeyGenerator for ($(Key<$h, $k>,)*) {
		type Key = ($($k,)*);
		#[allow(non_snake_case, unused_assignments)]
		fn rest(mut x: &[u8]) -> Result<Self::Key, parity_scale_codec::Error> { $(let ($k, y) = dec::<$h, $k>(x)?; x = y;)* Ok(($($k,)*)) }
	}
	impl<$($h: ReversibleStorageHasher, $k),*> NHash for ($(Key<$h, $k>,)*) { fn hashers() -> Vec<fn(&[u8]) -> Vec<u8>> { vec![$(vec_hash::<$h>),*] } fn reversers() -> Vec<fn(&[u8]) -> &[u8]> { vec![$($h::reverse),*] } }
	impl<$($k: Encode, $a: EncodeLike<$k>),*> EncodeLikeTuple<($($k,)*)> for ($($a,)*) {
		fn parts(&self, h: Vec<fn(&[u8]) -> Vec<u8>>) -> Vec<u8> { let mut o = vec![]; $(o.extend(self.$i.using_encoded(|b| h[$i](b)));)* o }
	}
} }
nkeys!(H1 K1 A1 0);
nkeys!(H1 K1 A1 0, H2 K2 A2 1);
nkeys!(H1 K1 A1 0, H2 K2 A2 1, H3 K3 A3 2);
nkeys!(H1 K1 A1 0, H2 K2 A2 1, H3 K3 A3 2, H4 K4 A4 3);
type Kx<H, K> = Key<H, K>;
impl<H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec> HasKeyPrefix<(K1,)> for (Kx<H1, K1>, Kx<H2, K2>) {
	type Suffix = (K2,);
	fn prefix(p: &(K1,)) -> Vec<u8> { part::<H1, _>(&p.0) }
	fn suffix(s: &[u8]) -> Result<(K2,), parity_scale_codec::Error> { Ok((dec::<H2, K2>(s)?.0,)) }
}
impl<H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, H3: ReversibleStorageHasher, K3: FullCodec> HasKeyPrefix<(K1,)> for (Kx<H1, K1>, Kx<H2, K2>, Kx<H3, K3>) {
	type Suffix = (K2, K3);
	fn prefix(p: &(K1,)) -> Vec<u8> { part::<H1, _>(&p.0) }
	fn suffix(s: &[u8]) -> Result<(K2, K3), parity_scale_codec::Error> { let (a, r) = dec::<H2, K2>(s)?; Ok((a, dec::<H3, K3>(r)?.0)) }
}
impl<H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, H3: ReversibleStorageHasher, K3: FullCodec> HasKeyPrefix<(K1, K2)> for (Kx<H1, K1>, Kx<H2, K2>, Kx<H3, K3>) {
	type Suffix = K3;
	fn prefix(p: &(K1, K2)) -> Vec<u8> { let mut o = part::<H1, _>(&p.0); o.extend(part::<H2, _>(&p.1)); o }
	fn suffix(s: &[u8]) -> Result<K3, parity_scale_codec::Error> { Ok(dec::<H3, K3>(s)?.0) }
}
pub struct StorageNMap<P, G, V, Q = OptionQuery, D = GetDefault, M = GetDefault>(PhantomData<(P, G, V, Q, D, M)>);
fn keyn<P: StorageInstance>(k: Vec<u8>) -> Vec<u8> { let mut o = prefix_of::<P>(); o.extend(k); o }
impl<P: StorageInstance, G: KeyGenerator + NHash, V: FullCodec, Q: QueryKindTrait<V, D>, D: 'static, M: 'static> StorageNMap<P, G, V, Q, D, M> {
	slot_api!([A: EncodeLikeTuple<G::Key>] (k: A) keyn::<P>(k.hashed::<G>()));
	pub fn hashed_key_for<A: EncodeLikeTuple<G::Key>>(k: A) -> Vec<u8> { keyn::<P>(k.hashed::<G>()) }
	pub fn iter_prefix<X>(p: X) -> PrefixIterator<(<G as HasKeyPrefix<X>>::Suffix, V)> where G: HasKeyPrefix<X> { let p = keyn::<P>(<G as HasKeyPrefix<X>>::prefix(&p)); PrefixIterator::new(p.clone(), p, |k, mut v| Ok((<G as HasKeyPrefix<X>>::suffix(k)?, V::decode(&mut v)?))) }
	pub fn iter_prefix_values<X>(p: X) -> PrefixIterator<V> where G: HasKeyPrefix<X> { let p = keyn::<P>(<G as HasKeyPrefix<X>>::prefix(&p)); PrefixIterator::new(p.clone(), p, |_, mut v| V::decode(&mut v)) }
	pub fn iter_key_prefix<X>(p: X) -> PrefixIterator<<G as HasKeyPrefix<X>>::Suffix> where G: HasKeyPrefix<X> { let p = keyn::<P>(<G as HasKeyPrefix<X>>::prefix(&p)); PrefixIterator::new(p.clone(), p, |k, _| <G as HasKeyPrefix<X>>::suffix(k)) }
	pub fn drain_prefix<X>(p: X) -> PrefixIterator<(<G as HasKeyPrefix<X>>::Suffix, V)> where G: HasKeyPrefix<X> { Self::iter_prefix(p).drain() }
	pub fn clear_prefix<X>(p: X, l: u32, _c: Option<&[u8]>) -> io::MultiRemovalResults where G: HasKeyPrefix<X> { super::removed(io::storage::clear_prefix(&keyn::<P>(<G as HasKeyPrefix<X>>::prefix(&p)), Some(l))) }
	pub fn iter() -> PrefixIterator<(G::Key, V)> { let p = prefix_of::<P>(); PrefixIterator::new(p.clone(), p, |k, mut v| Ok((G::rest(k)?, V::decode(&mut v)?))) }
	pub fn iter_keys() -> PrefixIterator<G::Key> { let p = prefix_of::<P>(); PrefixIterator::new(p.clone(), p, |k, _| G::rest(k)) }
	pub fn drain() -> PrefixIterator<(G::Key, V)> { Self::iter().drain() }
}
#[allow(unused)]
fn _t() { let _ = twox_128(b""); }
