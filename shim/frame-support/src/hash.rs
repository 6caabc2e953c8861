use parity_scale_codec::{Encode, MaxEncodedLen};
use shim_base::hashing::*;
pub trait Hashable: Sized {
	fn blake2_128(&self) -> [u8; 16];
	fn blake2_256(&self) -> [u8; 32];
	fn blake2_128_concat(&self) -> Vec<u8>;
	fn twox_128(&self) -> [u8; 16];
	fn twox_256(&self) -> [u8; 32];
	fn twox_64_concat(&self) -> Vec<u8>;
	fn identity(&self) -> Vec<u8>;
}
impl<T: parity_scale_codec::Codec> Hashable for T {
	fn blake2_128(&self) -> [u8; 16] { self.using_encoded(blake2_128) }
	fn blake2_256(&self) -> [u8; 32] { self.using_encoded(blake2_256) }
	fn blake2_128_concat(&self) -> Vec<u8> { self.using_encoded(Blake2_128Concat::hash) }
	fn twox_128(&self) -> [u8; 16] { self.using_encoded(twox_128) }
	fn twox_256(&self) -> [u8; 32] { self.using_encoded(twox_256) }
	fn twox_64_concat(&self) -> Vec<u8> { self.using_encoded(Twox64Concat::hash) }
	fn identity(&self) -> Vec<u8> { self.encode() }
}
pub trait StorageHasher: 'static {
	type Output: AsRef<[u8]>;
	fn hash(x: &[u8]) -> Self::Output;
	fn max_len<K: MaxEncodedLen>() -> usize;
}
pub trait ReversibleStorageHasher: StorageHasher { fn reverse(x: &[u8]) -> &[u8]; }
macro_rules! plain { ($($n:ident $f:ident $l:expr),*) => { $(
	#[derive(Clone, Copy, Debug)]
	pub struct $n;
	impl StorageHasher for $n { type Output = [u8; $l]; fn hash(x: &[u8]) -> [u8; $l] { $f(x) } fn max_len<K: MaxEncodedLen>() -> usize { $l } }
)* } }
plain!(Blake2_128 blake2_128 16, Blake2_256 blake2_256 32, Twox128 twox_128 16, Twox256 twox_256 32);
macro_rules! concat { ($($n:ident $f:ident $l:expr),*) => { $(
	#[derive(Clone, Copy, Debug)]
	pub struct $n;
	impl StorageHasher for $n { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { let mut v = $f(x).to_vec(); v.extend_from_slice(x); v } fn max_len<K: MaxEncodedLen>() -> usize { K::max_encoded_len().saturating_add($l) } }
	impl ReversibleStorageHasher for $n { fn reverse(x: &[u8]) -> &[u8] { x.get($l..).unwrap_or(&[]) } }
)* } }
concat!(Blake2_128Concat blake2_128 16, Twox64Concat twox_64 8);
#[derive(Clone, Copy, Debug)]
pub struct Identity;
impl StorageHasher for Identity { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { x.to_vec() } fn max_len<K: MaxEncodedLen>() -> usize { K::max_encoded_len() } }
impl ReversibleStorageHasher for Identity { fn reverse(x: &[u8]) -> &[u8] { x } }
