//! sp-core. Signatures are idealised: a signature is a keyed digest of the message that only the pair hands out.
use crate::{hashing, prelude::*};
use std::fmt;
pub use crate::{bounded, bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec}, offchain};
pub use parity_scale_codec::{Decode, Encode};
pub use serde;
pub use shim_macros::RuntimeDebug;
pub use shim_macros::RuntimeDebug as RuntimeDebugNoBound;

pub trait Get<T> { fn get() -> T; }
impl<T: Default> Get<T> for () { fn get() -> T { T::default() } }
pub trait TypedGet { type Type; fn get() -> Self::Type; }
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault { fn get() -> T { T::default() } }
pub trait TryGet {}
macro_rules! consts { ($($n:ident $t:ty),*) => { $(
	#[derive(Default, Clone, RuntimeDebug, PartialEq, Eq, TypeInfo)]
	pub struct $n<const T: $t>;
	impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } }
	impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } }
	impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } }
)* } }
consts!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI8 i8, ConstI16 i16, ConstI32 i32, ConstI64 i64, ConstI128 i128);

/// Declares types that hand out a constant, a computed or a per-thread value.
#[macro_export]
macro_rules! parameter_types { ($($t:tt)*) => { $crate::__parameter_types! { [$crate] $($t)* } } }
pub use shim_macros::__parameter_types;
pub use crate::parameter_types;
#[macro_export]
macro_rules! impl_opaque_like { ($n:ident, $len:expr) => {
	impl AsRef<[u8]> for $n { fn as_ref(&self) -> &[u8] { &self.0 } }
	impl AsMut<[u8]> for $n { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
	impl AsRef<[u8; $len]> for $n { fn as_ref(&self) -> &[u8; $len] { &self.0 } }
	impl From<[u8; $len]> for $n { fn from(x: [u8; $len]) -> Self { $n(x) } }
	impl From<$n> for [u8; $len] { fn from(x: $n) -> Self { x.0 } }
	impl TryFrom<&[u8]> for $n { type Error = (); fn try_from(x: &[u8]) -> Result<Self, ()> { Ok($n(x.try_into().map_err(|_| ())?)) } }
	impl std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "0x{}", hex::encode(&self.0)) } }
	impl serde::Serialize for $n { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { impl_serde::serialize::serialize(&self.0, s) } }
	impl<'de> serde::Deserialize<'de> for $n { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let v = impl_serde::serialize::deserialize(d)?;
		Ok($n(v.try_into().map_err(|_| serde::de::Error::custom("invalid length"))?)) } }
	impl std::ops::Deref for $n { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
} }
macro_rules! hashes { ($($n:ident $len:expr),*) => { $(
	#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub struct $n(pub [u8; $len]);
	impl Default for $n { fn default() -> Self { $n([0; $len]) } }
	impl_opaque_like!($n, $len);
	impl $n {
		pub fn as_bytes(&self) -> &[u8] { &self.0 }
		pub const fn as_fixed_bytes(&self) -> &[u8; $len] { &self.0 }
		pub fn to_fixed_bytes(self) -> [u8; $len] { self.0 }
		pub const fn zero() -> Self { $n([0; $len]) }
		pub const fn repeat_byte(b: u8) -> Self { $n([b; $len]) }
		pub fn from_slice(s: &[u8]) -> Self { $n(s.try_into().expect("length")) }
		pub fn is_zero(&self) -> bool { self.0.iter().all(|x| *x == 0) }
		pub fn from_low_u64_be(v: u64) -> Self { let mut b = [0; $len]; b[$len - 8..].copy_from_slice(&v.to_be_bytes()); $n(b) }
		pub fn from_low_u64_le(v: u64) -> Self { let mut b = [0; $len]; b[..8].copy_from_slice(&v.to_le_bytes()); $n(b) }
		pub fn random() -> Self { let mut b = [0; $len]; rand::Rng::fill(&mut rand::thread_rng(), &mut b[..]); $n(b) }
	}
	impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let h = hex::encode(&self.0); write!(f, "0x{}…{}", &h[..4], &h[h.len() - 4..]) } }
	impl fmt::LowerHex for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", hex::encode(&self.0)) } }
	impl std::str::FromStr for $n { type Err = hex::FromHexError; fn from_str(s: &str) -> Result<Self, hex::FromHexError> { let mut b = [0; $len]; hex::decode_to_slice(s.trim_start_matches("0x"), &mut b)?; Ok($n(b)) } }
)* } }
hashes!(H160 20, H256 32, H512 64);
impl AsRef<H256> for H256 { fn as_ref(&self) -> &H256 { self } }
pub mod hash { pub use super::{H160, H256, H512}; }

#[derive(PartialEq, Eq, Clone, Default, Hash, PartialOrd, Ord, Encode, Decode, Debug)]
pub struct Bytes(pub Vec<u8>);
impl From<Vec<u8>> for Bytes { fn from(v: Vec<u8>) -> Self { Bytes(v) } }
impl std::ops::Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl serde::Serialize for Bytes { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { impl_serde::serialize::serialize(&self.0, s) } }
impl<'de> serde::Deserialize<'de> for Bytes { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Bytes(impl_serde::serialize::deserialize(d)?)) } }
#[derive(PartialEq, Eq, Clone, Default, Encode, Decode, Debug)]
pub struct OpaqueMetadata(Vec<u8>);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Encode, Decode, PartialOrd, Ord, Debug, Default)]
pub enum Void { #[default] None }

pub mod hexdisplay {
	pub struct HexDisplay<'a>(&'a [u8]);
	impl<'a> HexDisplay<'a> { pub fn from<R: AsBytesRef + ?Sized>(d: &'a R) -> Self { HexDisplay(d.as_bytes_ref()) } }
	impl<'a> std::fmt::Display for HexDisplay<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", hex::encode(self.0)) } }
	impl<'a> std::fmt::Debug for HexDisplay<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", hex::encode(self.0)) } }
	pub trait AsBytesRef { fn as_bytes_ref(&self) -> &[u8]; }
	impl AsBytesRef for [u8] { fn as_bytes_ref(&self) -> &[u8] { self } }
	impl AsBytesRef for Vec<u8> { fn as_bytes_ref(&self) -> &[u8] { self } }
	impl<'a> AsBytesRef for &'a [u8] { fn as_bytes_ref(&self) -> &[u8] { self } }
	impl<const N: usize> AsBytesRef for [u8; N] { fn as_bytes_ref(&self) -> &[u8] { self } }
}

#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct AccountId32([u8; 32]);
impl_opaque_like!(AccountId32, 32);
impl AccountId32 { pub const fn new(x: [u8; 32]) -> Self { AccountId32(x) } }
impl fmt::Display for AccountId32 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", hex::encode(&self.0)) } }
impl From<&sr25519::Public> for AccountId32 { fn from(p: &sr25519::Public) -> Self { AccountId32(p.0) } }
impl From<sr25519::Public> for AccountId32 { fn from(p: sr25519::Public) -> Self { AccountId32(p.0) } }
impl From<ed25519::Public> for AccountId32 { fn from(p: ed25519::Public) -> Self { AccountId32(p.0) } }
impl AsRef<AccountId32> for AccountId32 { fn as_ref(&self) -> &AccountId32 { self } }

#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, Debug, TypeInfo)]
pub struct KeyTypeId(pub [u8; 4]);
impl From<u32> for KeyTypeId { fn from(x: u32) -> Self { KeyTypeId(x.to_le_bytes()) } }
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct CryptoTypeId(pub [u8; 4]);
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SecretStringError { InvalidFormat(String), InvalidSeedLength, InvalidPath }
pub trait ByteArray: AsRef<[u8]> + AsMut<[u8]> + for<'a> TryFrom<&'a [u8], Error = ()> {
	const LEN: usize;
	fn from_slice(d: &[u8]) -> Result<Self, ()> { Self::try_from(d) }
	fn to_raw_vec(&self) -> Vec<u8> { self.as_slice().to_vec() }
	fn as_slice(&self) -> &[u8] { self.as_ref() }
}
impl ByteArray for AccountId32 { const LEN: usize = 32; }
pub trait Pair: Sized + Clone + Send + Sync + 'static {
	type Public: Clone + Eq + AsRef<[u8]>;
	type Seed: Default + AsRef<[u8]> + AsMut<[u8]> + Clone;
	type Signature: AsRef<[u8]> + Clone;
	fn from_secret(s: [u8; 32]) -> Self;
	fn public(&self) -> Self::Public;
	fn sign(&self, message: &[u8]) -> Self::Signature;
	fn verify<M: AsRef<[u8]>>(sig: &Self::Signature, message: M, pubkey: &Self::Public) -> bool;
	fn generate() -> (Self, [u8; 32]) { let s = rand::random::<[u8; 32]>(); (Self::from_secret(s), s) }
	fn from_seed(s: &[u8; 32]) -> Self { Self::from_secret(*s) }
	fn from_seed_slice(s: &[u8]) -> Result<Self, SecretStringError> { Ok(Self::from_secret(s.try_into().map_err(|_| SecretStringError::InvalidSeedLength)?)) }
	fn from_string(s: &str, _pw: Option<&str>) -> Result<Self, SecretStringError> { Ok(Self::from_secret(hashing::blake2_256(s.as_bytes()))) }
	fn from_string_with_seed(s: &str, _pw: Option<&str>) -> Result<(Self, Option<[u8; 32]>), SecretStringError> { let x = hashing::blake2_256(s.as_bytes()); Ok((Self::from_secret(x), Some(x))) }
	fn to_raw_vec(&self) -> Vec<u8>;
}
thread_local! { static SALT: std::cell::Cell<u64> = std::cell::Cell::new(0); }
/// The randomness of the next sr25519 signatures. Zero unless set, so that cases are reproducible; the
/// repository's own unit tests run with VERIF_RANDOM_SIGNATURES=1.
pub fn set_salt(n: u64) { SALT.with(|s| s.set(n)) }
fn salt(scheme: &[u8; 4]) -> [u8; 8] {
	if scheme != b"sr25" { return [0; 8] }
	if std::env::var_os("VERIF_RANDOM_SIGNATURES").is_some() { return rand::random() }
	SALT.with(|s| s.get()).to_le_bytes()
}
macro_rules! scheme { ($m:ident, $tag:expr, $plen:expr, $slen:expr, $last:expr) => {
	pub mod $m {
		use super::*;
		#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
		pub struct Public(pub [u8; $plen]);
		impl_opaque_like!(Public, $plen);
		impl Public {
			pub const fn from_raw(x: [u8; $plen]) -> Self { Public(x) }
			pub fn as_array_ref(&self) -> &[u8; $plen] { &self.0 }
			pub fn unchecked_from(x: [u8; $plen]) -> Self { Public(x) }
		}
		impl Default for Public { fn default() -> Self { Public([0; $plen]) } }
		impl ByteArray for Public { const LEN: usize = $plen; }
		impl fmt::Display for Public { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", hex::encode(&self.0)) } }
		#[derive(Clone, Copy, PartialEq, Eq, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
		pub struct Signature(pub [u8; $slen]);
		impl_opaque_like!(Signature, $slen);
		impl ByteArray for Signature { const LEN: usize = $slen; }
		impl Signature { pub const fn from_raw(x: [u8; $slen]) -> Self { Signature(x) } }
		#[derive(Clone)]
		pub struct Pair { secret: [u8; 32], public: Public }
		impl fmt::Debug for Pair { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "Pair({:?})", self.public) } }
		pub fn digest(p: &Public, m: &[u8]) -> Signature { salted(p, m, &[0; 8]) }
		/// One of the signatures over `m`: schemes that sign with randomness have many.
		pub fn salted(p: &Public, m: &[u8], salt: &[u8]) -> Signature {
			let mut d = $tag.to_vec();
			d.extend_from_slice(salt);
			d.extend_from_slice(&p.0);
			d.extend_from_slice(m);
			let mut o = [$last; $slen];
			o[..64].copy_from_slice(&hashing::blake2_512(&d));
			o[..8].copy_from_slice(salt);
			Signature(o)
		}
		impl super::Pair for Pair {
			type Public = Public;
			type Seed = [u8; 32];
			type Signature = Signature;
			fn from_secret(s: [u8; 32]) -> Self {
				let mut d = $tag.to_vec();
				d.extend_from_slice(&s);
				let mut p = [2u8; $plen];
				p[$plen - 32..].copy_from_slice(&hashing::blake2_256(&d));
				Pair { secret: s, public: Public(p) }
			}
			fn public(&self) -> Public { self.public }
			fn sign(&self, m: &[u8]) -> Signature { salted(&self.public, m, &salt($tag)) }
			fn verify<M: AsRef<[u8]>>(sig: &Signature, m: M, p: &Public) -> bool { *sig == salted(p, m.as_ref(), &sig.0[..8]) }
			fn to_raw_vec(&self) -> Vec<u8> { self.secret.to_vec() }
		}
		pub const CRYPTO_ID: CryptoTypeId = CryptoTypeId(*$tag);
	}
} }
scheme!(sr25519, b"sr25", 32, 64, 0u8);
scheme!(ed25519, b"ed25", 32, 64, 0u8);
scheme!(ecdsa, b"ecds", 33, 65, 1u8);
// In the idealised scheme the account is the key itself, so that a signature can be checked against the account alone.
impl From<ecdsa::Public> for AccountId32 { fn from(p: ecdsa::Public) -> Self { let mut a = [0u8; 32]; a.copy_from_slice(&p.0[1..]); AccountId32(a) } }
pub mod crypto {
	pub use super::{AccountId32, ByteArray, CryptoTypeId, KeyTypeId, Pair, SecretStringError};
	pub trait UncheckedFrom<T> { fn unchecked_from(t: T) -> Self; }
	pub trait Ss58Codec {}
	pub const DEV_PHRASE: &str = "bottom drive obey lake curtain smoke basket hold race lonely fit walk";
	pub mod key_types { pub const DUMMY: super::KeyTypeId = super::KeyTypeId(*b"dumy"); }
}
pub mod storage {
	use super::*;
	use std::collections::{BTreeMap, HashMap};
	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct StorageChild { pub data: BTreeMap<Vec<u8>, Vec<u8>>, pub child_info: ChildInfo }
	#[derive(Clone, Debug, Default)]
	pub struct Storage { pub top: BTreeMap<Vec<u8>, Vec<u8>>, pub children_default: HashMap<Vec<u8>, StorageChild> }
	#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode)]
	pub struct ChildInfo(pub Vec<u8>);
	impl ChildInfo {
		pub fn new_default(k: &[u8]) -> Self { ChildInfo(k.to_vec()) }
		pub fn new_default_from_vec(k: Vec<u8>) -> Self { ChildInfo(k) }
		pub fn storage_key(&self) -> &[u8] { &self.0 }
		pub fn into_prefixed_storage_key(self) -> Vec<u8> { [b":child_storage:default:".to_vec(), self.0].concat() }
		pub fn prefixed_storage_key(&self) -> Vec<u8> { self.clone().into_prefixed_storage_key() }
	}
	#[derive(Copy, Clone, PartialEq, Eq, Debug)]
	pub enum StateVersion { V0, V1 }
	pub mod well_known_keys {
		pub const CODE: &[u8] = b":code";
		pub const EXTRINSIC_INDEX: &[u8] = b":extrinsic_index";
		pub const CHILD_STORAGE_KEY_PREFIX: &[u8] = b":child_storage:";
	}
}
#[derive(Copy, Clone, PartialEq, Eq, Encode, Decode, Debug)]
pub enum Infallible {}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct U256(pub [u64; 4]);
