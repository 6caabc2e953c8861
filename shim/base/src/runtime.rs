//! sp-runtime.
use crate::prelude::*;
pub use crate::arith::{self, FixedPointNumber, FixedPointOperand, FixedU128, PerThing, Perbill, Percent, Permill, Perquintill, Rounding, SaturatedConversion, Saturating};
pub use crate::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use crate::core::{bounded, storage::{StateVersion, Storage, StorageChild}, AccountId32, Bytes, H256, RuntimeDebug};
pub use crate::offchain::runtime as offchain;
pub use crate::core::crypto::{self, key_types, CryptoTypeId, KeyTypeId};
use crate::core::{ecdsa, ed25519, sr25519, Pair as _};
use crate::weights::Weight;
use std::fmt;
pub use std::borrow::Cow;
pub mod biguint {}
pub mod app_crypto {
	pub use crate::core::{ecdsa, ed25519, sr25519};
	pub trait RuntimeAppPublic {}
}
pub trait RuntimeAppPublic {}
#[macro_export]
macro_rules! create_runtime_str { ($y:expr) => { std::borrow::Cow::Borrowed($y) } }
pub use create_runtime_str;
pub type RuntimeString = Cow<'static, str>;
#[macro_export]
macro_rules! print { ($($t:tt)*) => {} }

pub const MAX_MODULE_ERROR_ENCODED_SIZE: usize = 4;
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	#[codec(skip)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError { fn eq(&self, o: &Self) -> bool { self.index == o.index && self.error == o.error } }
macro_rules! plain_enum { ($n:ident { $($v:ident = $t:expr),* }) => {
	#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
	pub enum $n { $($v),* }
	impl From<$n> for &'static str { fn from(e: $n) -> &'static str { match e { $($n::$v => $t),* } } }
} }
plain_enum!(TokenError { FundsUnavailable = "Funds are unavailable", OnlyProvider = "Account that must exist would die", BelowMinimum = "Account cannot exist with the funds that would be given", CannotCreate = "Account cannot be created", UnknownAsset = "The asset in question is unknown", Frozen = "Funds exist but are frozen", Unsupported = "Operation is not supported by the asset", CannotCreateHold = "Account cannot be created for recording amount on hold", NotExpendable = "Account that is desired to remain would die", Blocked = "Account cannot receive the assets" });
plain_enum!(ArithmeticError { Underflow = "An underflow would occur", Overflow = "An overflow would occur", DivisionByZero = "Division by zero" });
plain_enum!(TransactionalError { LimitReached = "Too many transactional layers have been spawned", NoLayer = "A transactional layer was expected, but does not exist" });
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum DispatchError {
	Other(#[codec(skip)] &'static str),
	CannotLookup, BadOrigin, Module(ModuleError), ConsumerRemaining, NoProviders, TooManyConsumers, Token(TokenError), Arithmetic(ArithmeticError),
	Transactional(TransactionalError), Exhausted, Corruption, Unavailable, RootNotAllowed,
}
impl DispatchError { pub fn stripped(self) -> Self { match self { DispatchError::Module(ModuleError { index, error, .. }) => DispatchError::Module(ModuleError { index, error, message: None }), x => x } } }
impl From<&'static str> for DispatchError { fn from(e: &'static str) -> Self { DispatchError::Other(e) } }
impl From<TokenError> for DispatchError { fn from(e: TokenError) -> Self { DispatchError::Token(e) } }
impl From<ArithmeticError> for DispatchError { fn from(e: ArithmeticError) -> Self { DispatchError::Arithmetic(e) } }
impl From<TransactionalError> for DispatchError { fn from(e: TransactionalError) -> Self { DispatchError::Transactional(e) } }
impl From<traits::LookupError> for DispatchError { fn from(_: traits::LookupError) -> Self { DispatchError::CannotLookup } }
impl From<traits::BadOrigin> for DispatchError { fn from(_: traits::BadOrigin) -> Self { DispatchError::BadOrigin } }
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(m) => m,
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::Module(m) => m.message.unwrap_or("Unknown module error"),
			DispatchError::ConsumerRemaining => "Consumer remaining",
			DispatchError::NoProviders => "No providers",
			DispatchError::TooManyConsumers => "Too many consumers",
			DispatchError::Token(e) => e.into(),
			DispatchError::Arithmetic(e) => e.into(),
			DispatchError::Transactional(e) => e.into(),
			DispatchError::Exhausted => "Resources exhausted",
			DispatchError::Corruption => "State corrupt",
			DispatchError::Unavailable => "Resource unavailable",
			DispatchError::RootNotAllowed => "Root not allowed",
		}
	}
}
impl fmt::Display for DispatchError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str((*self).into()) } }
pub type DispatchResult = Result<(), DispatchError>;
pub type TryRuntimeError = DispatchError;
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo)]
pub struct DispatchErrorWithPostInfo<I: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable> { pub post_info: I, pub error: DispatchError }
impl<T, E> From<E> for DispatchErrorWithPostInfo<T>
where T: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable + Default, E: Into<DispatchError> {
	fn from(e: E) -> Self { DispatchErrorWithPostInfo { post_info: Default::default(), error: e.into() } }
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type ApplyExtrinsicResultWithInfo<T> = Result<DispatchResultWithInfo<T>, transaction_validity::TransactionValidityError>;
pub type DispatchOutcome = Result<(), DispatchError>;

pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> { let mut s = Default::default(); self.assimilate_storage(&mut s)?; Ok(s) }
	fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String>;
}

#[derive(Eq, PartialEq, Clone, Encode, Decode, MaxEncodedLen, Debug, TypeInfo)]
pub enum MultiSignature { Ed25519(ed25519::Signature), Sr25519(sr25519::Signature), Ecdsa(ecdsa::Signature) }
#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Encode, Decode, Debug, TypeInfo)]
pub enum MultiSigner { Ed25519(ed25519::Public), Sr25519(sr25519::Public), Ecdsa(ecdsa::Public) }
impl From<sr25519::Signature> for MultiSignature { fn from(s: sr25519::Signature) -> Self { MultiSignature::Sr25519(s) } }
impl From<ed25519::Signature> for MultiSignature { fn from(s: ed25519::Signature) -> Self { MultiSignature::Ed25519(s) } }
impl From<ecdsa::Signature> for MultiSignature { fn from(s: ecdsa::Signature) -> Self { MultiSignature::Ecdsa(s) } }
impl From<sr25519::Public> for MultiSigner { fn from(s: sr25519::Public) -> Self { MultiSigner::Sr25519(s) } }
impl From<ed25519::Public> for MultiSigner { fn from(s: ed25519::Public) -> Self { MultiSigner::Ed25519(s) } }
impl From<ecdsa::Public> for MultiSigner { fn from(s: ecdsa::Public) -> Self { MultiSigner::Ecdsa(s) } }
impl traits::IdentifyAccount for MultiSigner {
	type AccountId = AccountId32;
	fn into_account(self) -> AccountId32 { match self { MultiSigner::Ed25519(p) => p.into(), MultiSigner::Sr25519(p) => p.into(), MultiSigner::Ecdsa(p) => p.into() } }
}
impl traits::Verify for MultiSignature {
	type Signer = MultiSigner;
	fn verify<L: traits::Lazy<[u8]>>(&self, mut m: L, who: &AccountId32) -> bool {
		let key: [u8; 32] = who.clone().into();
		match self {
			MultiSignature::Sr25519(s) => sr25519::Pair::verify(s, m.get(), &sr25519::Public(key)),
			MultiSignature::Ed25519(s) => ed25519::Pair::verify(s, m.get(), &ed25519::Public(key)),
			// The key is not part of an account here: the stand-in cannot recover it, so the digest is over the account.
			MultiSignature::Ecdsa(s) => ecdsa_by_account(&who, m.get()) == *s,
		}
	}
}
/// The ecdsa signature an account's owner makes.
pub fn ecdsa_by_account(who: &AccountId32, m: &[u8]) -> ecdsa::Signature {
	let mut p = [2u8; 33];
	p[1..].copy_from_slice(who.as_ref());
	ecdsa::digest(&ecdsa::Public(p), m)
}
macro_rules! verify { ($($m:ident),*) => { $(
	impl traits::Verify for $m::Signature { type Signer = $m::Public; fn verify<L: traits::Lazy<[u8]>>(&self, mut m: L, who: &$m::Public) -> bool { $m::Pair::verify(self, m.get(), who) } }
	impl traits::IdentifyAccount for $m::Public { type AccountId = Self; fn into_account(self) -> Self { self } }
)* } }
verify!(sr25519, ed25519);
#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, Hash, TypeInfo)]
pub enum MultiAddress<AccountId, AccountIndex> {
	Id(AccountId),
	Index(#[codec(compact)] AccountIndex),
	Raw(Vec<u8>),
	Address32([u8; 32]),
	Address20([u8; 20]),
}
impl<A, I> From<A> for MultiAddress<A, I> { fn from(a: A) -> Self { MultiAddress::Id(a) } }
#[derive(PartialEq, Eq, Clone, Default, Encode, Decode, Debug, TypeInfo)]
pub struct OpaqueExtrinsic(pub Vec<u8>);
impl OpaqueExtrinsic { pub fn from_bytes(b: &[u8]) -> Result<Self, parity_scale_codec::Error> { Ok(OpaqueExtrinsic(b.to_vec())) } }
impl traits::Extrinsic for OpaqueExtrinsic { type Call = (); type SignaturePayload = (); }
pub type Justifications = Vec<u8>;

pub mod traits {
	use super::*;
	pub use crate::arith::{
		AtLeast16Bit, AtLeast16BitUnsigned, AtLeast32Bit, AtLeast32BitUnsigned, AtLeast8Bit, AtLeast8BitUnsigned, BaseArithmetic, Bounded, CheckedAdd, CheckedConversion, CheckedDiv, CheckedMul, CheckedRem, CheckedSub,
		EnsureAdd, EnsureFrom, EnsureInto, IntegerSquareRoot, EnsureAddAssign, EnsureDiv, EnsureMul, EnsureSub, EnsureSubAssign, One, SaturatedConversion, Saturating, Signed, UniqueSaturatedFrom, UniqueSaturatedInto, Unsigned, Zero, checked_pow,
	};
	pub use crate::core::{ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TypedGet};
	use crate::runtime::transaction_validity::*;
	pub trait Lazy<T: ?Sized> { fn get(&mut self) -> &T; }
	impl<'a> Lazy<[u8]> for &'a [u8] { fn get(&mut self) -> &[u8] { self } }
	pub trait IdentifyAccount { type AccountId; fn into_account(self) -> Self::AccountId; }
	pub trait Verify { type Signer: IdentifyAccount; fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool; }
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct LookupError;
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct BadOrigin;
	impl From<BadOrigin> for &'static str { fn from(_: BadOrigin) -> Self { "Bad origin" } }
	impl From<LookupError> for &'static str { fn from(_: LookupError) -> Self { "Lookup" } }
	pub trait StaticLookup { type Source: Codec + Clone + PartialEq + fmt::Debug + TypeInfo; type Target; fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>; fn unlookup(t: Self::Target) -> Self::Source; }
	pub trait Lookup { type Source; type Target; fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>; }
	pub struct IdentityLookup<T>(PhantomData<T>);
	impl<T> Default for IdentityLookup<T> { fn default() -> Self { IdentityLookup(PhantomData) } }
	impl<T: Codec + Clone + PartialEq + fmt::Debug + TypeInfo> StaticLookup for IdentityLookup<T> { type Source = T; type Target = T; fn lookup(x: T) -> Result<T, LookupError> { Ok(x) } fn unlookup(x: T) -> T { x } }
	pub struct AccountIdLookup<A, I>(PhantomData<(A, I)>);
	impl<A: Codec + Clone + PartialEq + fmt::Debug + 'static, I: Codec + Clone + PartialEq + fmt::Debug + 'static> StaticLookup for AccountIdLookup<A, I>
	where MultiAddress<A, I>: Codec {
		type Source = MultiAddress<A, I>;
		type Target = A;
		fn lookup(x: Self::Source) -> Result<A, LookupError> { match x { MultiAddress::Id(i) => Ok(i), _ => Err(LookupError) } }
		fn unlookup(x: A) -> Self::Source { MultiAddress::Id(x) }
	}
	pub trait Convert<A, B> { fn convert(a: A) -> B; }
	impl<A, B: Default> Convert<A, B> for () { fn convert(_: A) -> B { Default::default() } }
	pub struct Identity;
	impl<T> Convert<T, T> for Identity { fn convert(a: T) -> T { a } }
	pub struct ConvertInto;
	impl<A: Into<B>, B> Convert<A, B> for ConvertInto { fn convert(a: A) -> B { a.into() } }
	pub trait ConvertBack<A, B>: Convert<A, B> { fn convert_back(b: B) -> A; }
	pub trait MaybeEquivalence<A, B> { fn convert(a: &A) -> Option<B>; fn convert_back(b: &B) -> Option<A>; }
	pub trait TryConvert<A, B> { fn try_convert(a: A) -> Result<B, A>; }
	pub trait Printable { fn print(&self) {} }
	impl Printable for () {}
	impl<T> Printable for Option<T> {}
	pub trait Hash: 'static + fmt::Debug + Clone + Eq + PartialEq {
		type Output: Copy + Clone + fmt::Debug + fmt::Display + Eq + PartialEq + Ord + std::hash::Hash + Default + Codec + EncodeLike + MaxEncodedLen + TypeInfo + AsRef<[u8]> + AsMut<[u8]> + Send + Sync + 'static + MaybeSerializeDeserialize + MaybeDisplay;
		fn hash(s: &[u8]) -> Self::Output;
		fn hash_of<S: Encode>(s: &S) -> Self::Output { Self::hash(&s.encode()) }
	}
	pub use Hash as HashT;
	#[derive(PartialEq, Eq, Clone, Debug, TypeInfo, Default, Encode, Decode, serde::Serialize, serde::Deserialize)]
	pub struct BlakeTwo256;
	impl Hash for BlakeTwo256 { type Output = H256; fn hash(s: &[u8]) -> H256 { H256(crate::hashing::blake2_256(s)) } }
	macro_rules! maybe { ($($n:ident: $b:path),*) => { $(pub trait $n: $b {} impl<T: $b + ?Sized> $n for T {})* } }
	maybe!(MaybeDisplay: fmt::Display, MaybeFromStr: MaybeAny, MaybeHash: MaybeAny, MaybeSerialize: serde::Serialize, MaybeSerializeDeserialize: MaybeAny);
	pub trait MaybeAny {}
	impl<T: ?Sized> MaybeAny for T {}
	pub trait Member: Send + Sync + Sized + fmt::Debug + Eq + PartialEq + Clone + 'static {}
	impl<T: Send + Sync + Sized + fmt::Debug + Eq + PartialEq + Clone + 'static> Member for T {}
	pub trait HeaderProvider { type HeaderT: Header; }
	pub trait BlockNumber: Member + MaybeDisplay + AtLeast32BitUnsigned + fmt::Debug + std::hash::Hash + Copy + Default + Codec + EncodeLike + MaxEncodedLen + TypeInfo + TryFrom<u64> + TryInto<u64> + std::ops::AddAssign + TryInto<u32> {}
	impl<T: Member + MaybeDisplay + AtLeast32BitUnsigned + fmt::Debug + std::hash::Hash + Copy + Default + Codec + EncodeLike + MaxEncodedLen + TypeInfo + TryFrom<u64> + TryInto<u64> + std::ops::AddAssign + TryInto<u32>> BlockNumber for T {}
	pub trait Header: Clone + Send + Sync + Codec + Eq + fmt::Debug + 'static {
		type Number: BlockNumber;
		type Hash: Copy + Clone + fmt::Debug + fmt::Display + Eq + Ord + std::hash::Hash + Default + Codec + EncodeLike + MaxEncodedLen + TypeInfo + AsRef<[u8]> + AsMut<[u8]> + Send + Sync + 'static;
		type Hashing: Hash<Output = Self::Hash>;
		fn new(number: Self::Number, extrinsics_root: Self::Hash, state_root: Self::Hash, parent_hash: Self::Hash, digest: generic::Digest) -> Self;
		fn number(&self) -> &Self::Number;
		fn parent_hash(&self) -> &Self::Hash;
		fn hash(&self) -> Self::Hash { Self::Hashing::hash_of(self) }
	}
	pub type NumberFor<B> = <<B as Block>::Header as Header>::Number;
	pub trait Extrinsic: Sized { type Call; type SignaturePayload; fn is_signed(&self) -> Option<bool> { None } }
	pub trait ExtrinsicMetadata {}
	pub trait Block: Clone + Send + Sync + Codec + Eq + fmt::Debug + 'static {
		type Extrinsic: Extrinsic + Codec;
		type Header: Header<Hash = Self::Hash>;
		type Hash: Copy + Clone + fmt::Debug + fmt::Display + Eq + Ord + std::hash::Hash + Default + Codec + EncodeLike + MaxEncodedLen + TypeInfo + AsRef<[u8]> + AsMut<[u8]> + Send + Sync + 'static;
		fn header(&self) -> &Self::Header;
		fn extrinsics(&self) -> &[Self::Extrinsic];
		fn hash(&self) -> Self::Hash { <Self::Header as Header>::hash(self.header()) }
	}
	pub trait BlockNumberProvider {
		type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + TypeInfo + fmt::Debug + MaxEncodedLen + Copy + EncodeLike + Default;
		fn current_block_number() -> Self::BlockNumber;
		fn set_block_number(_b: Self::BlockNumber) {}
	}
	impl BlockNumberProvider for () { type BlockNumber = u32; fn current_block_number() -> u32 { 0 } }
	pub trait Dispatchable {
		type RuntimeOrigin: fmt::Debug;
		type Config;
		type Info;
		type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Printable;
		fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
	}
	impl Dispatchable for () { type RuntimeOrigin = (); type Config = (); type Info = (); type PostInfo = (); fn dispatch(self, _o: ()) -> DispatchResultWithInfo<()> { panic!("() is not dispatchable") } }
	pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
	pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
	pub trait SignedExtension: Codec + fmt::Debug + Sync + Send + Clone + Eq + PartialEq + TypeInfo {
		const IDENTIFIER: &'static str;
		type AccountId;
		type Call: Dispatchable;
		type AdditionalSigned: Codec + TypeInfo;
		type Pre;
		fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
		fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
		fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
		fn post_dispatch(_pre: Option<Self::Pre>, _info: &DispatchInfoOf<Self::Call>, _post: &PostDispatchInfoOf<Self::Call>, _len: usize, _result: &DispatchResult) -> Result<(), TransactionValidityError> { Ok(()) }
		fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
		fn pre_dispatch_unsigned(call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> { Self::validate_unsigned(call, info, len).map(|_| ()) }
	}
	macro_rules! ext { ($($n:ident $i:tt),*) => {
		impl<AccountId, Call: Dispatchable, $($n: SignedExtension<AccountId = AccountId, Call = Call>),*> SignedExtension for ($($n,)*) where ($($n,)*): Codec + fmt::Debug + Sync + Send + Clone + Eq + TypeInfo, ($($n::AdditionalSigned,)*): Codec + TypeInfo {
			const IDENTIFIER: &'static str = "tuple";
			type AccountId = AccountId;
			type Call = Call;
			type AdditionalSigned = ($($n::AdditionalSigned,)*);
			type Pre = ($($n::Pre,)*);
			fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> { Ok(($(self.$i.additional_signed()?,)*)) }
			fn validate(&self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
				let v = ValidTransaction::default();
				$(let v = v.combine_with(self.$i.validate(who, call, info, len)?);)*
				Ok(v)
			}
			fn pre_dispatch(self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> { Ok(($(self.$i.pre_dispatch(who, call, info, len)?,)*)) }
			fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<Call>, post: &PostDispatchInfoOf<Call>, len: usize, result: &DispatchResult) -> Result<(), TransactionValidityError> {
				match pre {
					Some(x) => { $($n::post_dispatch(Some(x.$i), info, post, len, result)?;)* },
					None => { $($n::post_dispatch(None, info, post, len, result)?;)* },
				}
				Ok(())
			}
			fn validate_unsigned(call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
				let v = ValidTransaction::default();
				$(let v = v.combine_with($n::validate_unsigned(call, info, len)?);)*
				Ok(v)
			}
		}
	} }
	ext!(A 0);
	ext!(A 0, B 1);
	ext!(A 0, B 1, C 2);
	ext!(A 0, B 1, C 2, D 3);
	ext!(A 0, B 1, C 2, D 3, E 4);
	ext!(A 0, B 1, C 2, D 3, E 4, F 5);
	ext!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
	ext!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
	ext!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
	ext!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
	ext!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
	ext!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
	pub trait ValidateUnsigned {
		type Call;
		fn pre_dispatch(call: &Self::Call) -> Result<(), TransactionValidityError> { Self::validate_unsigned(TransactionSource::InBlock, call).map(|_| ()).map_err(Into::into) }
		fn validate_unsigned(source: TransactionSource, call: &Self::Call) -> TransactionValidity;
	}
	pub struct TrailingZeroInput<'a>(&'a [u8]);
	impl<'a> TrailingZeroInput<'a> { pub fn new(d: &'a [u8]) -> Self { TrailingZeroInput(d) } pub fn zeroes() -> Self { TrailingZeroInput(&[]) } }
	impl<'a> Input for TrailingZeroInput<'a> {
		fn remaining_len(&mut self) -> Result<Option<usize>, parity_scale_codec::Error> { Ok(None) }
		fn read(&mut self, into: &mut [u8]) -> Result<(), parity_scale_codec::Error> {
			let n = into.len().min(self.0.len());
			into[..n].copy_from_slice(&self.0[..n]);
			for x in &mut into[n..] { *x = 0 }
			self.0 = &self.0[n..];
			Ok(())
		}
	}
	pub trait AccountIdConversion<A>: Sized { fn into_account_truncating(&self) -> A; fn try_into_account(&self) -> Option<A> { Some(self.into_account_truncating()) } fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> A; }
	pub trait TypeId { const TYPE_ID: [u8; 4]; }
	impl<A: Decode, I: Encode + TypeId> AccountIdConversion<A> for I {
		fn into_account_truncating(&self) -> A { (I::TYPE_ID, self).using_encoded(|b| A::decode(&mut TrailingZeroInput(b))).expect("infinite input") }
		fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> A { (I::TYPE_ID, self, sub).using_encoded(|b| A::decode(&mut TrailingZeroInput(b))).expect("infinite input") }
	}
	pub trait OpaqueKeys {}
	pub trait Applyable {}
	pub trait Checkable<C> {}
	pub trait GetRuntimeBlockType { type RuntimeBlock; }
	pub trait GetNodeBlockType { type NodeBlock; }
	pub trait IsMember<A> { fn is_member(a: &A) -> bool; }
	pub trait ReduceBy {}
	pub trait Morph<A> { type Outcome; fn morph(a: A) -> Self::Outcome; }
}
pub mod transaction_validity {
	use super::*;
	pub type TransactionPriority = u64;
	pub type TransactionLongevity = u64;
	pub type TransactionTag = Vec<u8>;
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
	pub enum InvalidTransaction { Call, Payment, Future, Stale, BadProof, AncientBirthBlock, ExhaustsResources, Custom(u8), BadMandatory, MandatoryValidation, BadSigner }
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
	pub enum UnknownTransaction { CannotLookup, NoUnsignedValidator, Custom(u8) }
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
	pub enum TransactionValidityError { Invalid(InvalidTransaction), Unknown(UnknownTransaction) }
	impl From<InvalidTransaction> for TransactionValidityError { fn from(e: InvalidTransaction) -> Self { Self::Invalid(e) } }
	impl From<UnknownTransaction> for TransactionValidityError { fn from(e: UnknownTransaction) -> Self { Self::Unknown(e) } }
	impl TransactionValidityError { pub fn exhausted_resources(&self) -> bool { *self == Self::Invalid(InvalidTransaction::ExhaustsResources) } }
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
	impl From<InvalidTransaction> for TransactionValidity { fn from(e: InvalidTransaction) -> Self { Err(e.into()) } }
	impl From<UnknownTransaction> for TransactionValidity { fn from(e: UnknownTransaction) -> Self { Err(e.into()) } }
	#[derive(Copy, Clone, PartialEq, Eq, Encode, Decode, Debug, TypeInfo)]
	pub enum TransactionSource { InBlock, Local, External }
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Debug, TypeInfo)]
	pub struct ValidTransaction { pub priority: u64, pub requires: Vec<TransactionTag>, pub provides: Vec<TransactionTag>, pub longevity: u64, pub propagate: bool }
	impl Default for ValidTransaction { fn default() -> Self { ValidTransaction { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true } } }
	impl ValidTransaction {
		pub fn with_tag_prefix(prefix: &'static str) -> ValidTransactionBuilder { ValidTransactionBuilder { prefix: Some(prefix), v: Default::default() } }
		pub fn combine_with(mut self, mut o: ValidTransaction) -> Self {
			self.requires.append(&mut o.requires);
			self.provides.append(&mut o.provides);
			ValidTransaction { priority: self.priority.saturating_add(o.priority), requires: self.requires, provides: self.provides, longevity: self.longevity.min(o.longevity), propagate: self.propagate && o.propagate }
		}
	}
	pub struct ValidTransactionBuilder { prefix: Option<&'static str>, v: ValidTransaction }
	impl ValidTransactionBuilder {
		fn tag(&self, t: impl Encode) -> Vec<u8> { match self.prefix { Some(p) => (p, t).encode(), None => t.encode() } }
		pub fn priority(mut self, p: u64) -> Self { self.v.priority = p; self }
		pub fn longevity(mut self, p: u64) -> Self { self.v.longevity = p; self }
		pub fn propagate(mut self, p: bool) -> Self { self.v.propagate = p; self }
		pub fn and_requires(mut self, t: impl Encode) -> Self { let t = self.tag(t); self.v.requires.push(t); self }
		pub fn and_provides(mut self, t: impl Encode) -> Self { let t = self.tag(t); self.v.provides.push(t); self }
		pub fn build(self) -> TransactionValidity { Ok(self.v) }
	}
	impl From<ValidTransactionBuilder> for TransactionValidity { fn from(b: ValidTransactionBuilder) -> Self { b.build() } }
}
pub mod generic {
	use super::{traits::{self, Hash as HashT}, *};
	#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo, Default)]
	pub struct Digest { pub logs: Vec<DigestItem> }
	impl Digest { pub fn logs(&self) -> &[DigestItem] { &self.logs } pub fn push(&mut self, i: DigestItem) { self.logs.push(i) } }
	#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo)]
	pub enum DigestItem { Other(Vec<u8>), PreRuntime([u8; 4], Vec<u8>), Consensus([u8; 4], Vec<u8>), Seal([u8; 4], Vec<u8>), RuntimeEnvironmentUpdated }
	#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, TypeInfo)]
	pub struct Header<Number: Copy + Into<u128> + TryFrom<u128>, Hash: HashT> {
		pub parent_hash: Hash::Output,
		#[codec(compact)]
		pub number: Number,
		pub state_root: Hash::Output,
		pub extrinsics_root: Hash::Output,
		pub digest: Digest,
	}
	impl<N: traits::BlockNumber + Into<u128> + TryFrom<u128>, H: HashT + Send + Sync> traits::Header for Header<N, H> where Self: Codec {
		type Number = N;
		type Hash = H::Output;
		type Hashing = H;
		fn new(number: N, extrinsics_root: H::Output, state_root: H::Output, parent_hash: H::Output, digest: Digest) -> Self { Header { parent_hash, number, state_root, extrinsics_root, digest } }
		fn number(&self) -> &N { &self.number }
		fn parent_hash(&self) -> &H::Output { &self.parent_hash }
	}
	#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo)]
	pub struct Block<Header, Extrinsic> { pub header: Header, pub extrinsics: Vec<Extrinsic> }
	impl<H: traits::Header, E: traits::Extrinsic + Codec + Eq + Clone + fmt::Debug + Send + Sync + 'static> traits::Block for Block<H, E> {
		type Extrinsic = E;
		type Header = H;
		type Hash = H::Hash;
		fn header(&self) -> &H { &self.header }
		fn extrinsics(&self) -> &[E] { &self.extrinsics }
	}
	impl<H: traits::Header, E: 'static> traits::HeaderProvider for Block<H, E> { type HeaderT = H; }
	pub enum BlockId<B: traits::Block> { Hash(B::Hash), Number(traits::NumberFor<B>) }
	#[derive(PartialEq, Eq, Clone, Copy, Debug, TypeInfo, Encode, Decode)]
	pub enum Era { Immortal, Mortal(u64, u64) }
	impl Era { pub fn immortal() -> Self { Era::Immortal } pub fn mortal(period: u64, current: u64) -> Self { Era::Mortal(period, current % period) } }
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo)]
	pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> { pub signature: Option<(Address, Signature, Extra)>, pub function: Call }
	impl<A, C, S, E> UncheckedExtrinsic<A, C, S, E> {
		pub fn new_signed(function: C, a: A, s: S, e: E) -> Self { UncheckedExtrinsic { signature: Some((a, s, e)), function } }
		pub fn new_unsigned(function: C) -> Self { UncheckedExtrinsic { signature: None, function } }
	}
	impl<A, C, S, E> traits::Extrinsic for UncheckedExtrinsic<A, C, S, E> { type Call = C; type SignaturePayload = (A, S, E); fn is_signed(&self) -> Option<bool> { Some(self.signature.is_some()) } }
	pub struct SignedPayload<C, E>(pub (C, E));
}
pub mod testing {
	use super::*;
	pub type Header = generic::Header<u64, traits::BlakeTwo256>;
	pub use super::transaction_validity::*;
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo)]
	pub struct TestXt<Call, Extra> { pub signature: Option<(u64, Extra)>, pub call: Call }
	impl<Call, Extra> TestXt<Call, Extra> { pub fn new(call: Call, signature: Option<(u64, Extra)>) -> Self { TestXt { call, signature } } }
	impl<C, E> traits::Extrinsic for TestXt<C, E> { type Call = C; type SignaturePayload = (u64, E); fn is_signed(&self) -> Option<bool> { Some(self.signature.is_some()) } }
	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode)]
	pub struct MockCallU64(pub u64);
}
pub fn verify_encoded_lazy<V: traits::Verify, T: Encode>(s: &V, i: &T, who: &<V::Signer as traits::IdentifyAccount>::AccountId) -> bool { s.verify(&i.encode()[..], who) }
#[derive(Clone, Copy, Debug)]
pub enum ExtrinsicInclusionMode { AllExtrinsics, OnlyInherents }
#[allow(unused)]
fn _w(_: Weight) {}
