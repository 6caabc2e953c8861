//! Stand-in for parity-scale-codec: the SCALE encoding, written from its specification.
pub use shim_macros::{CompactAs, Decode, Encode, MaxEncodedLen};
pub extern crate alloc;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

#[derive(PartialEq, Eq, Clone, Debug)]
pub struct Error {
	chain: Vec<Cow<'static, str>>,
}
impl Error {
	pub fn chain(mut self, d: impl Into<Cow<'static, str>>) -> Self {
		self.chain.push(d.into());
		self
	}
}
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		for c in self.chain.iter().rev() {
			write!(f, "{c} ")?;
		}
		Ok(())
	}
}
impl std::error::Error for Error {}
impl From<&'static str> for Error {
	fn from(s: &'static str) -> Error {
		Error { chain: vec![s.into()] }
	}
}

pub trait Input {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
	fn read_byte(&mut self) -> Result<u8, Error> {
		let mut b = [0];
		self.read(&mut b)?;
		Ok(b[0])
	}
	fn descend_ref(&mut self) -> Result<(), Error> {
		Ok(())
	}
	fn ascend_ref(&mut self) {}
}
impl<'a> Input for &'a [u8] {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(Some(self.len()))
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		if into.len() > self.len() {
			return Err("Not enough data to fill buffer".into());
		}
		let (a, b) = self.split_at(into.len());
		into.copy_from_slice(a);
		*self = b;
		Ok(())
	}
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		self.0.read_exact(into).map_err(|_| "io error".into())
	}
}
pub trait Output {
	fn write(&mut self, bytes: &[u8]);
	fn push_byte(&mut self, b: u8) {
		self.write(&[b]);
	}
}
impl<W: std::io::Write> Output for W {
	fn write(&mut self, bytes: &[u8]) {
		(self as &mut dyn std::io::Write).write_all(bytes).expect("codec outputs are infallible");
	}
}

pub trait Encode {
	fn size_hint(&self) -> usize {
		0
	}
	fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
		self.using_encoded(|b| dest.write(b));
	}
	fn encode(&self) -> Vec<u8> {
		let mut r = Vec::with_capacity(self.size_hint());
		self.encode_to(&mut r);
		r
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		f(&self.encode())
	}
	fn encoded_size(&self) -> usize {
		self.encode().len()
	}
}
pub trait Decode: Sized {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
	fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
		Self::decode(input).map(|_| ())
	}
	fn encoded_fixed_size() -> Option<usize> {
		None
	}
}
pub trait DecodeAll: Sized {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(input)?;
		if input.is_empty() {
			Ok(r)
		} else {
			Err("Input buffer has still data left after decoding!".into())
		}
	}
}
pub trait DecodeLimit: Sized {
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
	fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error>;
}
struct Depth<'a, I> {
	inner: &'a mut I,
	depth: u32,
	max: u32,
}
impl<I: Input> Input for Depth<'_, I> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		self.inner.remaining_len()
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		self.inner.read(into)
	}
	fn descend_ref(&mut self) -> Result<(), Error> {
		self.inner.descend_ref()?;
		self.depth += 1;
		if self.depth > self.max {
			Err("Maximum recursion depth reached when decoding".into())
		} else {
			Ok(())
		}
	}
	fn ascend_ref(&mut self) {
		self.inner.ascend_ref();
		self.depth -= 1;
	}
}
impl<T: Decode> DecodeLimit for T {
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(&mut Depth { inner: input, depth: 0, max: limit })?;
		if input.is_empty() {
			Ok(r)
		} else {
			Err("Input buffer has still data left after decoding!".into())
		}
	}
	fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error> {
		// one level only: nesting limits inside of limits is not needed
		T::decode(&mut Depth { inner: input, depth: 0, max: limit })
	}
}
pub trait Codec: Decode + Encode {}
impl<S: Encode + Decode> Codec for S {}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
pub trait FullEncode: Encode + EncodeLike {}
impl<T: Encode + EncodeLike> FullEncode for T {}
pub trait FullCodec: Decode + FullEncode {}
impl<T: Decode + FullEncode> FullCodec for T {}
pub trait WrapperTypeEncode: std::ops::Deref {}
impl<T, X> Encode for X
where
	T: Encode + ?Sized,
	X: WrapperTypeEncode<Target = T>,
{
	fn size_hint(&self) -> usize {
		(**self).size_hint()
	}
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		(**self).encode_to(dest)
	}
	fn encode(&self) -> Vec<u8> {
		(**self).encode()
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		(**self).using_encoded(f)
	}
}
impl<T: ?Sized> WrapperTypeEncode for Box<T> {}
impl<T: ?Sized + Encode> EncodeLike for Box<T> {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: ?Sized> WrapperTypeEncode for &T {}
impl<T: ?Sized + Encode> EncodeLike for &T {}
impl<T: Encode> EncodeLike<T> for &T {}
impl<T: Encode> EncodeLike<T> for &&T {}
impl<T: ?Sized> WrapperTypeEncode for &mut T {}
impl<T: ?Sized + Encode> EncodeLike for &mut T {}
impl<T: Encode> EncodeLike<T> for &mut T {}
impl<T: ?Sized> WrapperTypeEncode for Rc<T> {}
impl<T: ?Sized> WrapperTypeEncode for Arc<T> {}
impl WrapperTypeEncode for String {}
impl EncodeLike for String {}
impl EncodeLike<&str> for String {}
impl EncodeLike<String> for &str {}
impl<T> WrapperTypeEncode for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<&[U]> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}
impl<'a, T: ToOwned + ?Sized> WrapperTypeEncode for Cow<'a, T> {}
impl<'a, T: ToOwned + Encode + ?Sized> EncodeLike for Cow<'a, T> {}

pub fn encode_slice_no_len<T: Encode, W: Output + ?Sized>(s: &[T], dest: &mut W) {
	for x in s {
		x.encode_to(dest);
	}
}
impl<T: Encode> Encode for [T] {
	fn size_hint(&self) -> usize {
		4 + std::mem::size_of_val(self)
	}
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		compact_encode(self.len() as u128, dest);
		encode_slice_no_len(self, dest);
	}
}
impl Encode for str {
	fn size_hint(&self) -> usize {
		4 + self.len()
	}
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		self.as_bytes().encode_to(dest);
	}
}
fn decode_len<I: Input>(input: &mut I) -> Result<usize, Error> {
	Ok(<Compact<u32>>::decode(input)?.0 as usize)
}
fn decode_many<T: Decode, I: Input>(input: &mut I, n: usize) -> Result<Vec<T>, Error> {
	let cap = match input.remaining_len()? {
		Some(l) => n.min(l),
		None => n.min(1024),
	};
	let mut v = Vec::with_capacity(cap);
	input.descend_ref()?;
	for _ in 0..n {
		v.push(T::decode(input)?);
	}
	input.ascend_ref();
	Ok(v)
}
impl<T: Decode> Decode for Vec<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let n = decode_len(input)?;
		decode_many(input, n)
	}
}
impl Decode for String {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		String::from_utf8(Vec::decode(input)?).map_err(|_| "Invalid utf8 sequence".into())
	}
}
impl<'a, T: ToOwned + ?Sized> Decode for Cow<'a, T>
where
	<T as ToOwned>::Owned: Decode,
{
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(Cow::Owned(Decode::decode(input)?))
	}
}
impl<T: Decode> Decode for Box<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		input.descend_ref()?;
		let r = Box::new(T::decode(input)?);
		input.ascend_ref();
		Ok(r)
	}
}
impl<T: Decode> Decode for Rc<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(Rc::new(T::decode(input)?))
	}
}
impl<T: Decode> Decode for Arc<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(Arc::new(T::decode(input)?))
	}
}
impl<T: Encode, const N: usize> Encode for [T; N] {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		encode_slice_no_len(self, dest);
	}
}
impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: Decode, const N: usize> Decode for [T; N] {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let v: Vec<T> = decode_many(input, N)?;
		v.try_into().map_err(|_| "array".into())
	}
}
macro_rules! collections {
	($($c:ident [$($b:tt)*]),*) => {$(
		impl<T: Encode $($b)*> Encode for $c<T> {
			fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
				compact_encode(self.len() as u128, dest);
				for x in self.iter() { x.encode_to(dest); }
			}
		}
		impl<T: Encode $($b)*> EncodeLike for $c<T> {}
		impl<T: Decode $($b)*> Decode for $c<T> {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
				let n = decode_len(input)?;
				Ok(decode_many::<T, I>(input, n)?.into_iter().collect())
			}
		}
	)*};
}
collections!(VecDeque [], BTreeSet [+ Ord], LinkedList [], BinaryHeap [+ Ord]);
impl<K: Encode + Ord, V: Encode> Encode for BTreeMap<K, V> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		compact_encode(self.len() as u128, dest);
		for (k, v) in self {
			k.encode_to(dest);
			v.encode_to(dest);
		}
	}
}
impl<K: Encode + Ord, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let n = decode_len(input)?;
		Ok(decode_many::<(K, V), I>(input, n)?.into_iter().collect())
	}
}
macro_rules! ints {
	($($t:ty),*) => {$(
		impl Encode for $t {
			fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
			fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { dest.write(&self.to_le_bytes()); }
			fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.to_le_bytes()) }
		}
		impl EncodeLike for $t {}
		impl Decode for $t {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
				let mut b = [0u8; std::mem::size_of::<$t>()];
				input.read(&mut b)?;
				Ok(<$t>::from_le_bytes(b))
			}
			fn encoded_fixed_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) }
		}
		impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { std::mem::size_of::<$t>() } }
	)*};
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl Encode for bool {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		dest.push_byte(*self as u8);
	}
}
impl EncodeLike for bool {}
impl Decode for bool {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err("Invalid boolean representation".into()),
		}
	}
}
impl MaxEncodedLen for bool {
	fn max_encoded_len() -> usize {
		1
	}
}
impl<T: Encode> Encode for Option<T> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		match self {
			None => dest.push_byte(0),
			Some(x) => {
				dest.push_byte(1);
				x.encode_to(dest);
			},
		}
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: Decode> Decode for Option<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(None),
			1 => Ok(Some(T::decode(input)?)),
			_ => Err("unexpected first byte decoding Option".into()),
		}
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().saturating_add(1)
	}
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		match self {
			Ok(x) => {
				dest.push_byte(0);
				x.encode_to(dest);
			},
			Err(x) => {
				dest.push_byte(1);
				x.encode_to(dest);
			},
		}
	}
}
impl<T: EncodeLike<A>, A: Encode, E: EncodeLike<B>, B: Encode> EncodeLike<Result<A, B>> for Result<T, E> {}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(Ok(T::decode(input)?)),
			1 => Ok(Err(E::decode(input)?)),
			_ => Err("unexpected first byte decoding Result".into()),
		}
	}
}
impl<T: MaxEncodedLen, E: MaxEncodedLen> MaxEncodedLen for Result<T, E> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().max(E::max_encoded_len()).saturating_add(1)
	}
}
impl<T> Encode for PhantomData<T> {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl<T> EncodeLike for PhantomData<T> {}
impl<T> Decode for PhantomData<T> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(PhantomData)
	}
}
impl<T> MaxEncodedLen for PhantomData<T> {
	fn max_encoded_len() -> usize {
		0
	}
}
impl Encode for () {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		f(&[])
	}
}
impl EncodeLike for () {}
impl Decode for () {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(())
	}
}
impl MaxEncodedLen for () {
	fn max_encoded_len() -> usize {
		0
	}
}
macro_rules! tuples {
	($(($($a:ident $b:ident $n:tt),+))*) => {$(
		impl<$($a: Encode),+> Encode for ($($a,)+) {
			fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { $(self.$n.encode_to(dest);)+ }
		}
		impl<$($a: EncodeLike<$b>, $b: Encode),+> EncodeLike<($($b,)+)> for ($($a,)+) {}
		impl<$($a: Decode),+> Decode for ($($a,)+) {
			fn decode<I_: Input>(input: &mut I_) -> Result<Self, Error> { Ok(($($a::decode(input)?,)+)) }
		}
		impl<$($a: MaxEncodedLen),+> MaxEncodedLen for ($($a,)+) {
			fn max_encoded_len() -> usize { 0usize $(.saturating_add($a::max_encoded_len()))+ }
		}
	)*};
}
tuples! {
	(A A1 0) (A A1 0, B B1 1) (A A1 0, B B1 1, C C1 2) (A A1 0, B B1 1, C C1 2, D D1 3) (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5) (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7) (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, I I1 8)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, I I1 8, J J1 9)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, I I1 8, J J1 9, K K1 10)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, I I1 8, J J1 9, K K1 10, L L1 11)
}

// ------------------------------------------------------------------ compact
#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd, Debug, Default)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> {
	fn from(x: T) -> Self {
		Compact(x)
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd)]
pub struct CompactRef<'a, T>(pub &'a T);
impl<'a, T> From<&'a T> for CompactRef<'a, T> {
	fn from(x: &'a T) -> Self {
		CompactRef(x)
	}
}
pub fn compact_encode<W: Output + ?Sized>(v: u128, dest: &mut W) {
	if v < 1 << 6 {
		dest.push_byte((v as u8) << 2);
	} else if v < 1 << 14 {
		dest.write(&(((v as u16) << 2) | 1).to_le_bytes());
	} else if v < 1 << 30 {
		dest.write(&(((v as u32) << 2) | 2).to_le_bytes());
	} else {
		let n = ((128 - v.leading_zeros() + 7) / 8).max(4) as usize;
		dest.push_byte(3 + ((n as u8 - 4) << 2));
		dest.write(&v.to_le_bytes()[..n]);
	}
}
fn compact_decode<I: Input>(input: &mut I, bits: u32) -> Result<u128, Error> {
	let oor = || -> Error { "out of range decoding Compact".into() };
	let p = input.read_byte()?;
	let v = match p & 3 {
		0 => return Ok((p >> 2) as u128),
		1 => {
			let b = input.read_byte()?;
			if bits == 8 && b & !3 != 0 {
				return Err(oor());
			}
			let v = (u16::from_le_bytes([p, b]) >> 2) as u128;
			if v < 1 << 6 {
				return Err(oor());
			}
			v
		},
		2 => {
			let mut b = [p, 0, 0, 0];
			input.read(&mut b[1..])?;
			let v = (u32::from_le_bytes(b) >> 2) as u128;
			if v < 1 << 14 {
				return Err(oor());
			}
			v
		},
		_ => {
			let n = (p >> 2) as usize + 4;
			if n > 16 {
				return Err(oor());
			}
			let mut b = [0u8; 16];
			input.read(&mut b[..n])?;
			let v = u128::from_le_bytes(b);
			let least = if n == 4 { 1u128 << 30 } else { 1u128 << (8 * (n - 1)) };
			if v < least {
				return Err(oor());
			}
			v
		},
	};
	if bits < 128 && v >> bits != 0 {
		return Err(oor());
	}
	Ok(v)
}
pub trait CompactAs: From<Compact<Self>> {
	type As;
	fn encode_as(&self) -> &Self::As;
	fn decode_from(_: Self::As) -> Result<Self, Error>;
}
pub trait HasCompact: Sized {
	type Type: for<'a> EncodeAsRef<'a, Self> + Decode + From<Self> + Into<Self>;
}
pub trait EncodeAsRef<'a, T: 'a> {
	type RefType: Encode + From<&'a T>;
}
impl<'a, T: 'a> EncodeAsRef<'a, T> for Compact<T>
where
	CompactRef<'a, T>: Encode + From<&'a T>,
{
	type RefType = CompactRef<'a, T>;
}
impl<T: 'static> HasCompact for T
where
	Compact<T>: for<'a> EncodeAsRef<'a, T> + Decode + From<Self> + Into<Self>,
{
	type Type = Compact<T>;
}
macro_rules! compacts {
	($($t:ty),*) => {$(
		impl From<Compact<$t>> for $t { fn from(x: Compact<$t>) -> $t { x.0 } }
		impl<'a> Encode for CompactRef<'a, $t> { fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { compact_encode(*self.0 as u128, dest) } }
		impl Encode for Compact<$t> { fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { compact_encode(self.0 as u128, dest) } }
		impl EncodeLike for Compact<$t> {}
		impl Decode for Compact<$t> { fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { Ok(Compact(compact_decode(input, <$t>::BITS)? as $t)) } }
		impl MaxEncodedLen for Compact<$t> { fn max_encoded_len() -> usize { let n = std::mem::size_of::<$t>(); if n <= 2 { n * 2 } else { n + 1 } } }
	)*};
}
compacts!(u8, u16, u32, u64, u128);
impl<'a> Encode for CompactRef<'a, ()> {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl From<Compact<()>> for () {
	fn from(_: Compact<()>) {}
}
impl Encode for Compact<()> {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl Decode for Compact<()> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(Compact(()))
	}
}

// ------------------------------------------------------------------ bounds on the length
pub trait MaxEncodedLen: Encode {
	fn max_encoded_len() -> usize;
}
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().saturating_mul(N)
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Box<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len()
	}
}
pub trait ConstEncodedLen: MaxEncodedLen {}

pub trait DecodeLength {
	fn len(self_encoded: &[u8]) -> Result<usize, Error>;
}
impl<T> DecodeLength for Vec<T> {
	fn len(mut e: &[u8]) -> Result<usize, Error> {
		decode_len(&mut e)
	}
}
pub trait EncodeAppend {
	type Item: Encode;
	fn append_or_new<E: EncodeLike<Self::Item>, I: IntoIterator<Item = E>>(encoded: Vec<u8>, iter: I) -> Result<Vec<u8>, Error>;
}
impl<T: Encode> EncodeAppend for Vec<T> {
	type Item = T;
	fn append_or_new<E: EncodeLike<T>, I: IntoIterator<Item = E>>(encoded: Vec<u8>, iter: I) -> Result<Vec<u8>, Error> {
		let items: Vec<Vec<u8>> = iter.into_iter().map(|x| x.encode()).collect();
		let (n, rest) = if encoded.is_empty() {
			(0, &encoded[..])
		} else {
			let mut s = &encoded[..];
			let n = decode_len(&mut s)?;
			(n, s)
		};
		let mut out = vec![];
		compact_encode((n + items.len()) as u128, &mut out);
		out.extend_from_slice(rest);
		for i in items {
			out.extend(i);
		}
		Ok(out)
	}
}
pub trait Joiner {
	fn and<V: Encode + ?Sized>(self, value: &V) -> Self;
}
impl Joiner for Vec<u8> {
	fn and<V: Encode + ?Sized>(mut self, value: &V) -> Self {
		value.encode_to(&mut self);
		self
	}
}
pub trait KeyedVec {
	fn to_keyed_vec(&self, prepend: &[u8]) -> Vec<u8>;
}
impl<T: Encode> KeyedVec for T {
	fn to_keyed_vec(&self, prepend: &[u8]) -> Vec<u8> {
		let mut v = prepend.to_vec();
		self.encode_to(&mut v);
		v
	}
}
#[derive(PartialEq, Eq, Clone, Debug)]
pub struct OptionBool(pub Option<bool>);
