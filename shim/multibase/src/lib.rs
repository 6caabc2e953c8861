//! Stand-in for `multibase` (every base of the table but the emoji one).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Base {
	Identity, Base2, Base8, Base10, Base16Lower, Base16Upper, Base32Lower, Base32Upper, Base32PadLower, Base32PadUpper,
	Base32HexLower, Base32HexUpper, Base32HexPadLower, Base32HexPadUpper, Base32Z, Base36Lower, Base36Upper,
	Base58Flickr, Base58Btc, Base64, Base64Pad, Base64Url, Base64UrlPad,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error { UnknownBase(char), InvalidBaseString }
pub type Result<T> = core::result::Result<T, Error>;
use Base::*;
const TABLE: &[(Base, char, &str, u32, bool)] = &[
	(Base2, '0', "01", 1, false),
	(Base8, '7', "01234567", 3, false),
	(Base16Lower, 'f', "0123456789abcdef", 4, false),
	(Base16Upper, 'F', "0123456789ABCDEF", 4, false),
	(Base32Lower, 'b', "abcdefghijklmnopqrstuvwxyz234567", 5, false),
	(Base32Upper, 'B', "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, false),
	(Base32PadLower, 'c', "abcdefghijklmnopqrstuvwxyz234567", 5, true),
	(Base32PadUpper, 'C', "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, true),
	(Base32HexLower, 'v', "0123456789abcdefghijklmnopqrstuv", 5, false),
	(Base32HexUpper, 'V', "0123456789ABCDEFGHIJKLMNOPQRSTUV", 5, false),
	(Base32HexPadLower, 't', "0123456789abcdefghijklmnopqrstuv", 5, true),
	(Base32HexPadUpper, 'T', "0123456789ABCDEFGHIJKLMNOPQRSTUV", 5, true),
	(Base32Z, 'h', "ybndrfg8ejkmcpqxot1uwisza345h769", 5, false),
	(Base64, 'm', "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6, false),
	(Base64Pad, 'M', "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6, true),
	(Base64Url, 'u', "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 6, false),
	(Base64UrlPad, 'U', "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 6, true),
];
const RADIX: &[(Base, char, &str)] = &[
	(Base10, '9', "0123456789"),
	(Base36Lower, 'k', "0123456789abcdefghijklmnopqrstuvwxyz"),
	(Base36Upper, 'K', "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
	(Base58Flickr, 'Z', "123456789abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ"),
	(Base58Btc, 'z', "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"),
];
fn group(bits: u32) -> usize {
	match bits { 5 => 8, 6 => 4, 3 => 8, 4 => 2, _ => 8 }
}
impl Base {
	pub fn code(&self) -> char {
		if *self == Identity { return '\0' }
		TABLE.iter().find(|t| t.0 == *self).map(|t| t.1).or_else(|| RADIX.iter().find(|t| t.0 == *self).map(|t| t.1)).unwrap()
	}
	pub fn from_code(c: char) -> Result<Base> {
		if c == '\0' { return Ok(Identity) }
		TABLE.iter().find(|t| t.1 == c).map(|t| t.0).or_else(|| RADIX.iter().find(|t| t.1 == c).map(|t| t.0)).ok_or(Error::UnknownBase(c))
	}
	pub fn encode<I: AsRef<[u8]>>(&self, input: I) -> String {
		let b = input.as_ref();
		if *self == Identity { return String::from_utf8(b.to_vec()).expect("identity") }
		if let Some((_, _, abc, bits, pad)) = TABLE.iter().find(|t| t.0 == *self) {
			let abc: Vec<char> = abc.chars().collect();
			let (mut acc, mut n, mut out) = (0u32, 0, String::new());
			for x in b {
				acc = acc << 8 | *x as u32;
				n += 8;
				while n >= *bits {
					n -= bits;
					out.push(abc[(acc >> n) as usize & (abc.len() - 1)]);
				}
				acc &= (1 << n) - 1;
			}
			if n > 0 { out.push(abc[((acc << (bits - n)) as usize) & (abc.len() - 1)]) }
			while *pad && out.len() % group(*bits) != 0 { out.push('=') }
			return out;
		}
		let (_, _, abc) = RADIX.iter().find(|t| t.0 == *self).unwrap();
		let abc: Vec<char> = abc.chars().collect();
		let mut digits: Vec<u32> = vec![];
		for x in b {
			let mut carry = *x as u32;
			for d in digits.iter_mut() {
				carry += *d << 8;
				*d = carry % abc.len() as u32;
				carry /= abc.len() as u32;
			}
			while carry > 0 { digits.push(carry % abc.len() as u32); carry /= abc.len() as u32 }
		}
		let zeros = b.iter().take_while(|x| **x == 0).count();
		(0..zeros).map(|_| abc[0]).chain(digits.iter().rev().map(|d| abc[*d as usize])).collect()
	}
	pub fn decode<I: AsRef<str>>(&self, input: I) -> Result<Vec<u8>> {
		let s = input.as_ref();
		if *self == Identity { return Ok(s.as_bytes().to_vec()) }
		if let Some((_, _, abc, bits, pad)) = TABLE.iter().find(|t| t.0 == *self) {
			let mut body = s;
			if *pad {
				if s.chars().count() % group(*bits) != 0 { return Err(Error::InvalidBaseString) }
				body = s.trim_end_matches('=');
			}
			let (mut acc, mut n, mut out) = (0u32, 0, vec![]);
			for c in body.chars() {
				let v = abc.chars().position(|x| x == c).ok_or(Error::InvalidBaseString)? as u32;
				acc = acc << bits | v;
				n += bits;
				if n >= 8 {
					n -= 8;
					out.push((acc >> n) as u8);
					acc &= (1 << n) - 1;
				}
			}
			if n >= *bits || acc != 0 { return Err(Error::InvalidBaseString) }
			if *pad {
				let mut want = self.encode(&out);
				if out.is_empty() { want = String::new() }
				if want != s { return Err(Error::InvalidBaseString) }
			}
			return Ok(out);
		}
		let (_, _, abc) = RADIX.iter().find(|t| t.0 == *self).unwrap();
		let radix = abc.len() as u32;
		let mut bytes: Vec<u32> = vec![];
		for c in s.chars() {
			let mut carry = abc.chars().position(|x| x == c).ok_or(Error::InvalidBaseString)? as u32;
			for d in bytes.iter_mut() {
				carry += *d * radix;
				*d = carry & 255;
				carry >>= 8;
			}
			while carry > 0 { bytes.push(carry & 255); carry >>= 8 }
		}
		let zero = abc.chars().next().unwrap();
		let zeros = s.chars().take_while(|c| *c == zero).count();
		Ok((0..zeros).map(|_| 0).chain(bytes.iter().rev().map(|b| *b as u8)).collect())
	}
}
pub fn decode<T: AsRef<str>>(input: T) -> Result<(Base, Vec<u8>)> {
	let s = input.as_ref();
	let c = s.chars().next().ok_or(Error::InvalidBaseString)?;
	let b = Base::from_code(c)?;
	Ok((b, b.decode(&s[c.len_utf8()..])?))
}
pub fn encode<T: AsRef<[u8]>>(base: Base, input: T) -> String {
	let mut s = base.encode(input);
	s.insert(0, base.code());
	s
}
