//! Stand-in for `cid`: the binary form of content identifiers.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error { UnknownCodec, InputTooShort, ParsingError, InvalidCidVersion, InvalidCidV0Codec, InvalidCidV0Multihash, InvalidExplicitCidV0, VarIntDecodeError, Io }
impl core::fmt::Display for Error { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "{:?}", self) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Version { V0, V1 }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Cid { version: Version, codec: u64, hash_code: u64, digest: Vec<u8> }
fn byte<R: std::io::Read>(r: &mut R) -> Result<u8, Error> {
	let mut b = [0];
	r.read_exact(&mut b).map_err(|_| Error::VarIntDecodeError)?;
	Ok(b[0])
}
fn varint<R: std::io::Read>(r: &mut R) -> Result<u64, Error> {
	let mut v = 0u128;
	for i in 0..10 {
		let b = byte(r)?;
		v |= ((b & 0x7f) as u128) << (7 * i);
		if b & 0x80 == 0 {
			if b == 0 && i > 0 { return Err(Error::VarIntDecodeError) }
			return Ok(v as u64);
		}
	}
	Err(Error::VarIntDecodeError)
}
impl Cid {
	pub fn version(&self) -> Version { self.version }
	pub fn codec(&self) -> u64 { self.codec }
	pub fn read_bytes<R: std::io::Read>(mut r: R) -> Result<Cid, Error> {
		let version = varint(&mut r)?;
		let codec = varint(&mut r)?;
		if [version, codec] == [0x12, 0x20] {
			let mut digest = [0; 32];
			r.read_exact(&mut digest).map_err(|_| Error::Io)?;
			return Ok(Cid { version: Version::V0, codec: 0x70, hash_code: 0x12, digest: digest.to_vec() });
		}
		match version {
			0 => Err(Error::InvalidExplicitCidV0),
			1 => {
				let hash_code = varint(&mut r)?;
				let size = varint(&mut r)?;
				if size > 64 { return Err(Error::ParsingError) }
				let mut digest = vec![0; size as usize];
				r.read_exact(&mut digest).map_err(|_| Error::Io)?;
				Ok(Cid { version: Version::V1, codec, hash_code, digest })
			},
			_ => Err(Error::InvalidCidVersion),
		}
	}
	pub fn hash(&self) -> (u64, &[u8]) { (self.hash_code, &self.digest) }
}
impl TryFrom<&[u8]> for Cid {
	type Error = Error;
	fn try_from(b: &[u8]) -> Result<Cid, Error> { Cid::read_bytes(b) }
}
