//! Stand-in for `hex`.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FromHexError { InvalidHexCharacter { c: char, index: usize }, OddLength, InvalidStringLength }
impl core::fmt::Display for FromHexError { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for FromHexError {}
fn val(c: u8, i: usize) -> Result<u8, FromHexError> {
	(c as char).to_digit(16).map(|x| x as u8).ok_or(FromHexError::InvalidHexCharacter { c: c as char, index: i })
}
pub fn decode<T: AsRef<[u8]>>(d: T) -> Result<Vec<u8>, FromHexError> {
	let d = d.as_ref();
	if d.len() % 2 != 0 { return Err(FromHexError::OddLength) }
	d.chunks(2).enumerate().map(|(i, p)| Ok(val(p[0], 2 * i)? << 4 | val(p[1], 2 * i + 1)?)).collect()
}
pub fn decode_to_slice<T: AsRef<[u8]>>(d: T, out: &mut [u8]) -> Result<(), FromHexError> {
	let v = decode(d)?;
	if v.len() != out.len() { return Err(FromHexError::InvalidStringLength) }
	out.copy_from_slice(&v);
	Ok(())
}
pub fn encode<T: AsRef<[u8]>>(d: T) -> String { d.as_ref().iter().map(|b| format!("{:02x}", b)).collect() }
pub fn encode_upper<T: AsRef<[u8]>>(d: T) -> String { d.as_ref().iter().map(|b| format!("{:02X}", b)).collect() }
