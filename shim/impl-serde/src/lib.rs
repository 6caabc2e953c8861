//! Stand-in for `impl-serde`: bytes as 0x-prefixed hexadecimal text.
pub mod serialize {
	use serde::{de, Deserializer, Serializer};
	#[derive(Debug, PartialEq, Eq)]
	pub enum FromHexError { InvalidHex { character: char, index: usize } }
	impl std::error::Error for FromHexError {}
	impl std::fmt::Display for FromHexError {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			let FromHexError::InvalidHex { character, index } = self;
			write!(f, "invalid hex character: {}, at {}", character, index)
		}
	}
	pub fn to_hex(b: &[u8], skip_leading_zero: bool) -> String {
		let b = if skip_leading_zero { let n = b.iter().take_while(|x| **x == 0).count(); &b[n..] } else { b };
		if b.is_empty() { return "0x".into() }
		let h = hex::encode(b);
		format!("0x{}", if skip_leading_zero { h.trim_start_matches('0') } else { &h })
	}
	pub fn from_hex(v: &str) -> Result<Vec<u8>, FromHexError> {
		let v = v.strip_prefix("0x").unwrap_or(v);
		let digits: Vec<u8> = v
			.char_indices()
			.map(|(i, c)| c.to_digit(16).map(|d| d as u8).ok_or(FromHexError::InvalidHex { character: c, index: i }))
			.collect::<Result<_, _>>()?;
		let mut out = vec![];
		let odd = digits.len() % 2;
		if odd == 1 { out.push(digits[0]) }
		out.extend(digits[odd..].chunks(2).map(|p| p[0] << 4 | p[1]));
		Ok(out)
	}
	pub fn serialize<S: Serializer>(bytes: &[u8], s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&to_hex(bytes, false)) }
	pub fn serialize_uint<S: Serializer>(bytes: &[u8], s: S) -> Result<S::Ok, S::Error> {
		let n = bytes.iter().take_while(|b| **b == 0).count();
		if n == bytes.len() { s.serialize_str("0x0") } else { s.serialize_str(&to_hex(&bytes[n..], true)) }
	}
	pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
		struct V;
		impl<'b> de::Visitor<'b> for V {
			type Value = Vec<u8>;
			fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "a (both 0x-prefixed or not) hex string or byte array") }
			fn visit_str<E: de::Error>(self, v: &str) -> Result<Vec<u8>, E> { from_hex(v).map_err(E::custom) }
			fn visit_string<E: de::Error>(self, v: String) -> Result<Vec<u8>, E> { self.visit_str(&v) }
			fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Vec<u8>, E> { Ok(v.to_vec()) }
			fn visit_seq<A: de::SeqAccess<'b>>(self, mut s: A) -> Result<Vec<u8>, A::Error> {
				let mut b = vec![];
				while let Some(n) = s.next_element::<u8>()? { b.push(n) }
				Ok(b)
			}
			fn visit_newtype_struct<X: Deserializer<'b>>(self, d: X) -> Result<Vec<u8>, X::Error> { deserialize(d) }
		}
		d.deserialize_str(V)
	}
}
