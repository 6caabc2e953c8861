//! Stand-in for `sp-rpc`.
pub mod number {
	/// A number as JSON carries it: plain where it fits in 64 bits.
	#[derive(Debug, PartialEq, Eq, Clone, Copy, serde::Serialize, serde::Deserialize)]
	#[serde(untagged)]
	pub enum NumberOrHex {
		Number(u64),
		Hex(u128),
	}
	impl Default for NumberOrHex {
		fn default() -> Self {
			NumberOrHex::Number(0)
		}
	}
	impl NumberOrHex {
		pub fn value(&self) -> u128 {
			match self {
				NumberOrHex::Number(n) => *n as u128,
				NumberOrHex::Hex(n) => *n,
			}
		}
	}
	impl TryFrom<u128> for NumberOrHex {
		type Error = ();
		fn try_from(n: u128) -> Result<Self, ()> {
			Ok(match u64::try_from(n) {
				Ok(n) => NumberOrHex::Number(n),
				Err(_) => NumberOrHex::Hex(n),
			})
		}
	}
	impl TryFrom<u64> for NumberOrHex {
		type Error = ();
		fn try_from(n: u64) -> Result<Self, ()> {
			Ok(NumberOrHex::Number(n))
		}
	}
}
