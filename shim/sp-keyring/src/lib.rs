//! Stand-in for `sp-keyring`.
pub mod sr25519 {
	use shim_base::core::{sr25519::*, Pair as _, AccountId32};
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum Keyring { Alice, Bob, Charlie, Dave, Eve, Ferdie }
	impl Keyring {
		pub fn pair(self) -> Pair { Pair::from_string(&format!("//{self:?}"), None).unwrap() }
		pub fn public(self) -> Public { self.pair().public() }
		pub fn to_account_id(self) -> AccountId32 { self.public().into() }
		pub fn to_raw_public(self) -> [u8; 32] { self.public().0 }
		pub fn sign(self, m: &[u8]) -> Signature { self.pair().sign(m) }
	}
}
pub use sr25519::Keyring as Sr25519Keyring;
pub use sr25519::Keyring as AccountKeyring;
