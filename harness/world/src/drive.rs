//! Keys, transactions and state snapshots for the harnesses.
use super::*;

pub type Outcome = DispatchResultWithPostInfo;

#[derive(Clone)]
pub enum Pairs {
	Sr(sr25519::Pair),
	Ed(ed25519::Pair),
	Ec(ecdsa::Pair),
}
/// A key pair named by a small number; one in four is ed25519, one in four ecdsa.
#[derive(Clone)]
pub struct Key {
	pub n: u32,
	pub pair: Pairs,
	pub id: AccountId,
}
pub fn key(n: u32) -> Key {
	let mut seed = [7u8; 32];
	seed[..4].copy_from_slice(&n.to_le_bytes());
	match n % 4 {
		2 => {
			let p = ed25519::Pair::from_seed(&seed);
			let id = AccountId::new(p.public().0);
			Key { n, pair: Pairs::Ed(p), id }
		},
		3 => {
			let p = ecdsa::Pair::from_seed(&seed);
			let id = AccountId::from(p.public());
			Key { n, pair: Pairs::Ec(p.clone()), id }
		},
		_ => {
			let p = sr25519::Pair::from_seed(&seed);
			let id = AccountId::new(p.public().0);
			Key { n, pair: Pairs::Sr(p), id }
		},
	}
}
impl Key {
	/// Signature over exactly these bytes.
	pub fn sign_raw(&self, data: &[u8]) -> MultiSignature {
		match &self.pair {
			Pairs::Sr(p) => p.sign(data).into(),
			Pairs::Ed(p) => p.sign(data).into(),
			Pairs::Ec(p) => p.sign(data).into(),
		}
	}
	/// Signature the way wallets sign: over the bytes between `<Bytes>` and `</Bytes>`.
	pub fn sign(&self, data: &[u8]) -> MultiSignature {
		self.sign_raw(&wrapped(data))
	}
}
/// Independent statement of the wrapping wallets apply before they sign.
pub fn wrapped(data: &[u8]) -> Vec<u8> {
	[b"<Bytes>".as_slice(), data, b"</Bytes>"].concat()
}

/// The state of a fresh chain with these balances.
pub fn chain_storage(balances: &[(AccountId, Balance)]) -> sp_core::storage::Storage {
	let mut st = frame_system::GenesisConfig::<Runtime>::default().build_storage().expect("genesis");
	pallet_balances::GenesisConfig::<Runtime> { balances: balances.to_vec() }.assimilate_storage(&mut st).expect("genesis");
	st
}
/// Runs `f` on a fresh chain at block 1. The limits are reset first; `setup` may choose them.
pub fn chain<R>(balances: &[(AccountId, Balance)], f: impl FnOnce() -> R) -> R {
	let mut t: sp_io::TestExternalities = chain_storage(balances).into();
	t.execute_with(|| {
		set_block(1);
		f()
	})
}
pub fn set_block(n: u32) {
	System::set_block_number(n);
}
pub fn block() -> u32 {
	System::block_number()
}
/// Ends the current block and starts the next one: hooks of all pallets run, events are reset.
pub fn next_block() {
	use frame_support::traits::{OnFinalize, OnInitialize};
	let n = block();
	AllPalletsWithSystem::on_finalize(n);
	System::set_block_number(n + 1);
	System::reset_events();
	AllPalletsWithSystem::on_initialize(n + 1);
}
/// Jumps ahead without running the hooks of the skipped blocks (they only matter to capacity and messages).
pub fn skip_blocks(n: u32) {
	use frame_support::traits::{OnFinalize, OnInitialize};
	let b = block();
	AllPalletsWithSystem::on_finalize(b);
	System::set_block_number(b + n);
	System::reset_events();
	AllPalletsWithSystem::on_initialize(b + n);
}
/// Fingerprint of everything stored.
pub fn state() -> u64 {
	let mut h: u64 = 0xcbf29ce484222325;
	let mut eat = |b: &[u8]| {
		for c in b.chunks(8) {
			let mut w = [0u8; 8];
			w[..c.len()].copy_from_slice(c);
			h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
		}
		h = (h ^ b.len() as u64).wrapping_mul(0xD6E8FEB86659FD93).rotate_left(31);
	};
	for (c, k, v) in sp_io::storage::dump() {
		eat(&c);
		eat(&k);
		eat(&v);
	}
	h
}
/// The same without the accumulated events.
pub fn entries() -> Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> {
	sp_io::storage::dump()
}
/// Calls as this account, in the way a transaction's call is run (filter, storage layer).
pub fn call(who: &AccountId, c: impl Into<RuntimeCall>) -> Outcome {
	c.into().dispatch(RuntimeOrigin::signed(who.clone()))
}
pub fn call_root(c: impl Into<RuntimeCall>) -> Outcome {
	c.into().dispatch(RuntimeOrigin::root())
}
pub fn ok(o: &Outcome) -> bool {
	o.is_ok()
}
/// Name of the error of a refused call.
pub fn why(o: &Outcome) -> String {
	match o {
		Ok(_) => "accepted".into(),
		Err(e) => why_err(&e.error),
	}
}
pub fn why_err(e: &DispatchError) -> String {
	match e {
		DispatchError::Module(m) => format!("{}#{}", m.message.unwrap_or("?"), m.index),
		e => format!("{e:?}"),
	}
}
/// The events deposited since position `from`.
pub fn events_since(from: usize) -> Vec<RuntimeEvent> {
	System::events().into_iter().skip(from).map(|e| e.event).collect()
}
pub fn event_count() -> usize {
	System::events().len()
}

// ---- transactions ----------------------------------------------------------------------------
pub use testnet::SignedExtra;

/// The extra data of an immortal transaction with this nonce and no tip.
pub fn extra(nonce: u32) -> SignedExtra {
	extra_tip(nonce, 0)
}
pub fn extra_tip(nonce: u32, tip: Balance) -> SignedExtra {
	let mut b = vec![0u8];
	parity_scale_codec::Compact(nonce).encode_to(&mut b);
	parity_scale_codec::Compact(tip).encode_to(&mut b);
	SignedExtra::decode(&mut &b[..]).expect("extra data")
}
pub fn tx_len(c: &RuntimeCall) -> usize {
	c.encoded_size() + 110
}
/// What the transaction pool does: validation on a throw-away copy of the state.
pub fn pool(who: &AccountId, nonce: u32, c: &RuntimeCall) -> Result<ValidTransaction, TransactionValidityError> {
	let info = c.get_dispatch_info();
	frozen(|| extra(nonce).validate(who, c, &info, tx_len(c)))
}
/// Runs `f` and takes back everything it stored.
pub fn frozen<R>(f: impl FnOnce() -> R) -> R {
	sp_io::storage::start_transaction();
	let r = f();
	sp_io::storage::rollback_transaction();
	r
}
#[derive(Debug)]
pub enum Applied {
	/// Not includable in a block: it has no effect at all.
	Refused(TransactionValidityError),
	/// Included; its call succeeded or failed.
	Included(Outcome),
}
impl Applied {
	pub fn included(&self) -> bool {
		matches!(self, Applied::Included(_))
	}
	pub fn succeeded(&self) -> bool {
		matches!(self, Applied::Included(Ok(_)))
	}
}
/// Applies a signed transaction as the block executor does.
pub fn apply(who: &AccountId, nonce: u32, c: &RuntimeCall) -> Applied {
	apply_tip(who, nonce, 0, c)
}
pub fn apply_tip(who: &AccountId, nonce: u32, tip: Balance, c: &RuntimeCall) -> Applied {
	let info = c.get_dispatch_info();
	let len = tx_len(c);
	sp_io::storage::start_transaction();
	let pre = match extra_tip(nonce, tip).pre_dispatch(who, c, &info, len) {
		Ok(p) => p,
		Err(e) => {
			sp_io::storage::rollback_transaction();
			return Applied::Refused(e);
		},
	};
	let res = c.clone().dispatch(RuntimeOrigin::signed(who.clone()));
	let post = match &res {
		Ok(p) => *p,
		Err(e) => e.post_info,
	};
	if let Err(e) = <SignedExtra as SignedExtension>::post_dispatch(Some(pre), &info, &post, len, &res.map(|_| ()).map_err(|e| e.error)) {
		sp_io::storage::rollback_transaction();
		return Applied::Refused(e);
	}
	sp_io::storage::commit_transaction();
	Applied::Included(res)
}
/// Unsigned transactions: validation and application.
pub fn pool_unsigned(c: &RuntimeCall) -> Result<ValidTransaction, TransactionValidityError> {
	use sp_runtime::traits::ValidateUnsigned;
	let info = c.get_dispatch_info();
	frozen(|| {
		let a = Runtime::validate_unsigned(TransactionSource::External, c)?;
		let b = SignedExtra::validate_unsigned(c, &info, tx_len(c))?;
		Ok(a.combine_with(b))
	})
}
pub fn apply_unsigned(c: &RuntimeCall) -> Applied {
	use sp_runtime::traits::ValidateUnsigned;
	let info = c.get_dispatch_info();
	let len = tx_len(c);
	sp_io::storage::start_transaction();
	let pre = Runtime::pre_dispatch(c).and_then(|_| SignedExtra::pre_dispatch_unsigned(c, &info, len));
	if let Err(e) = pre {
		sp_io::storage::rollback_transaction();
		return Applied::Refused(e);
	}
	let res = c.clone().dispatch(RuntimeOrigin::none());
	let post = match &res {
		Ok(p) => *p,
		Err(e) => e.post_info,
	};
	if let Err(e) = <SignedExtra as SignedExtension>::post_dispatch(None, &info, &post, len, &res.map(|_| ()).map_err(|e| e.error)) {
		sp_io::storage::rollback_transaction();
		return Applied::Refused(e);
	}
	sp_io::storage::commit_transaction();
	Applied::Included(res)
}

/// Sometimes lets the next account get a number far from the latest one but equal to it in its low
/// bits, as on a chain with many accounts. Returns the last number given out so far.
pub fn scatter_accounts(g: &mut engine::Gen) -> u64 {
	if g.chance(1, 4) {
		let far = (1u64 << *g.pick(&[8u32, 16, 32, 40])) - 1;
		pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::mutate(|m| *m += far);
		g.label("accounts-far-apart");
	}
	pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::get()
}
/// The same for schemas.
pub fn scatter_schemas(g: &mut engine::Gen) -> u16 {
	let last = Schemas::get_current_schema_identifier_maximum();
	if last < 50_000 && g.chance(1, 4) {
		Schemas::set_schema_count(last + (1u16 << *g.pick(&[8u32, 12])) - 1);
		g.label("schemas-far-apart");
	}
	Schemas::get_current_schema_identifier_maximum()
}
