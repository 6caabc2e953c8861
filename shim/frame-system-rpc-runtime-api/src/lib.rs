//! Stand-in for `frame-system-rpc-runtime-api`.
sp_api::decl_runtime_apis! {
	/// The API to query account nonce.
	pub trait AccountNonceApi<AccountId, Nonce> where AccountId: parity_scale_codec::Codec, Nonce: parity_scale_codec::Codec {
		/// Get current account nonce of given `AccountId`.
		fn account_nonce(account: AccountId) -> Nonce;
	}
}
