From 1218c5f376002e5114d4ae1ff100a3e27ba68cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 01/20] fix: handle suffix generator overflows for ranges
 ending at u16::MAX

---
 pallets/handles/src/handles-utils/src/suffix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/handles/src/handles-utils/src/suffix.rs b/pallets/handles/src/handles-utils/src/suffix.rs
index 2a1f674..765fbd1 100644
--- a/pallets/handles/src/handles-utils/src/suffix.rs
+++ b/pallets/handles/src/handles-utils/src/suffix.rs
@@ -37,7 +37,7 @@ pub fn generate_unique_suffixes(
 
 	let mut indices: Vec<u16> = (min..=max).collect();
 	(min..=max).rev().map(move |i| {
-		let j = rng.rand_range((min as u32)..(i + 1) as u32) as u16;
+		let j = rng.rand_range((min as u32)..(i as u32 + 1)) as u16;
 		indices.swap((i - min) as usize, (j - min) as usize);
 		indices[(i - min) as usize]
 	})
-- 
2.43.0


From 722a49cb64ebf63675f4628712c0c5fde3d48341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 02/20] fix: characters outside of the basic plane are never
 supported handle characters

---
 pallets/handles/src/handles-utils/build.rs         | 5 ++++-
 pallets/handles/src/handles-utils/src/validator.rs | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pallets/handles/src/handles-utils/build.rs b/pallets/handles/src/handles-utils/build.rs
index 637081c..3136dde 100644
--- a/pallets/handles/src/handles-utils/build.rs
+++ b/pallets/handles/src/handles-utils/build.rs
@@ -9,7 +9,10 @@ mod constants;
 use constants::ALLOWED_UNICODE_CHARACTER_RANGES;
 
 fn allowed_char(c: char) -> bool {
-	ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&(c as u16)))
+	// Characters outside of the basic multilingual plane are never in an allowed range
+	u16::try_from(u32::from(c)).map_or(false, |code| {
+		ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&code))
+	})
 }
 
 #[allow(clippy::unwrap_used)]
diff --git a/pallets/handles/src/handles-utils/src/validator.rs b/pallets/handles/src/handles-utils/src/validator.rs
index 7e371d6..2a30c96 100644
--- a/pallets/handles/src/handles-utils/src/validator.rs
+++ b/pallets/handles/src/handles-utils/src/validator.rs
@@ -62,7 +62,10 @@ pub fn contains_blocked_characters(input_str: &str) -> bool {
 ///
 /// A boolean value indicating whether the string contains characters within the allowed unicode character sets (`true`) or not (`false`).
 pub fn consists_of_supported_unicode_character_sets(input_str: &str) -> bool {
-	input_str
-		.chars()
-		.all(|c| ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&(c as u16))))
+	input_str.chars().all(|c| {
+		// Characters outside of the basic multilingual plane are never in an allowed range
+		u16::try_from(u32::from(c)).map_or(false, |code| {
+			ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&code))
+		})
+	})
 }
-- 
2.43.0


From ceb03590a78d8f85b017ad4c1c0ee8568f9103ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:54 +0000
Subject: [PATCH 03/20] fix: handles whose canonical form exceeds the storage
 key are refused

---
 pallets/handles/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 9542b23..6055d33 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -696,6 +696,13 @@ pub mod pallet {
 				len >= HANDLE_CHARS_MIN && len <= HANDLE_CHARS_MAX,
 				Error::<T>::InvalidHandleCharacterLength
 			);
+
+			// Validation: the canonical form must fit its storage key. It may take more bytes than the
+			// base handle, for example when Hangul syllables are decomposed
+			ensure!(
+				canonical_handle_str.len() as u32 <= HANDLE_BYTES_MAX,
+				Error::<T>::InvalidHandleByteLength
+			);
 			Ok(())
 		}
 
-- 
2.43.0


From f7cae92852cc820d304a94b76f11202262fb5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 04/20] fix: a delegation revoked in this block does not pass
 the free revocation check again

---
 pallets/msa/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 4e91298..270fbc4 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -1643,8 +1643,14 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 			.into();
 		let provider_msa_id = ProviderId(*provider_msa_id);
 
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		let delegation =
+			Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+				.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// A delegation revoked in this block is valid until its end, but cannot be revoked again
+		ensure!(
+			delegation.revoked_at == BlockNumberFor::<T>::zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
@@ -1670,8 +1676,14 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 		let delegator_msa_id = DelegatorId(*delegator_msa_id);
 
 		// Verify the delegation exists and is active
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		let delegation =
+			Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+				.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// A delegation revoked in this block is valid until its end, but cannot be revoked again
+		ensure!(
+			delegation.revoked_at == BlockNumberFor::<T>::zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
-- 
2.43.0


From 3f73167b305ddd50be971c602a7f31976f7728fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 05/20] fix: a key is deleted only from the account it belongs
 to

---
 pallets/msa/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 270fbc4..a1ae13f 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -1259,6 +1259,7 @@ impl<T: Config> Pallet<T> {
 	pub fn delete_key_for_msa(msa_id: MessageSourceId, key: &T::AccountId) -> DispatchResult {
 		PublicKeyToMsaId::<T>::try_mutate_exists(key, |maybe_msa_id| {
 			ensure!(maybe_msa_id.is_some(), Error::<T>::NoKeyExists);
+			ensure!(*maybe_msa_id == Some(msa_id), Error::<T>::NotMsaOwner);
 
 			// Delete the key if it exists
 			*maybe_msa_id = None;
-- 
2.43.0


From ba9ad131cc90de9862091496f48061bfd0e4e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 06/20] fix: re-granting or revoking twice does not extend a
 schema permission that already ended

---
 pallets/msa/src/lib.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index a1ae13f..08d4263 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -978,6 +978,18 @@ impl<T: Config> Pallet<T> {
 		})
 	}
 
+	/// The block at which a schema permission that is revoked now ends: the current block, or the block
+	/// at which the whole delegation was revoked if that has happened
+	fn schema_revocation_block(
+		delegation: &Delegation<SchemaId, BlockNumberFor<T>, T::MaxSchemaGrantsPerDelegation>,
+	) -> BlockNumberFor<T> {
+		if delegation.revoked_at == BlockNumberFor::<T>::zero() {
+			frame_system::Pallet::<T>::block_number()
+		} else {
+			delegation.revoked_at
+		}
+	}
+
 	/// Revokes a list of schema permissions from a delegation relationship.
 	pub fn revoke_permissions_for_schemas(
 		delegator_id: DelegatorId,
@@ -988,12 +1000,21 @@ impl<T: Config> Pallet<T> {
 			ensure!(!is_new_delegation, Error::<T>::DelegationNotFound);
 			Self::ensure_all_schema_ids_are_valid(&schema_ids)?;
 
-			let current_block = frame_system::Pallet::<T>::block_number();
+			let revoked_at = Self::schema_revocation_block(delegation);
+
+			// A schema that is already revoked keeps the block it was revoked at
+			let schema_ids = schema_ids
+				.into_iter()
+				.filter(|id| {
+					delegation
+						.schema_permissions
+						.get(id)
+						.map_or(true, |block| *block == BlockNumberFor::<T>::zero())
+				})
+				.collect();
 
 			PermittedDelegationSchemas::<T>::try_get_mut_schemas(
-				delegation,
-				schema_ids,
-				current_block,
+				delegation, schema_ids, revoked_at,
 			)?;
 
 			Ok(())
@@ -1170,13 +1191,11 @@ impl<T: Config> Pallet<T> {
 				}
 			}
 
-			let current_block = frame_system::Pallet::<T>::block_number();
+			let revoked_at = Self::schema_revocation_block(delegation);
 
 			// Revoke any that are not in the new list that are not already revoked
 			PermittedDelegationSchemas::<T>::try_get_mut_schemas(
-				delegation,
-				revoke_ids,
-				current_block,
+				delegation, revoke_ids, revoked_at,
 			)?;
 
 			// Update any that are in the list but are not new
-- 
2.43.0


From 95dc0f0b50f90a8e55d95566c5472bd0457f5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:51 +0000
Subject: [PATCH 07/20] fix: a schema named by governance is marked as named
 and cannot get a second name

---
 pallets/schemas/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index a6d7b51..23be52f 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -641,6 +641,11 @@ pub mod pallet {
 				&parsed_name.descriptor,
 				|schema_version_id| -> DispatchResult {
 					schema_version_id.add::<T>(schema_id)?;
+					SchemaInfos::<T>::mutate(schema_id, |info| {
+						if let Some(info) = info {
+							info.has_name = true;
+						}
+					});
 
 					Self::deposit_event(Event::SchemaNameCreated {
 						schema_id,
-- 
2.43.0


From 4f8909f78d6ff7c2ba5cb27a682500afcd79d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 08/20] fix: a content address with trailing bytes or wrapping
 a v0 identifier is refused

---
 pallets/messages/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pallets/messages/src/lib.rs b/pallets/messages/src/lib.rs
index b8ee6b6..bed556a 100644
--- a/pallets/messages/src/lib.rs
+++ b/pallets/messages/src/lib.rs
@@ -52,7 +52,7 @@ pub use pallet::*;
 pub use types::*;
 pub use weights::*;
 
-use cid::Cid;
+use cid::{Cid, Version};
 use frame_system::pallet_prelude::*;
 
 const LOG_TARGET: &str = "runtime::messages";
@@ -383,7 +383,11 @@ impl<T: Config> Pallet<T> {
 
 		// Assume it's a multibase-encoded string. Decode it to a byte array so we can parse the CID.
 		let cid_b = multibase::decode(cid_str).map_err(|_| Error::<T>::InvalidCid)?.1;
-		ensure!(Cid::read_bytes(&cid_b[..]).is_ok(), Error::<T>::InvalidCid);
+		let mut rest = &cid_b[..];
+		let cid = Cid::read_bytes(&mut rest).map_err(|_| Error::<T>::InvalidCid)?;
+		// the bytes are exactly one identifier, and not a v0 one in another encoding
+		ensure!(rest.is_empty(), Error::<T>::InvalidCid);
+		ensure!(cid.version() != Version::V0, Error::<T>::UnsupportedCidVersion);
 
 		Ok(cid_b)
 	}
-- 
2.43.0


From 601f64121f9181b28087812b7d8798aaeb25696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 09/20] fix: a batch is allowed only if every one of its calls
 is allowed

---
 runtime/frequency/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/frequency/src/lib.rs b/runtime/frequency/src/lib.rs
index 7f77095..f4e837e 100644
--- a/runtime/frequency/src/lib.rs
+++ b/runtime/frequency/src/lib.rs
@@ -168,7 +168,7 @@ impl BaseCallFilter {
 		match call {
 			pallet_utility::Call::batch { calls, .. } |
 			pallet_utility::Call::batch_all { calls, .. } |
-			pallet_utility::Call::force_batch { calls, .. } => calls.iter().any(Self::is_batch_call_allowed),
+			pallet_utility::Call::force_batch { calls, .. } => calls.iter().all(Self::is_batch_call_allowed),
 			_ => true,
 		}
 	}
-- 
2.43.0


From 08497274b145ec13309b55b5f297dc992151be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 10/20] fix: the non-transfer proxy kind is not declared to
 include cancel-proxy

---
 runtime/frequency/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/frequency/src/lib.rs b/runtime/frequency/src/lib.rs
index f4e837e..b1b2b59 100644
--- a/runtime/frequency/src/lib.rs
+++ b/runtime/frequency/src/lib.rs
@@ -263,6 +263,8 @@ impl InstanceFilter<RuntimeCall> for ProxyType {
 			(x, y) if x == y => true,
 			(ProxyType::Any, _) => true,
 			(_, ProxyType::Any) => false,
+			// NonTransfer does not permit the `reject_announcement` of CancelProxy
+			(ProxyType::NonTransfer, ProxyType::CancelProxy) => false,
 			(ProxyType::NonTransfer, _) => true,
 			_ => false,
 		}
-- 
2.43.0


From 408e5ad98b7b1102697bc43f1c385733d96f06af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:54 +0000
Subject: [PATCH 11/20] fix: parsing a page of fewer than two bytes is refused
 instead of panicking

---
 pallets/stateful-storage/src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pallets/stateful-storage/src/types.rs b/pallets/stateful-storage/src/types.rs
index 1570202..ba4f4d2 100644
--- a/pallets/stateful-storage/src/types.rs
+++ b/pallets/stateful-storage/src/types.rs
@@ -301,10 +301,10 @@ impl<PageDataSize: Get<u32>> TryFrom<Vec<u8>> for Page<PageDataSize> {
 	type Error = ();
 
 	fn try_from(data: Vec<u8>) -> Result<Self, Self::Error> {
-		let nonce: PageNonce =
-			PageNonce::decode(&mut &data[..PageNonce::max_encoded_len()]).map_err(|_| ())?;
+		let mut input = &data[..];
+		let nonce: PageNonce = PageNonce::decode(&mut input).map_err(|_| ())?;
 		let bounded: BoundedVec<u8, PageDataSize> =
-			BoundedVec::try_from(data[PageNonce::max_encoded_len()..].to_vec()).map_err(|_| ())?;
+			BoundedVec::try_from(input.to_vec()).map_err(|_| ())?;
 		Ok(Self { nonce, data: bounded })
 	}
 }
-- 
2.43.0


From 764d1866b8e383d0e83e84e0ddf78ecc6bbccd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:50 +0000
Subject: [PATCH 12/20] fix: tokens that are already staked or unlocking cannot
 be staked a second time

---
 pallets/capacity/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 5b6b696..9fc3df6 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -560,8 +560,13 @@ impl<T: Config> Pallet<T> {
 		proposed_amount: BalanceOf<T>,
 	) -> BalanceOf<T> {
 		let account_balance = T::Currency::balance(&staker);
+		// tokens that are already staked or unlocking cannot be staked a second time
+		let active = Self::get_staking_account_for(staker).unwrap_or_default().active;
+		let unlocks = Self::get_unstake_unlocking_for(staker).unwrap_or_default();
 		account_balance
 			.saturating_sub(T::MinimumTokenBalance::get())
+			.saturating_sub(active)
+			.saturating_sub(unlock_chunks_total::<T>(&unlocks))
 			.min(proposed_amount)
 	}
 
-- 
2.43.0


From 61708ec7a2472a09220b24516d2e53726760c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:51 +0000
Subject: [PATCH 13/20] fix: unstaking takes no more than what is staked to the
 target

---
 pallets/capacity/src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 9fc3df6..fddc4c9 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -382,7 +382,8 @@ pub mod pallet {
 
 			ensure!(requested_amount > Zero::zero(), Error::<T>::UnstakedAmountIsZero);
 
-			let actual_amount = Self::decrease_active_staking_balance(&unstaker, requested_amount)?;
+			let actual_amount =
+				Self::decrease_active_staking_balance(&unstaker, target, requested_amount)?;
 			Self::add_unlock_chunk(&unstaker, actual_amount)?;
 
 			let capacity_reduction = Self::reduce_capacity(&unstaker, target, actual_amount)?;
@@ -524,13 +525,24 @@ impl<T: Config> Pallet<T> {
 	/// Decrease a staking account's active token.
 	fn decrease_active_staking_balance(
 		unstaker: &T::AccountId,
+		target: MessageSourceId,
 		amount: BalanceOf<T>,
 	) -> Result<BalanceOf<T>, DispatchError> {
 		let mut staking_account =
 			Self::get_staking_account_for(unstaker).ok_or(Error::<T>::NotAStakingAccount)?;
 		ensure!(amount <= staking_account.active, Error::<T>::AmountToUnstakeExceedsAmountStaked);
-
-		let actual_unstaked_amount = staking_account.withdraw(amount)?;
+		let staked_to_target = Self::get_target_for(unstaker, target)
+			.ok_or(Error::<T>::StakerTargetRelationshipNotFound)?
+			.amount;
+		ensure!(amount <= staked_to_target, Error::<T>::AmountToUnstakeExceedsAmountStaked);
+
+		let active = staking_account.active;
+		let mut actual_unstaked_amount = staking_account.withdraw(amount)?;
+		if actual_unstaked_amount > staked_to_target {
+			// the rest of the active stake is staked to other targets
+			actual_unstaked_amount = staked_to_target;
+			staking_account.active = active.saturating_sub(staked_to_target);
+		}
 		Self::set_staking_account(unstaker, &staking_account);
 		Ok(actual_unstaked_amount)
 	}
-- 
2.43.0


From a2fbd355b347ddd9fe3db4cbe9b9b52c221ea866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 14/20] fix: a partial unstake takes no more capacity than the
 staker's own stake issued

---
 pallets/capacity/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index fddc4c9..d960b74 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -629,6 +629,7 @@ impl<T: Config> Pallet<T> {
 				capacity_details.total_tokens_staked,
 				capacity_details.total_capacity_issued,
 			)
+			.min(staking_target_details.capacity)
 		};
 
 		staking_target_details.withdraw(amount, capacity_to_withdraw);
-- 
2.43.0


From 3cb8b7b3e40d0eac4ee33f82966526446bedbf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:19 +0000
Subject: [PATCH 15/20] fix: missing nonces are reported when two pooled
 transactions share a nonce

---
 node/service/src/rpc/frequency_rpc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node/service/src/rpc/frequency_rpc.rs b/node/service/src/rpc/frequency_rpc.rs
index 1734f27..d61828c 100644
--- a/node/service/src/rpc/frequency_rpc.rs
+++ b/node/service/src/rpc/frequency_rpc.rs
@@ -132,8 +132,11 @@ where
 			}
 		}
 
-		// progress the current_nonce
-		current_nonce += One::one();
+		// progress the current_nonce, which is already past this one if the pool has several
+		// transactions with the same nonce
+		if current_nonce == future_nonce {
+			current_nonce += One::one();
+		}
 	}
 
 	result
-- 
2.43.0


From 1c0982762800ee641bda770f47ddca78065c9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:22 +0000
Subject: [PATCH 16/20] fix: a malformed block hash from the node no longer
 panics the MSA off-chain worker

---
 pallets/msa/src/offchain_storage.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pallets/msa/src/offchain_storage.rs b/pallets/msa/src/offchain_storage.rs
index 612c0a5..a4a4d34 100644
--- a/pallets/msa/src/offchain_storage.rs
+++ b/pallets/msa/src/offchain_storage.rs
@@ -429,8 +429,12 @@ fn fetch_finalized_block_hash<T: Config>() -> Result<T::Hash, sp_runtime::offcha
 		serde_json::from_str(body_str).map_err(|_| sp_runtime::offchain::http::Error::Unknown)?;
 
 	// skipping 0x on front
-	let decoded_from_hex = hex::decode(&finalized_block_response.result[2..])
-		.map_err(|_| sp_runtime::offchain::http::Error::Unknown)?;
+	let hash_hex = finalized_block_response
+		.result
+		.get(2..)
+		.ok_or(sp_runtime::offchain::http::Error::Unknown)?;
+	let decoded_from_hex =
+		hex::decode(hash_hex).map_err(|_| sp_runtime::offchain::http::Error::Unknown)?;
 
 	let val = T::Hash::decode(&mut &decoded_from_hex[..])
 		.map_err(|_| sp_runtime::offchain::http::Error::Unknown)?;
-- 
2.43.0


From 176c65a870e5ba0cb687897ab90499bbe74a5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:22 +0000
Subject: [PATCH 17/20] fix: redoing an interrupted initial MSA indexing no
 longer skips the events in between

---
 pallets/msa/src/offchain_storage.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/msa/src/offchain_storage.rs b/pallets/msa/src/offchain_storage.rs
index a4a4d34..69099ba 100644
--- a/pallets/msa/src/offchain_storage.rs
+++ b/pallets/msa/src/offchain_storage.rs
@@ -259,6 +259,11 @@ fn init_last_processed_block<T: Config>(current_block_number: BlockNumberFor<T>)
 	let _ = last_processed_block_lock.lock();
 	let last_processed_block_storage =
 		StorageValueRef::persistent(LAST_PROCESSED_BLOCK_STORAGE_NAME);
+	// an initial indexing that was cut short already indexed keys of that time: the events since
+	// then are still to be applied to them
+	if let Ok(Some(_)) = last_processed_block_storage.get::<BlockNumberFor<T>>() {
+		return
+	}
 
 	// setting current_block-1 as the last processed so that we start indexing from current_block
 	let target_block: BlockNumberFor<T> =
-- 
2.43.0


From 9b7774beaaa50b378db733012f0ceedd24e67bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:22 +0000
Subject: [PATCH 18/20] fix: store the result of replenishing capacity by an
 amount

---
 pallets/capacity/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index d960b74..8f6e773 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -733,6 +733,7 @@ impl<T: Config> Replenishable for Pallet<T> {
 		let mut capacity_details =
 			Self::get_capacity_for(msa_id).ok_or(Error::<T>::TargetCapacityNotFound)?;
 		capacity_details.replenish_by_amount(amount, &Self::get_current_epoch());
+		Self::set_capacity_for(msa_id, capacity_details);
 		Ok(())
 	}
 
-- 
2.43.0


From 5fa12e39333e31ddb58dfa9577945e3ec1bbf00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:22 +0000
Subject: [PATCH 19/20] fix: a key cannot be deleted by itself when the call
 does not come as a transaction of its own

---
 pallets/msa/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 08d4263..f9521ce 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -717,6 +717,8 @@ pub mod pallet {
 
 			match Self::get_msa_by_public_key(&who) {
 				Some(who_msa_id) => {
+					// Also reached without the SignedExtension, for example through a proxy
+					ensure!(who != public_key_to_delete, Error::<T>::InvalidSelfRemoval);
 					Self::delete_key_for_msa(who_msa_id, &public_key_to_delete)?;
 
 					// Deposit the event
-- 
2.43.0


From 5e3cae4bd4cda1e58a8d3dfdbe8c1c4255b24014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:38 +0000
Subject: [PATCH 20/20] fix: schema id zero, which is never issued, is no
 longer accepted as valid

---
 pallets/schemas/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index 23be52f..1ae11e1 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -885,7 +885,7 @@ impl<T: Config> SchemaBenchmarkHelper for Pallet<T> {
 impl<T: Config> SchemaValidator<SchemaId> for Pallet<T> {
 	fn are_all_schema_ids_valid(schema_ids: &Vec<SchemaId>) -> bool {
 		let latest_issue_schema_id = Self::get_current_schema_identifier_maximum();
-		schema_ids.iter().all(|id| id <= &latest_issue_schema_id)
+		schema_ids.iter().all(|id| *id > 0 && id <= &latest_issue_schema_id)
 	}
 
 	#[cfg(any(feature = "std", feature = "runtime-benchmarks", test))]
-- 
2.43.0

