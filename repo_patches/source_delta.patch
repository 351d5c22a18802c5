From 66f85c4e5d26f0796debf243236c57c7e7bc0e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 01/25] fix: refuse a coinbase height push longer than four
 bytes instead of panicking

A version 2 coinbase input whose script starts with a length byte above 4
indexed past a four-byte buffer, and a length near u64::MAX overflowed both
the height_size + 1 and the position + bytes_count additions.
---
 crates/bitcoin/src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index e684e66..ecd2f1f 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -248,14 +248,12 @@ impl BytesParser {
     /// Reads `bytes_count` from the bytes parser and moves the head
     /// Fails if there are not enough bytes to read
     pub(crate) fn read(&mut self, bytes_count: usize) -> Result<Vec<u8>, Error> {
-        let bytes = self
-            .raw_bytes
-            .get(self.position..self.position + bytes_count)
-            .ok_or(Error::EndOfFile)?;
-        self.position = self
+        let end = self
             .position
             .checked_add(bytes_count)
             .ok_or(Error::ArithmeticOverflow)?;
+        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
+        self.position = end;
         Ok(Vec::from(bytes))
     }
 }
@@ -359,6 +357,10 @@ fn parse_transaction_input(raw_input: &[u8], version: i32) -> Result<(Transactio
             // version 2 transactions include a height as the first 4 bytes, see
             // https://github.com/bitcoin/bips/blob/master/bip-0034.mediawiki
             let height_size: u64 = parser.parse::<CompactUint>()?.value;
+            // fail if the height does not fit the buffer below
+            if height_size > 4 {
+                return Err(Error::MalformedTransaction);
+            }
             script_size = script_size.checked_sub(height_size + 1).ok_or(Error::EndOfFile)?;
 
             let mut buffer = [0u8; 4];
-- 
2.43.0


From d035c9feb99713cffbe947c5bd97d7e598b5c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 02/25] fix: encode 0xffff and 0xffffffff as the shortest
 compact size

Bitcoin's CompactSize uses the three-byte form up to and including 0xffff and
the five-byte form up to and including 0xffffffff. With the strict comparison a
transaction with a 65535-byte script or 65535 outputs got a wrong id.
---
 crates/bitcoin/src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bitcoin/src/formatter.rs b/crates/bitcoin/src/formatter.rs
index e7ad33b..3b34cf9 100644
--- a/crates/bitcoin/src/formatter.rs
+++ b/crates/bitcoin/src/formatter.rs
@@ -103,10 +103,10 @@ impl TryFormat for CompactUint {
     fn try_format<W: Writer>(&self, w: &mut W) -> Result<(), Error> {
         if self.value < 0xfd {
             (self.value as u8).try_format(w)?;
-        } else if self.value < u16::MAX as u64 {
+        } else if self.value <= u16::MAX as u64 {
             0xfd_u8.try_format(w)?;
             (self.value as u16).try_format(w)?;
-        } else if self.value < u32::MAX as u64 {
+        } else if self.value <= u32::MAX as u64 {
             0xfe_u8.try_format(w)?;
             (self.value as u32).try_format(w)?;
         } else {
-- 
2.43.0


From 9f7aae87d7342297dfc66e309d69fce3a58b4362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 03/25] hook: expose the swap contract to the conformance
 harness under cfg(verif_hooks)

---
 contracts/btc_swap/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/btc_swap/lib.rs b/contracts/btc_swap/lib.rs
index a97ea4f..9c5f70d 100755
--- a/contracts/btc_swap/lib.rs
+++ b/contracts/btc_swap/lib.rs
@@ -130,3 +130,7 @@ mod btc_swap {
         }
     }
 }
+
+/// Lets an external conformance harness drive the contract.
+#[cfg(verif_hooks)]
+pub use crate::btc_swap::BtcSwap;
-- 
2.43.0


From 9125aab2067c1b4b07429accebd68cd32acc7092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 04/25] fix: remove a swap order when it is executed, so that
 it is paid out only once

---
 contracts/btc_swap/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/btc_swap/lib.rs b/contracts/btc_swap/lib.rs
index 9c5f70d..2107cbb 100755
--- a/contracts/btc_swap/lib.rs
+++ b/contracts/btc_swap/lib.rs
@@ -126,6 +126,9 @@ mod btc_swap {
 
             assert!(transferred_sats >= order.min_satoshis);
 
+            // an order is paid out only once
+            self.orders.remove(counterparty);
+
             self.env().transfer(caller, order.plancks).unwrap();
         }
     }
-- 
2.43.0


From fe2d82768387dff035b4c24fc296bc8a7853da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 05/25] fix: settle the slashes of the staking pool that is
 withdrawn from, not of the newest one

apply_slash always used the current nonce, so after a forced refund the stake and rewards
left in the closed pool could not be withdrawn.
---
 crates/staking/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/staking/src/lib.rs b/crates/staking/src/lib.rs
index 61a7583..527bc88 100644
--- a/crates/staking/src/lib.rs
+++ b/crates/staking/src/lib.rs
@@ -378,7 +378,7 @@ impl<T: Config> Pallet<T> {
         amount: SignedFixedPoint<T>,
     ) -> DispatchResult {
         let nonce = Self::nonce(vault_id);
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         checked_add_mut!(Stake<T>, nonce, (vault_id, nominator_id), &amount);
         checked_add_mut!(TotalStake<T>, nonce, vault_id, &amount);
@@ -601,10 +601,10 @@ impl<T: Config> Pallet<T> {
     }
 
     fn apply_slash(
+        nonce: T::Nonce,
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<SignedFixedPoint<T>, DispatchError> {
-        let nonce = Self::nonce(vault_id);
         let stake = Self::stake_at_index(nonce, vault_id, nominator_id);
         let slash_per_token = Self::slash_per_token_at_index(nonce, vault_id);
         let slash_tally = Self::slash_tally_at_index(nonce, vault_id, nominator_id);
@@ -630,7 +630,7 @@ impl<T: Config> Pallet<T> {
         index: Option<T::Nonce>,
     ) -> DispatchResult {
         let nonce = index.unwrap_or(Self::nonce(vault_id));
-        let stake = Self::apply_slash(vault_id, nominator_id)?;
+        let stake = Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         if amount.is_zero() {
             return Ok(());
@@ -696,7 +696,7 @@ impl<T: Config> Pallet<T> {
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<<SignedFixedPoint<T> as FixedPointNumber>::Inner, DispatchError> {
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         let reward = Self::compute_reward_at_index(nonce, currency_id, vault_id, nominator_id)?;
         let reward_as_fixed = SignedFixedPoint::<T>::checked_from_integer(reward).ok_or(Error::<T>::TryIntoIntError)?;
-- 
2.43.0


From 137bc37d730d8990c5be42af071f4b93786b5446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 06/25] fix: do not deduct a stale pool's withdrawals from the
 backing collateral twice

Opting out of nomination already deducts what it refunds.
---
 crates/nomination/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/nomination/src/lib.rs b/crates/nomination/src/lib.rs
index 843afb2..1489df8 100644
--- a/crates/nomination/src/lib.rs
+++ b/crates/nomination/src/lib.rs
@@ -254,7 +254,10 @@ impl<T: Config> Pallet<T> {
         amount.unlock_on(&vault_id.account_id)?;
         amount.transfer(&vault_id.account_id, &nominator_id)?;
 
-        ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        // stake left in a stale pool was already deducted when its nominators were refunded
+        if index == nonce {
+            ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        }
 
         Self::deposit_event(Event::<T>::WithdrawCollateral {
             vault_id: vault_id.clone(),
-- 
2.43.0


From 03b43254dc348fa61d4c2d18918b63b2fd8fddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 07/25] fix: keep the forks ordered by height when one
 overtakes several others

The height of the fork being moved was replaced by that of the one it passed, so it stopped
moving, and neither an ongoing fork nor a due reorganisation was noticed.
---
 crates/btc-relay/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index c2937d2..631aea2 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -1156,7 +1156,7 @@ impl<T: Config> Pallet<T> {
         let fork_position: u32 = Self::get_chain_position_from_chain_id(fork.chain_id)?;
         // check if the previous element in Chains has a lower block_height
         let mut current_position = fork_position;
-        let mut current_height = fork.max_height;
+        let current_height = fork.max_height;
 
         // swap elements as long as previous block height is smaller
         while current_position > 0 {
@@ -1207,9 +1207,8 @@ impl<T: Config> Pallet<T> {
                     Self::swap_chain(prev_position, current_position);
                 }
 
-                // update the current chain to the previous one
+                // the fork is now at the previous position
                 current_position = prev_position;
-                current_height = prev_height;
             } else {
                 break;
             }
-- 
2.43.0


From 0a3440162cdcf1ff3cd706a3a04bbba34014ed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 08/25] fix: find the start of the difficulty period for a fork
 that branched off after it

The first block of a new period on such a fork was refused (MissingBlockHeight), so the relay
could not follow it.
---
 crates/btc-relay/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index 631aea2..9ed5a66 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -994,8 +994,14 @@ impl<T: Config> Pallet<T> {
     /// * `chain_id` - BlockChain identifier
     /// * `block_height` - current block height
     fn get_last_retarget_time(chain_id: u32, block_height: u32) -> Result<u64, DispatchError> {
-        let block_chain = Self::get_block_chain_from_id(chain_id)?;
+        let mut block_chain = Self::get_block_chain_from_id(chain_id)?;
         let period_start_height = block_height - DIFFICULTY_ADJUSTMENT_INTERVAL;
+        // a fork does not contain the blocks before its first one, those are in the chain it branched off
+        while block_chain.chain_id != MAIN_CHAIN_ID && block_chain.start_height > period_start_height {
+            let fork_start = Self::get_block_header_from_height(&block_chain, block_chain.start_height)?;
+            let parent = Self::get_block_header_from_hash(fork_start.block_header.hash_prev_block)?;
+            block_chain = Self::get_block_chain_from_id(parent.chain_id)?;
+        }
         let last_retarget_header = Self::get_block_header_from_height(&block_chain, period_start_height)?;
         Ok(last_retarget_header.block_header.timestamp as u64)
     }
-- 
2.43.0


From d89e3d3686a236d1575d80d4178e18cf40f2f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 09/25] fix: accept a header whose hash equals its target, as
 Bitcoin does

---
 crates/btc-relay/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index 9ed5a66..9e770a5 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -945,7 +945,7 @@ impl<T: Config> Pallet<T> {
         );
 
         // Check that the PoW hash satisfies the target set in the block header
-        ensure!(block_header.hash.as_u256() < block_header.target, Error::<T>::LowDiff);
+        ensure!(block_header.hash.as_u256() <= block_header.target, Error::<T>::LowDiff);
 
         if Self::disable_difficulty_check() {
             return Ok(());
-- 
2.43.0


From b97606aea3a2091e21668c5f18ab22f36ed4ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 10/25] fix: withdraw a liquidated vault's stake from the
 capacity pool too

---
 crates/vault-registry/src/types.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/vault-registry/src/types.rs b/crates/vault-registry/src/types.rs
index cb57a18..e4ed0ee 100644
--- a/crates/vault-registry/src/types.rs
+++ b/crates/vault-registry/src/types.rs
@@ -624,9 +624,6 @@ impl<T: Config> RichVault<T> {
         liquidation_vault.increase_to_be_redeemed(&self.to_be_redeemed_tokens())?;
         // todo: clear replace collateral?
 
-        // withdraw stake from the reward pool
-        ext::reward::set_stake::<T>(&vault_id, &Amount::zero(vault_id.wrapped_currency()))?;
-
         // Update vault: clear to_be_issued & issued_tokens, but don't touch to_be_redeemed
         let _ = self.update(|v| {
             v.to_be_issued_tokens = Zero::zero();
@@ -635,6 +632,10 @@ impl<T: Config> RichVault<T> {
             Ok(())
         });
 
+        // a liquidated vault does not accept new issues, so this withdraws its
+        // stake from the reward pool, and from the capacity pool
+        PoolManager::<T>::update_reward_stake(&vault_id)?;
+
         Ok(liquidated_collateral_excluding_to_be_redeemed)
     }
 
-- 
2.43.0


From b867b5fc13a4342a1ffa0bfd30e0677be400e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 11/25] fix: restore the reward stake of a vault that is
 recovered from liquidation

---
 crates/vault-registry/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index c89e03a..888c916 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -386,6 +386,7 @@ pub mod pallet {
 
             // Vault accepts new issues by default
             vault.set_accept_new_issues(true)?;
+            PoolManager::<T>::on_vault_settings_change(&vault_id)?;
 
             Ok(())
         }
-- 
2.43.0


From 842d6066d93c5eb9caaa839e7b8ef81174c681cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 12/25] fix: report the issuable amount of a vault that accepts
 no issues in the wrapped currency

---
 crates/vault-registry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 888c916..ae977b9 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1779,7 +1779,7 @@ impl<T: Config> Pallet<T> {
         // make sure the vault accepts new issue requests.
         // NOTE: get_vaults_with_issuable_tokens depends on this check
         if vault.data.status != VaultStatus::Active(true) {
-            Ok(Amount::new(0u32.into(), vault_id.currencies.collateral))
+            Ok(Amount::zero(vault_id.wrapped_currency()))
         } else {
             vault.issuable_tokens()
         }
-- 
2.43.0


From 960b32430839a047096d35974739c0c698bce48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 13/25] fix: refuse a liquidation redeem of nothing

---
 crates/redeem/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/redeem/src/lib.rs b/crates/redeem/src/lib.rs
index 7d60e1c..67aea80 100644
--- a/crates/redeem/src/lib.rs
+++ b/crates/redeem/src/lib.rs
@@ -566,6 +566,7 @@ impl<T: Config> Pallet<T> {
             amount_wrapped.le(&redeemer_balance)?,
             Error::<T>::AmountExceedsUserBalance
         );
+        ensure!(!amount_wrapped.is_zero(), Error::<T>::AmountBelowDustAmount);
 
         amount_wrapped.lock_on(&redeemer)?;
         amount_wrapped.burn_from(&redeemer)?;
-- 
2.43.0


From 276a8bb75ec54e49010f0ac1263e4a39b481c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 14/25] fix: do not let the collateral ceiling block collateral
 that is already locked from moving

---
 crates/vault-registry/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index ae977b9..72206c9 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -978,11 +978,11 @@ impl<T: Config> Pallet<T> {
                 amount.lock_on(&to.account_id())?;
             }
             CurrencySource::LiquidatedCollateral(VaultId { ref currencies, .. }) => {
-                Self::try_increase_total_backing_collateral(currencies, amount)?;
+                Self::increase_total_backing_collateral(currencies, amount)?;
                 amount.lock_on(&to.account_id())?;
             }
             CurrencySource::LiquidationVault(ref currencies) => {
-                Self::try_increase_total_backing_collateral(currencies, amount)?;
+                Self::increase_total_backing_collateral(currencies, amount)?;
                 let mut liquidation_vault = Self::get_rich_liquidation_vault(currencies);
                 liquidation_vault.increase_collateral(amount)?;
                 amount.lock_on(&to.account_id())?;
@@ -1506,6 +1506,17 @@ impl<T: Config> Pallet<T> {
         let limit = Self::get_collateral_ceiling(currency_pair)?;
         ensure!(new.le(&limit)?, Error::<T>::CurrencyCeilingExceeded);
 
+        Self::increase_total_backing_collateral(currency_pair, amount)
+    }
+
+    /// As `try_increase_total_backing_collateral`, but not subject to the ceiling: for collateral
+    /// that is already locked and only changes hands, e.g. when a vault is liquidated.
+    fn increase_total_backing_collateral(
+        currency_pair: &DefaultVaultCurrencyPair<T>,
+        amount: &Amount<T>,
+    ) -> DispatchResult {
+        let new = Self::get_total_user_vault_collateral(currency_pair)?.checked_add(&amount)?;
+
         TotalUserVaultCollateral::<T>::insert(currency_pair, new.amount());
 
         Self::deposit_event(Event::<T>::IncreaseLockedCollateral {
-- 
2.43.0


From 65eda813416ec20a07d8262c537667a90f99a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 15/25] fix: keep a replace cancellable when the new vault can
 not give the extra collateral back

---
 crates/replace/src/ext.rs | 4 ++++
 crates/replace/src/lib.rs | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/replace/src/ext.rs b/crates/replace/src/ext.rs
index 62457cf..75b517c 100644
--- a/crates/replace/src/ext.rs
+++ b/crates/replace/src/ext.rs
@@ -132,6 +132,10 @@ pub(crate) mod vault_registry {
         <vault_registry::Pallet<T>>::force_withdraw_collateral(vault_id, amount)
     }
 
+    pub fn compute_collateral<T: crate::Config>(vault_id: &DefaultVaultId<T>) -> Result<Amount<T>, DispatchError> {
+        <vault_registry::Pallet<T>>::compute_collateral(vault_id)
+    }
+
     pub fn is_allowed_to_withdraw_collateral<T: crate::Config>(
         vault_id: &DefaultVaultId<T>,
         amount: Option<Amount<T>>,
diff --git a/crates/replace/src/lib.rs b/crates/replace/src/lib.rs
index d3a1c90..c5ecf73 100644
--- a/crates/replace/src/lib.rs
+++ b/crates/replace/src/lib.rs
@@ -587,9 +587,13 @@ impl<T: Config> Pallet<T> {
         )?;
 
         // if the new_vault locked additional collateral especially for this replace,
-        // release it if it does not cause them to be undercollateralized
+        // release it if it does not cause them to be undercollateralized or below the minimum.
+        // If it can't be released (they might even not have that much anymore), it stays
+        // locked, but the request must still be cancellable.
         if !ext::vault_registry::is_vault_liquidated::<T>(&new_vault_id)?
-            && ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))?
+            && ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))
+                .unwrap_or(false)
+            && ext::vault_registry::compute_collateral::<T>(&new_vault_id)?.ge(&collateral)?
         {
             ext::vault_registry::force_withdraw_collateral::<T>(&new_vault_id, &collateral)?;
         }
-- 
2.43.0


From 29b2a670e2c94297ea97f48836bdc3d5eb5747dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:24 +0000
Subject: [PATCH 16/25] fix: share rewards earned so far by the commission they
 were earned under

---
 crates/fee/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/fee/src/lib.rs b/crates/fee/src/lib.rs
index 0153065..cdea46d 100644
--- a/crates/fee/src/lib.rs
+++ b/crates/fee/src/lib.rs
@@ -348,6 +348,8 @@ pub mod pallet {
                 commission <= UnsignedFixedPoint::<T>::one(),
                 Error::<T>::AboveMaxExpectedValue
             );
+            // rewards earned so far are subject to the commission they were earned under
+            Self::distribute_all_vault_rewards(&vault_id)?;
             Commission::<T>::insert(vault_id, commission);
             Ok(().into())
         }
-- 
2.43.0


From 265b4440cea9c883e8c189feff82f4151d6c888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:19 +0000
Subject: [PATCH 17/25] fix: the mean of two oracle values cannot overflow

The median of an even number of reports added the two middle values before
halving them. When the sum did not fit the fixed point type the round was
dropped: the stale aggregate stayed and nobody was told the new price, although
the mean itself fits.
---
 crates/oracle/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oracle/src/lib.rs b/crates/oracle/src/lib.rs
index 3af135e..bd43bab 100644
--- a/crates/oracle/src/lib.rs
+++ b/crates/oracle/src/lib.rs
@@ -352,9 +352,11 @@ impl<T: Config> Pallet<T> {
                 // even number - get avg of 2 values
                 let value_1 = raw_values.get(mid_index.checked_sub(1)?)?;
                 let value_2 = raw_values.get(mid_index)?;
-                let value = value_1
-                    .checked_add(&value_2)?
+                // the sum of the two may not fit the type, their mean always does
+                let half_difference = value_2
+                    .checked_sub(value_1)?
                     .checked_div(&UnsignedFixedPoint::<T>::from(2u32.into()))?;
+                let value = value_1.checked_add(&half_difference)?;
                 Some(value)
             }
             _ => Some(*raw_values.get(mid_index)?),
-- 
2.43.0


From 52a45ee55368db165c83bd3a68224a58607738db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 18/25] fix: check the new liquidation share when a lending
 market is updated

update_market checked the stored factor, so that 100% was accepted, and every later update then refused.
---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index e1f4d83..2c76bbe 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -775,7 +775,7 @@ pub mod pallet {
                 Error::<T>::InvalidFactor
             );
             ensure!(
-                market.liquidate_incentive_reserved_factor < Ratio::one(),
+                liquidate_incentive_reserved_factor < Ratio::one(),
                 Error::<T>::InvalidFactor,
             );
             ensure!(supply_cap > Zero::zero(), Error::<T>::InvalidSupplyCap);
-- 
2.43.0


From 69fb86e9cfd48b68134a702b4b3d81eb7e3e8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 19/25] fix: a liquidation settles the rewards of the borrower
 whose debt it reduces

The rewards of the liquidator were settled instead, so that the borrower's were later counted on the reduced debt.
---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 2c76bbe..b59f3ba 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1595,7 +1595,7 @@ impl<T: Config> Pallet<T> {
 
         // update borrow index after accrue interest.
         Self::update_reward_borrow_index(liquidation_asset_id)?;
-        Self::distribute_borrower_reward(liquidation_asset_id, liquidator)?;
+        Self::distribute_borrower_reward(liquidation_asset_id, borrower)?;
 
         // 1.liquidator repays borrower's debt,
         // transfer from liquidator to module account
-- 
2.43.0


From 88bca13d1f9209d0f80988492ea0b0537a9a1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 20/25] fix: liquidating the last debt of a lending market does
 not underflow

total_borrows is rounded down, the debt up; repayments allow for that, liquidations did not.
---
 crates/loans/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index b59f3ba..bf75e42 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1604,7 +1604,8 @@ impl<T: Config> Pallet<T> {
         // 2.the system reduces borrower's debt
         let account_borrows_new =
             Self::current_borrow_balance(borrower, liquidation_asset_id)?.checked_sub(&repayment)?;
-        let total_borrows_new = Self::total_borrows(liquidation_asset_id).checked_sub(&repayment)?;
+        // `total_borrows` is rounded down and may be less than the debt (see `do_repay_borrow_with_amount`).
+        let total_borrows_new = Self::total_borrows(liquidation_asset_id).saturating_sub(&repayment)?;
         AccountBorrows::<T>::insert(
             liquidation_asset_id,
             borrower,
-- 
2.43.0


From 005cf47904e338e0b7b5646234b477ceaa4ee7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 21/25] fix: an account whose debt exceeds its collateral
 cannot borrow dust

An amount worth less than one unit of the reference asset was lent to anyone, any number of times.
---
 crates/loans/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index bf75e42..36b2fe2 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1759,7 +1759,9 @@ impl<T: Config> Pallet<T> {
     /// `account`: account that needs a liquidity check
     /// `reduce_amount`: amount to reduce the liquidity (collateral) of the `account` by
     fn ensure_liquidity(account: &T::AccountId, reduce_amount: Amount<T>) -> DispatchResult {
-        if Self::get_account_liquidity(account)?.liquidity().ge(&reduce_amount)? {
+        let account_liquidity = Self::get_account_liquidity(account)?;
+        // An amount worth less than one unit of the reference asset has no value, but may not add to a shortfall.
+        if account_liquidity.shortfall().is_zero() && account_liquidity.liquidity().ge(&reduce_amount)? {
             return Ok(());
         }
         Err(Error::<T>::InsufficientLiquidity.into())
-- 
2.43.0


From f88c3d4f8318c399fca225b568b1ea7f090ae5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 22/25] fix: refuse interest rate models that jump at zero
 utilization

Such a model has no rate for an unused market, which then can no longer accrue interest or be used at all.
---
 crates/loans/src/rate_model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/loans/src/rate_model.rs b/crates/loans/src/rate_model.rs
index 80af6aa..70fae6e 100644
--- a/crates/loans/src/rate_model.rs
+++ b/crates/loans/src/rate_model.rs
@@ -137,6 +137,10 @@ impl JumpModel {
         if self.base_rate > self.jump_rate || self.jump_rate > self.full_rate {
             return false;
         }
+        // the rate below the jump is divided by the utilization at the jump
+        if self.jump_utilization.is_zero() {
+            return false;
+        }
 
         true
     }
-- 
2.43.0


From 9b3e715f43cb5a5b2079122a4e0f937c509a43da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 23/25] fix: the voting power of all locks together follows
 locks that end

SlopeChanges is unsigned, so what was scheduled (minus the slope of a lock) was always zero and what was taken back when a lock was extended was added: the total kept falling by the slope of expired locks and was less than the sum of everyone's power.
---
 crates/escrow/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/escrow/src/lib.rs b/crates/escrow/src/lib.rs
index 31cbf2b..be07e9a 100644
--- a/crates/escrow/src/lib.rs
+++ b/crates/escrow/src/lib.rs
@@ -239,6 +239,7 @@ pub mod pallet {
     #[pallet::storage]
     pub type UserPointEpoch<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, T::Nonce, ValueQuery>;
 
+    // By how much the slope of all locks together decreases when those that end at a given height expire.
     #[pallet::storage]
     pub type SlopeChanges<T: Config> = StorageMap<_, Blake2_128Concat, BlockNumberFor<T>, BalanceOf<T>, ValueQuery>;
 
@@ -442,7 +443,7 @@ impl<T: Config> Pallet<T> {
             };
             let height_diff = T::BlockNumberToBalance::convert(t_i.saturating_sub(last_checkpoint));
             last_point.bias.saturating_reduce(last_point.slope * height_diff);
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_checkpoint = t_i;
             last_point.ts = t_i;
             epoch.saturating_inc();
@@ -464,16 +465,16 @@ impl<T: Config> Pallet<T> {
 
         // schedule the slope change
         if old_locked.end > now {
-            old_dslope.saturating_accrue(u_old.slope);
+            old_dslope.saturating_reduce(u_old.slope);
             if new_locked.end == old_locked.end {
                 // new deposit
-                old_dslope = old_dslope.saturating_sub(u_new.slope);
+                old_dslope.saturating_accrue(u_new.slope);
             }
             <SlopeChanges<T>>::insert(old_locked.end, old_dslope);
         }
 
         if new_locked.end > now && new_locked.end > old_locked.end {
-            new_dslope = new_dslope.saturating_sub(u_new.slope);
+            new_dslope.saturating_accrue(u_new.slope);
             <SlopeChanges<T>>::insert(new_locked.end, new_dslope);
         }
 
@@ -606,7 +607,7 @@ impl<T: Config> Pallet<T> {
                 break;
             }
 
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_point.ts = t_i;
         }
 
-- 
2.43.0


From 21fd3a1b7ad40d0e6e3fb00d1e829bb4d9d7dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:36 +0000
Subject: [PATCH 24/25] fix: removing liquidity counts the shares of the
 protocol fee

What was paid was computed before the fee's shares came into being: who removed everything left the protocol with shares of an empty pool, to which nobody could add anything anymore.
---
 crates/dex-general/src/swap/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index ddddf6c..3e12e1d 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -157,14 +157,6 @@ impl<T: Config> Pallet<T> {
                 let reserve_0 = T::MultiCurrency::free_balance(asset_0, &parameter.pair_account);
                 let reserve_1 = T::MultiCurrency::free_balance(asset_1, &parameter.pair_account);
 
-                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
-                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
-
-                ensure!(
-                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
-                    Error::<T>::InsufficientTargetAmount
-                );
-
                 let lp_asset_id = Self::lp_pairs(pair).ok_or(Error::<T>::InsufficientAssetBalance)?;
 
                 let mint_fee = Self::mint_protocol_fee(reserve_0, reserve_1, asset_0, asset_1, parameter.total_supply)?;
@@ -178,6 +170,15 @@ impl<T: Config> Pallet<T> {
                     }
                 }
 
+                // the shares of the protocol fee are part of the total supply
+                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
+                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
+
+                ensure!(
+                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
+                    Error::<T>::InsufficientTargetAmount
+                );
+
                 parameter.total_supply = parameter
                     .total_supply
                     .checked_sub(remove_liquidity)
-- 
2.43.0


From 2c75396b0ba5465c23f2ca36753b1cc27e2e7eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 25/25] fix: withdrawing bootstrap rewards leaves out what was
 distributed

The whole amount ever charged was paid from the account that all bootstraps share, although contributors had claimed their part of it.
---
 crates/dex-general/src/lib.rs      | 14 +++++++++++++-
 crates/dex-general/src/swap/mod.rs |  8 ++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/dex-general/src/lib.rs b/crates/dex-general/src/lib.rs
index 3547be2..d52f3d7 100644
--- a/crates/dex-general/src/lib.rs
+++ b/crates/dex-general/src/lib.rs
@@ -163,6 +163,16 @@ pub mod pallet {
         ValueQuery,
     >;
 
+    /// The part of the rewards that was already distributed to contributors
+    #[pallet::storage]
+    pub type BootstrapDistributed<T: Config> = StorageMap<
+        _,
+        Twox64Concat,
+        (T::AssetId, T::AssetId),
+        BoundedBTreeMap<T::AssetId, AssetBalance, T::MaxBootstrapRewards>,
+        ValueQuery,
+    >;
+
     #[pallet::storage]
     #[pallet::getter(fn get_bootstrap_limits)]
     pub type BootstrapLimits<T: Config> = StorageMap<
@@ -1079,9 +1089,11 @@ pub mod pallet {
             let pair = Self::sort_asset_id(asset_0, asset_1);
             let recipient = T::Lookup::lookup(recipient)?;
 
+            let distributed = BootstrapDistributed::<T>::take(pair);
             BootstrapRewards::<T>::try_mutate(pair, |rewards| -> DispatchResult {
                 for (asset_id, amount) in rewards {
-                    T::MultiCurrency::transfer(*asset_id, &Self::bootstrap_account_id(), &recipient, *amount)?;
+                    let remaining = amount.saturating_sub(distributed.get(asset_id).copied().unwrap_or_default());
+                    T::MultiCurrency::transfer(*asset_id, &Self::bootstrap_account_id(), &recipient, remaining)?;
 
                     *amount = Zero::zero();
                 }
diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index 3e12e1d..9893e8d 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -970,6 +970,14 @@ impl<T: Config> Pallet<T> {
                 .ok_or(Error::<T>::Overflow)?;
 
             T::MultiCurrency::transfer(asset_id, reward_holder, owner, owner_reward)?;
+            BootstrapDistributed::<T>::try_mutate(pair, |distributed| -> DispatchResult {
+                let amount = distributed.get(&asset_id).copied().unwrap_or_default();
+                let amount = amount.checked_add(owner_reward).ok_or(Error::<T>::Overflow)?;
+                distributed
+                    .try_insert(asset_id, amount)
+                    .map_err(|_| Error::<T>::TooManyRewards)?;
+                Ok(())
+            })?;
 
             distribute_rewards.push((asset_id, owner_reward));
         }
-- 
2.43.0

