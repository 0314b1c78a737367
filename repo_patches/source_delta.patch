From 63f224cc9842ddc569194fad3560efa62e0f49c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 01/19] fix: format 0xffff and 0xffffffff as canonical compact
 integers

---
 crates/bitcoin/src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bitcoin/src/formatter.rs b/crates/bitcoin/src/formatter.rs
index e7ad33b..3b34cf9 100644
--- a/crates/bitcoin/src/formatter.rs
+++ b/crates/bitcoin/src/formatter.rs
@@ -103,10 +103,10 @@ impl TryFormat for CompactUint {
     fn try_format<W: Writer>(&self, w: &mut W) -> Result<(), Error> {
         if self.value < 0xfd {
             (self.value as u8).try_format(w)?;
-        } else if self.value < u16::MAX as u64 {
+        } else if self.value <= u16::MAX as u64 {
             0xfd_u8.try_format(w)?;
             (self.value as u16).try_format(w)?;
-        } else if self.value < u32::MAX as u64 {
+        } else if self.value <= u32::MAX as u64 {
             0xfe_u8.try_format(w)?;
             (self.value as u32).try_format(w)?;
         } else {
-- 
2.43.0


From 31730cf0fa7f781051c06cd3b1dca3e6c7be8f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 02/19] fix: reject coinbase heights that do not fit instead of
 panicking

---
 crates/bitcoin/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index e684e66..1ed1d6f 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -359,9 +359,12 @@ fn parse_transaction_input(raw_input: &[u8], version: i32) -> Result<(Transactio
             // version 2 transactions include a height as the first 4 bytes, see
             // https://github.com/bitcoin/bips/blob/master/bip-0034.mediawiki
             let height_size: u64 = parser.parse::<CompactUint>()?.value;
+            let mut buffer = [0u8; 4];
+            if height_size > buffer.len() as u64 {
+                return Err(Error::MalformedTransaction);
+            }
             script_size = script_size.checked_sub(height_size + 1).ok_or(Error::EndOfFile)?;
 
-            let mut buffer = [0u8; 4];
             let bytes = parser.read(height_size as usize)?;
             buffer[..(height_size as usize)]
                 .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
-- 
2.43.0


From 90654ec7086e07d24d455a1c505cb102ea9d3640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 03/19] fix: report an error when a script length overflows the
 parser position

---
 crates/bitcoin/src/parser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index 1ed1d6f..ca1f145 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -248,15 +248,14 @@ impl BytesParser {
     /// Reads `bytes_count` from the bytes parser and moves the head
     /// Fails if there are not enough bytes to read
     pub(crate) fn read(&mut self, bytes_count: usize) -> Result<Vec<u8>, Error> {
-        let bytes = self
-            .raw_bytes
-            .get(self.position..self.position + bytes_count)
-            .ok_or(Error::EndOfFile)?;
-        self.position = self
+        let end = self
             .position
             .checked_add(bytes_count)
             .ok_or(Error::ArithmeticOverflow)?;
-        Ok(Vec::from(bytes))
+        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
+        let result = Vec::from(bytes);
+        self.position = end;
+        Ok(result)
     }
 }
 
-- 
2.43.0


From f15d9c9e4fa8480ebbb0f1db72736e0b56c824a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 04/19] fix: apply staking slashes at the index being withdrawn

withdraw_stake and withdraw_reward_at_index settled the slash of the
current pool even when an older index was given, so after a forced
refund nominators could not withdraw their stake from the old pool.
---
 crates/staking/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/staking/src/lib.rs b/crates/staking/src/lib.rs
index 61a7583..527bc88 100644
--- a/crates/staking/src/lib.rs
+++ b/crates/staking/src/lib.rs
@@ -378,7 +378,7 @@ impl<T: Config> Pallet<T> {
         amount: SignedFixedPoint<T>,
     ) -> DispatchResult {
         let nonce = Self::nonce(vault_id);
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         checked_add_mut!(Stake<T>, nonce, (vault_id, nominator_id), &amount);
         checked_add_mut!(TotalStake<T>, nonce, vault_id, &amount);
@@ -601,10 +601,10 @@ impl<T: Config> Pallet<T> {
     }
 
     fn apply_slash(
+        nonce: T::Nonce,
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<SignedFixedPoint<T>, DispatchError> {
-        let nonce = Self::nonce(vault_id);
         let stake = Self::stake_at_index(nonce, vault_id, nominator_id);
         let slash_per_token = Self::slash_per_token_at_index(nonce, vault_id);
         let slash_tally = Self::slash_tally_at_index(nonce, vault_id, nominator_id);
@@ -630,7 +630,7 @@ impl<T: Config> Pallet<T> {
         index: Option<T::Nonce>,
     ) -> DispatchResult {
         let nonce = index.unwrap_or(Self::nonce(vault_id));
-        let stake = Self::apply_slash(vault_id, nominator_id)?;
+        let stake = Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         if amount.is_zero() {
             return Ok(());
@@ -696,7 +696,7 @@ impl<T: Config> Pallet<T> {
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<<SignedFixedPoint<T> as FixedPointNumber>::Inner, DispatchError> {
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         let reward = Self::compute_reward_at_index(nonce, currency_id, vault_id, nominator_id)?;
         let reward_as_fixed = SignedFixedPoint::<T>::checked_from_integer(reward).ok_or(Error::<T>::TryIntoIntError)?;
-- 
2.43.0


From 621ef306e84653771d623086a5e86d187c712779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 05/19] fix: a swap order can be executed only once

---
 contracts/btc_swap/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/btc_swap/lib.rs b/contracts/btc_swap/lib.rs
index a97ea4f..d036e0a 100755
--- a/contracts/btc_swap/lib.rs
+++ b/contracts/btc_swap/lib.rs
@@ -126,6 +126,8 @@ mod btc_swap {
 
             assert!(transferred_sats >= order.min_satoshis);
 
+            // the locked funds can only be claimed once
+            self.orders.remove(&counterparty);
             self.env().transfer(caller, order.plancks).unwrap();
         }
     }
-- 
2.43.0


From d62e5f8c3677247a68798c9c47e6a9ea99a1f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 06/19] fix: do not subtract refunded nominations from the
 total collateral twice

Opting out of nomination already subtracts the refunded collateral from
TotalUserVaultCollateral. Withdrawing it from the stale staking pool
afterwards subtracted it again, so that the total no longer matched the
vaults (and later withdrawals failed when it underflowed).
---
 crates/nomination/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/nomination/src/lib.rs b/crates/nomination/src/lib.rs
index 843afb2..e808c4a 100644
--- a/crates/nomination/src/lib.rs
+++ b/crates/nomination/src/lib.rs
@@ -254,7 +254,11 @@ impl<T: Config> Pallet<T> {
         amount.unlock_on(&vault_id.account_id)?;
         amount.transfer(&vault_id.account_id, &nominator_id)?;
 
-        ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        // collateral in a stale staking pool was already subtracted from the
+        // system-wide total when the nominators were refunded
+        if index == nonce {
+            ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        }
 
         Self::deposit_event(Event::<T>::WithdrawCollateral {
             vault_id: vault_id.clone(),
-- 
2.43.0


From 7931748acf5a16e5b20f0e9657cfb5937aa78b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 07/19] fix: release replace requests for tokens a cancelled
 replace took over

A cancelled replace can still be executed. If the old vault requested the
same tokens to be replaced again in the meantime, its to-be-replaced and
to-be-redeemed tokens exceeded its issued tokens afterwards, and the new
request could neither be accepted nor be extended.
---
 crates/vault-registry/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index c89e03a..3ae379e 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1390,6 +1390,17 @@ impl<T: Config> Pallet<T> {
         old_vault.execute_redeem_tokens(tokens)?;
         new_vault.execute_issue_tokens(tokens)?;
 
+        // if the replace had been cancelled, the old-vault may have requested the same
+        // tokens to be replaced again - it can not promise more than it has left
+        if !old_vault.data.is_liquidated() {
+            let excess = old_vault
+                .to_be_replaced_tokens()
+                .saturating_sub(&old_vault.freely_redeemable_tokens()?)?;
+            if !excess.is_zero() {
+                Self::withdraw_replace_request(old_vault_id, &excess)?;
+            }
+        }
+
         Self::deposit_event(Event::<T>::ReplaceTokens {
             old_vault_id: old_vault_id.clone(),
             new_vault_id: new_vault_id.clone(),
-- 
2.43.0


From d628ec4cd1243d8f2410ebc1e229c9e26bd84e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 08/19] fix: report issuable tokens in the wrapped currency

A vault that does not accept new issues reported zero issuable tokens in
its collateral currency, so that executing an issue request with a larger
payment than requested failed with InvalidCurrency.
---
 crates/vault-registry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 3ae379e..85787f5 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1789,7 +1789,7 @@ impl<T: Config> Pallet<T> {
         // make sure the vault accepts new issue requests.
         // NOTE: get_vaults_with_issuable_tokens depends on this check
         if vault.data.status != VaultStatus::Active(true) {
-            Ok(Amount::new(0u32.into(), vault_id.currencies.collateral))
+            Ok(Amount::new(0u32.into(), vault_id.wrapped_currency()))
         } else {
             vault.issuable_tokens()
         }
-- 
2.43.0


From 872ed00b71b83a6e745daed0e0d48ff673e57bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 09/19] fix: let a replace be cancelled when the new vault is
 near the minimum collateral

Cancelling a replace releases the collateral that the new vault added for
it, unless that leaves the vault undercollateralized. If it would leave the
vault below the minimum collateral, the cancellation itself failed, so that
both vaults' tokens and the griefing collateral stayed locked.
---
 crates/replace/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/replace/src/lib.rs b/crates/replace/src/lib.rs
index d3a1c90..d3319cb 100644
--- a/crates/replace/src/lib.rs
+++ b/crates/replace/src/lib.rs
@@ -588,10 +588,14 @@ impl<T: Config> Pallet<T> {
 
         // if the new_vault locked additional collateral especially for this replace,
         // release it if it does not cause them to be undercollateralized
-        if !ext::vault_registry::is_vault_liquidated::<T>(&new_vault_id)?
-            && ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))?
-        {
-            ext::vault_registry::force_withdraw_collateral::<T>(&new_vault_id, &collateral)?;
+        if !ext::vault_registry::is_vault_liquidated::<T>(&new_vault_id)? {
+            match ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone())) {
+                Ok(true) => ext::vault_registry::force_withdraw_collateral::<T>(&new_vault_id, &collateral)?,
+                Ok(false) => (),
+                // keep the collateral locked if the vault would drop below the minimum
+                Err(x) if x == vault_registry::Error::<T>::InsufficientVaultCollateralAmount.into() => (),
+                Err(x) => return Err(x),
+            }
         }
 
         // Remove the ReplaceRequest from ReplaceRequests
-- 
2.43.0


From f7559adad430b59984e368a00f023cc09496ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 10/19] fix: compare a growing fork by its own height with all
 chains before it

---
 crates/btc-relay/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index c2937d2..fa21207 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -1156,7 +1156,7 @@ impl<T: Config> Pallet<T> {
         let fork_position: u32 = Self::get_chain_position_from_chain_id(fork.chain_id)?;
         // check if the previous element in Chains has a lower block_height
         let mut current_position = fork_position;
-        let mut current_height = fork.max_height;
+        let current_height = fork.max_height;
 
         // swap elements as long as previous block height is smaller
         while current_position > 0 {
@@ -1207,9 +1207,8 @@ impl<T: Config> Pallet<T> {
                     Self::swap_chain(prev_position, current_position);
                 }
 
-                // update the current chain to the previous one
+                // the fork has moved to the previous position
                 current_position = prev_position;
-                current_height = prev_height;
             } else {
                 break;
             }
-- 
2.43.0


From 740951994a07609e994104e4562f2cafd25ef2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 11/19] fix: find the last retarget of a fork that started
 after it

---
 crates/btc-relay/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index fa21207..8ea7998 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -994,8 +994,14 @@ impl<T: Config> Pallet<T> {
     /// * `chain_id` - BlockChain identifier
     /// * `block_height` - current block height
     fn get_last_retarget_time(chain_id: u32, block_height: u32) -> Result<u64, DispatchError> {
-        let block_chain = Self::get_block_chain_from_id(chain_id)?;
+        let mut block_chain = Self::get_block_chain_from_id(chain_id)?;
         let period_start_height = block_height - DIFFICULTY_ADJUSTMENT_INTERVAL;
+        // a fork that started after the last retarget continues in the chain it branches off from
+        while block_chain.chain_id != MAIN_CHAIN_ID && period_start_height < block_chain.start_height {
+            let first_header = Self::get_block_header_from_height(&block_chain, block_chain.start_height)?;
+            let parent = Self::get_block_header_from_hash(first_header.block_header.hash_prev_block)?;
+            block_chain = Self::get_block_chain_from_id(parent.chain_id)?;
+        }
         let last_retarget_header = Self::get_block_header_from_height(&block_chain, period_start_height)?;
         Ok(last_retarget_header.block_header.timestamp as u64)
     }
-- 
2.43.0


From fb7e5cb6b46e75dabaf208cd534c5f2a2185a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 12/19] fix: let the total voting power forget expired locks

Slopes are unsigned here, so subtracting from the scheduled slope change
saturated to zero: nothing was ever scheduled and the total kept decaying at
the rate of locks that had ended. Schedule the decrease itself.
---
 crates/escrow/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/escrow/src/lib.rs b/crates/escrow/src/lib.rs
index 31cbf2b..c8b16b5 100644
--- a/crates/escrow/src/lib.rs
+++ b/crates/escrow/src/lib.rs
@@ -442,7 +442,7 @@ impl<T: Config> Pallet<T> {
             };
             let height_diff = T::BlockNumberToBalance::convert(t_i.saturating_sub(last_checkpoint));
             last_point.bias.saturating_reduce(last_point.slope * height_diff);
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_checkpoint = t_i;
             last_point.ts = t_i;
             epoch.saturating_inc();
@@ -462,18 +462,18 @@ impl<T: Config> Pallet<T> {
         last_point.bias.saturating_accrue(u_new.bias.saturating_sub(u_old.bias));
         <PointHistory<T>>::insert(epoch, last_point);
 
-        // schedule the slope change
+        // schedule the decrease of the slope when a lock ends
         if old_locked.end > now {
-            old_dslope.saturating_accrue(u_old.slope);
+            old_dslope.saturating_reduce(u_old.slope);
             if new_locked.end == old_locked.end {
                 // new deposit
-                old_dslope = old_dslope.saturating_sub(u_new.slope);
+                old_dslope.saturating_accrue(u_new.slope);
             }
             <SlopeChanges<T>>::insert(old_locked.end, old_dslope);
         }
 
         if new_locked.end > now && new_locked.end > old_locked.end {
-            new_dslope = new_dslope.saturating_sub(u_new.slope);
+            new_dslope.saturating_accrue(u_new.slope);
             <SlopeChanges<T>>::insert(new_locked.end, new_dslope);
         }
 
@@ -606,7 +606,7 @@ impl<T: Config> Pallet<T> {
                 break;
             }
 
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_point.ts = t_i;
         }
 
-- 
2.43.0


From dc608dbd69e962dfc726a986481d7488a5ffd2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 13/19] fix: do not spend earned farming rewards on a new or
 removed schedule

---
 crates/farming/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/farming/src/lib.rs b/crates/farming/src/lib.rs
index 17afa32..c4251a0 100644
--- a/crates/farming/src/lib.rs
+++ b/crates/farming/src/lib.rs
@@ -43,7 +43,7 @@ use primitives::CurrencyId;
 use reward::RewardsApi;
 use scale_info::TypeInfo;
 use sp_runtime::{
-    traits::{AccountIdConversion, AtLeast32Bit, CheckedDiv, Saturating, Zero},
+    traits::{AccountIdConversion, AtLeast32Bit, CheckedAdd, CheckedDiv, Saturating, Zero},
     ArithmeticError, DispatchError,
 };
 use sp_std::vec::Vec;
@@ -232,8 +232,12 @@ pub mod pallet {
                     .period_count
                     .checked_add(period_count)
                     .ok_or(ArithmeticError::Overflow)?;
-                let total_free = T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id);
-                let total_per_period = total_free.checked_div(&total_period_count.into()).unwrap_or_default();
+                // the pool also holds rewards that were distributed but not claimed yet
+                let total_rewards = reward_schedule
+                    .total()
+                    .and_then(|remaining| remaining.checked_add(&amount))
+                    .ok_or(ArithmeticError::Overflow)?;
+                let total_per_period = total_rewards.checked_div(&total_period_count.into()).unwrap_or_default();
 
                 reward_schedule.period_count = total_period_count;
                 reward_schedule.per_period = total_per_period;
@@ -261,14 +265,16 @@ pub mod pallet {
             ensure_root(origin)?;
             pool_currency_id.sort();
 
-            // transfer unspent rewards to treasury
+            // transfer unspent rewards to treasury, except for
+            // those that were distributed but not claimed yet
             let treasury_account_id = T::TreasuryAccountId::get();
             let pool_account_id = Self::pool_account_id(&pool_currency_id);
             T::MultiCurrency::transfer(
                 reward_currency_id,
                 &pool_account_id,
                 &treasury_account_id,
-                T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id),
+                T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id)
+                    .min(Self::total_rewards(&pool_currency_id, &reward_currency_id)),
             )?;
 
             RewardSchedules::<T>::remove(pool_currency_id, reward_currency_id);
-- 
2.43.0


From 672adad004f551f8ae5f2064a18281bf5758e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 14/19] fix: average two oracle values without overflow

---
 crates/oracle/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/oracle/src/lib.rs b/crates/oracle/src/lib.rs
index 3af135e..7d1aeb4 100644
--- a/crates/oracle/src/lib.rs
+++ b/crates/oracle/src/lib.rs
@@ -352,10 +352,11 @@ impl<T: Config> Pallet<T> {
                 // even number - get avg of 2 values
                 let value_1 = raw_values.get(mid_index.checked_sub(1)?)?;
                 let value_2 = raw_values.get(mid_index)?;
-                let value = value_1
-                    .checked_add(&value_2)?
+                // average as `value_1 + (value_2 - value_1) / 2`, the sum of the two could overflow
+                let half_difference = value_2
+                    .checked_sub(&value_1)?
                     .checked_div(&UnsignedFixedPoint::<T>::from(2u32.into()))?;
-                Some(value)
+                value_1.checked_add(&half_difference)
             }
             _ => Some(*raw_values.get(mid_index)?),
         }
-- 
2.43.0


From 6452a70c775715cfe7846c2c4d2e2cae7d4dc8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 15/19] fix: validate the new reserved factor when updating a
 lending market

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index e1f4d83..2c76bbe 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -775,7 +775,7 @@ pub mod pallet {
                 Error::<T>::InvalidFactor
             );
             ensure!(
-                market.liquidate_incentive_reserved_factor < Ratio::one(),
+                liquidate_incentive_reserved_factor < Ratio::one(),
                 Error::<T>::InvalidFactor,
             );
             ensure!(supply_cap > Zero::zero(), Error::<T>::InvalidSupplyCap);
-- 
2.43.0


From 67cdf24344d3f8d24bfe2bcd7a31ad154b70b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 16/19] fix: charge pending interest before valuing a
 borrower's debt

---
 crates/loans/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 2c76bbe..8d27b96 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1312,10 +1312,12 @@ impl<T: Config> Pallet<T> {
     fn total_borrowed_value(borrower: &T::AccountId) -> Result<Amount<T>, DispatchError> {
         let mut total_borrow_value = Amount::<T>::zero(T::ReferenceAssetId::get());
         for (asset_id, _) in Self::active_markets() {
-            let borrow = Self::current_borrow_balance(borrower, asset_id)?;
-            if borrow.is_zero() {
+            if Self::current_borrow_balance(borrower, asset_id)?.is_zero() {
                 continue;
             }
+            // the debt must include the interest up to now
+            Self::accrue_interest(asset_id)?;
+            let borrow = Self::current_borrow_balance(borrower, asset_id)?;
             let value = Self::get_asset_value(&borrow)?;
             total_borrow_value.checked_accrue(&value)?;
         }
-- 
2.43.0


From 57e34481ae7df5b0febe2bdbc7e06ed932b888d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 17/19] fix: settle the borrower's incentives when their debt
 is liquidated

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 8d27b96..0a6d5b6 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1597,7 +1597,7 @@ impl<T: Config> Pallet<T> {
 
         // update borrow index after accrue interest.
         Self::update_reward_borrow_index(liquidation_asset_id)?;
-        Self::distribute_borrower_reward(liquidation_asset_id, liquidator)?;
+        Self::distribute_borrower_reward(liquidation_asset_id, borrower)?;
 
         // 1.liquidator repays borrower's debt,
         // transfer from liquidator to module account
-- 
2.43.0


From b3db4968640d3063646745e5b499cdcc89192671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 18/19] fix: allow for rounding when liquidated debt leaves the
 total

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 0a6d5b6..c194953 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1606,7 +1606,7 @@ impl<T: Config> Pallet<T> {
         // 2.the system reduces borrower's debt
         let account_borrows_new =
             Self::current_borrow_balance(borrower, liquidation_asset_id)?.checked_sub(&repayment)?;
-        let total_borrows_new = Self::total_borrows(liquidation_asset_id).checked_sub(&repayment)?;
+        let total_borrows_new = Self::total_borrows(liquidation_asset_id).saturating_sub(&repayment)?;
         AccountBorrows::<T>::insert(
             liquidation_asset_id,
             borrower,
-- 
2.43.0


From 842cfd9424a67cd2c5a1d681a820d7c76c1e782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 19/19] fix: require a jump utilization in a lending rate model

---
 crates/loans/src/rate_model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/loans/src/rate_model.rs b/crates/loans/src/rate_model.rs
index 80af6aa..4a7d028 100644
--- a/crates/loans/src/rate_model.rs
+++ b/crates/loans/src/rate_model.rs
@@ -137,6 +137,10 @@ impl JumpModel {
         if self.base_rate > self.jump_rate || self.jump_rate > self.full_rate {
             return false;
         }
+        // the rate up to the jump is undefined without it
+        if self.jump_utilization.is_zero() {
+            return false;
+        }
 
         true
     }
-- 
2.43.0

