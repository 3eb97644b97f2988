From 9ab500cd3c82110e4155f73b8fa010383915bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:01 +0000
Subject: [PATCH 1/7] fix: burning as an approved spender burns the named
 position, not the spender's own

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 93222dc..b04dad4 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -768,8 +768,14 @@ pub fn handle_burn(
     let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
     check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;
 
+    // burn the position named by the token id on behalf of its owner, who gets the proceeds
+    let info = MessageInfo {
+        sender: Addr::unchecked(String::from_utf8(owner_raw.to_vec())?),
+        ..info
+    };
+
     // remain action to help sync backend
-    remove_position(deps, env, info.clone(), index)
+    remove_position(deps, env, info, index)
 }
 
 pub fn handle_send_nft(
-- 
2.43.0


From 4f9f0a3b95ea6df22c0bae129fb502e082f681c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:01 +0000
Subject: [PATCH 2/7] fix: coins attached to a swap route pay for one hop only

---
 contracts/oraiswap-v3/src/entrypoints/common.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/common.rs b/contracts/oraiswap-v3/src/entrypoints/common.rs
index 3edce64..ff390ba 100644
--- a/contracts/oraiswap-v3/src/entrypoints/common.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/common.rs
@@ -245,6 +245,7 @@ pub fn swap_route_internal(
     swaps: Vec<SwapHop>,
 ) -> Result<TokenAmount, ContractError> {
     let mut next_swap_amount = amount_in;
+    let mut info = info.clone();
 
     let current_timestamp = env.block.time.millis();
 
@@ -258,7 +259,7 @@ pub fn swap_route_internal(
         next_swap_amount = swap_internal(
             store,
             api,
-            info,
+            &info,
             msgs,
             &env.contract.address,
             current_timestamp,
@@ -269,6 +270,14 @@ pub fn swap_route_internal(
             sqrt_price_limit,
         )?
         .amount_out;
+
+        // coins attached for this hop are spent (or already refunded), they can not pay for a later hop
+        let token_in = if swap_hop.x_to_y {
+            &swap_hop.pool_key.token_x
+        } else {
+            &swap_hop.pool_key.token_y
+        };
+        info.funds.retain(|coin| coin.denom.ne(token_in));
     }
 
     Ok(next_swap_amount)
-- 
2.43.0


From 5d27627ce0baa4cef0a92628db64e26dc3b2d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:01 +0000
Subject: [PATCH 3/7] fix: adding a fee tier that already exists fails, as
 documented

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 4 ++++
 contracts/oraiswap-v3/src/error.rs               | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index b04dad4..13362f7 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -625,6 +625,10 @@ pub fn add_fee_tier(
         return Err(ContractError::InvalidFee);
     }
 
+    if config.fee_tiers.contains(&fee_tier) {
+        return Err(ContractError::FeeTierAlreadyExist);
+    }
+
     config.fee_tiers.push(fee_tier);
 
     CONFIG.save(deps.storage, &config)?;
diff --git a/contracts/oraiswap-v3/src/error.rs b/contracts/oraiswap-v3/src/error.rs
index 80742a3..792a9ea 100644
--- a/contracts/oraiswap-v3/src/error.rs
+++ b/contracts/oraiswap-v3/src/error.rs
@@ -191,6 +191,9 @@ pub enum ContractError {
     #[error("FeeTierNotFound")]
     FeeTierNotFound,
 
+    #[error("fee tier already exist")]
+    FeeTierAlreadyExist,
+
     #[error("NotEmptyTickDeinitialization")]
     NotEmptyTickDeinitialization,
 }
-- 
2.43.0


From 91d92e6559fd21125dbf855dc98ee910630dfa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:01 +0000
Subject: [PATCH 4/7] fix: position listings return at most the maximum page
 size and do not overflow

---
 contracts/oraiswap-v3/src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index aa4294c..f5ca675 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -214,7 +214,7 @@ pub fn get_all_positions(
 ) -> Result<Vec<Position>, ContractError> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id).min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT).min(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| get_position(store, account_id, index))
         .collect()
@@ -228,7 +228,7 @@ pub fn get_all_position_keys(
 ) -> Vec<Vec<u8>> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id).min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT).min(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| position_key(account_id, index))
         .collect()
-- 
2.43.0


From 87ae18a8c90462d299113e6785a40da5b153f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:01 +0000
Subject: [PATCH 5/7] fix: counting initialized ticks over a whole chunk does
 not overflow

---
 contracts/oraiswap-v3/src/entrypoints/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/query.rs b/contracts/oraiswap-v3/src/entrypoints/query.rs
index 83f81b9..e4a5a77 100644
--- a/contracts/oraiswap-v3/src/entrypoints/query.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/query.rs
@@ -308,7 +308,7 @@ pub fn get_liquidity_ticks_amount(
     let (max_chunk_index, max_bit) = tick_to_position(upper_tick, tick_spacing);
 
     let active_bits_in_range = |chunk, min_bit, max_bit| {
-        let range: u64 = (chunk >> min_bit) & ((1u64 << (max_bit - min_bit + 1)) - 1);
+        let range: u64 = (chunk >> min_bit) & (u64::MAX >> (CHUNK_SIZE as u8 - 1 - (max_bit - min_bit)));
         range.count_ones()
     };
 
-- 
2.43.0


From 049517c0aa9024313ec3393aa620b8c80cc218b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:01 +0000
Subject: [PATCH 6/7] fix: attached native coins are refunded when none of them
 are required

---
 contracts/oraiswap-v3/src/interface.rs | 58 ++++++++++++--------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/contracts/oraiswap-v3/src/interface.rs b/contracts/oraiswap-v3/src/interface.rs
index 4f4f8bd..b9211a5 100644
--- a/contracts/oraiswap-v3/src/interface.rs
+++ b/contracts/oraiswap-v3/src/interface.rs
@@ -95,9 +95,9 @@ impl Asset {
         info: &MessageInfo,
         recipient: String,
     ) -> Result<(), ContractError> {
-        if !self.amount.is_zero() {
-            match &self.info {
-                AssetInfo::Token { contract_addr } => {
+        match &self.info {
+            AssetInfo::Token { contract_addr } => {
+                if !self.amount.is_zero() {
                     msgs.push(
                         WasmMsg::Execute {
                             contract_addr: contract_addr.to_string(),
@@ -111,36 +111,30 @@ impl Asset {
                         .into(),
                     );
                 }
-                AssetInfo::NativeToken { denom } => {
-                    match info.funds.iter().find(|x| x.denom.eq(denom)) {
-                        Some(coin) => {
-                            if coin.amount >= self.amount {
-                                let refund_amount = coin.amount - self.amount;
-                                // refund for user
-                                if !refund_amount.is_zero() {
-                                    msgs.push(
-                                        BankMsg::Send {
-                                            to_address: info.sender.to_string(),
-                                            amount: vec![Coin {
-                                                amount: refund_amount,
-                                                denom: denom.to_string(),
-                                            }],
-                                        }
-                                        .into(),
-                                    )
-                                }
-                            } else {
-                                return Err(ContractError::InvalidFunds {
-                                    transfer_amount: self.amount,
-                                });
-                            }
-                        }
-                        None => {
-                            return Err(ContractError::InvalidFunds {
-                                transfer_amount: self.amount,
-                            });
+            }
+            AssetInfo::NativeToken { denom } => {
+                let attached = match info.funds.iter().find(|x| x.denom.eq(denom)) {
+                    Some(coin) => coin.amount,
+                    None => Uint128::zero(),
+                };
+                if attached < self.amount {
+                    return Err(ContractError::InvalidFunds {
+                        transfer_amount: self.amount,
+                    });
+                }
+                // refund for user
+                let refund_amount = attached - self.amount;
+                if !refund_amount.is_zero() {
+                    msgs.push(
+                        BankMsg::Send {
+                            to_address: info.sender.to_string(),
+                            amount: vec![Coin {
+                                amount: refund_amount,
+                                denom: denom.to_string(),
+                            }],
                         }
-                    }
+                        .into(),
+                    )
                 }
             }
         }
-- 
2.43.0


From ea2dc203fd7d6b9db337964fd5910de436901377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:24 +0000
Subject: [PATCH 7/7] fix: round the x amount up before dividing when rounding
 up

The rounded-up x amount first rounded price difference times liquidity down,
so the amount collected could fall below the exact amount (prices 1 and
101.999899000100999899000101, liquidity 1.009901: exact 1 + 1e-32, collected 1).
---
 contracts/oraiswap-v3/src/math/clamm.rs | 5 ++---
 wasm/clamm.rs                           | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/contracts/oraiswap-v3/src/math/clamm.rs b/contracts/oraiswap-v3/src/math/clamm.rs
index 2b90b35..e8d6221 100644
--- a/contracts/oraiswap-v3/src/math/clamm.rs
+++ b/contracts/oraiswap-v3/src/math/clamm.rs
@@ -116,15 +116,14 @@ pub fn get_delta_x(
     } else {
         sqrt_price_b - sqrt_price_a
     };
-    let nominator = delta_price.big_mul_to_value(liquidity);
 
     match rounding_up {
         true => SqrtPrice::big_div_values_to_token_up(
-            nominator,
+            delta_price.big_mul_to_value_up(liquidity),
             sqrt_price_a.big_mul_to_value(sqrt_price_b),
         ),
         false => SqrtPrice::big_div_values_to_token(
-            nominator,
+            delta_price.big_mul_to_value(liquidity),
             sqrt_price_a.big_mul_to_value_up(sqrt_price_b),
         ),
     }
diff --git a/wasm/clamm.rs b/wasm/clamm.rs
index 034db07..3cfae58 100644
--- a/wasm/clamm.rs
+++ b/wasm/clamm.rs
@@ -154,15 +154,14 @@ pub fn get_delta_x(
     } else {
         sqrt_price_b - sqrt_price_a
     };
-    let nominator = delta_price.big_mul_to_value(liquidity);
 
     ok_or_mark_trace!(match rounding_up {
         true => SqrtPrice::big_div_values_to_token_up(
-            nominator,
+            delta_price.big_mul_to_value_up(liquidity),
             sqrt_price_a.big_mul_to_value(sqrt_price_b),
         ),
         false => SqrtPrice::big_div_values_to_token(
-            nominator,
+            delta_price.big_mul_to_value(liquidity),
             sqrt_price_a.big_mul_to_value_up(sqrt_price_b),
         ),
     })
-- 
2.43.0

