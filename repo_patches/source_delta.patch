From c0057586580685ae374bcc72da099ee7555e0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 1/8] fix: price swaps with the exact floor of the constant
 product formula

Flooring the kept reserve K / (R_A + A) at 18 digits let the output round up,
so a large offer could lower K or drain the asked reserve completely, and
K * 10^18 overflowed for large reserves so that every swap aborted.
---
 contracts/halo-pair/src/contract.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index dfa45cb..dbff5a3 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -608,13 +608,9 @@ fn compute_swap(
     // hoanm: EQUATION - B = (R_B - \frac{K}{R_A + A}) * (1 - F)
     // ask_amount = (ask_pool - cp / (offer_pool + offer_amount)) * (1 - commission_rate)
 
-    // cp (constant product) is K  in the EQUATION
-    let cp: Uint256 = offer_pool * ask_pool;
-
-    // calculate the ask_amount without commission
-    let return_amount: Uint256 = (Decimal256::from_uint256(ask_pool)
-        - Decimal256::from_ratio(cp, offer_pool + offer_amount))
-        * Uint256::one();
+    // calculate the ask_amount without commission, rounded down so that K never decreases
+    // R_B - \frac{K}{R_A + A} == \frac{A * R_B}{R_A + A}
+    let return_amount: Uint256 = offer_amount.multiply_ratio(ask_pool, offer_pool + offer_amount);
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-- 
2.43.0


From a3ac9eb8cc8b7e9b2a8dc5736a5dbdc49b2e8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 2/8] fix: report the spread of large or unbalanced swaps
 instead of aborting

The pool price truncated to 18 digits made the ideal return fall below the
actual one, so that the subtraction aborted the swap or understated the spread
that max_spread is checked against.
---
 contracts/halo-pair/src/contract.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index dbff5a3..c5e47a5 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -614,8 +614,16 @@ fn compute_swap(
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-    let spread_amount: Uint256 =
-        (offer_amount * Decimal256::from_ratio(ask_pool, offer_pool)) - return_amount;
+    let ideal_amount: Uint256 = offer_amount * Decimal256::from_ratio(ask_pool, offer_pool);
+    // the 18 digits of the price are not enough for large amounts or unbalanced pools
+    let exact_amount: Uint256 = offer_amount.multiply_ratio(ask_pool, offer_pool);
+    let spread_amount: Uint256 = if exact_amount > ideal_amount + Uint256::one() {
+        exact_amount - return_amount
+    } else if ideal_amount > return_amount {
+        ideal_amount - return_amount
+    } else {
+        Uint256::zero()
+    };
 
     // calculate the commission_amount
     let commission_amount: Uint256 = return_amount * commission_rate;
-- 
2.43.0


From 7267f11ca980aa3c334c263e7367374b88792523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 3/8] fix: accept first deposits whose product exceeds 128 bits

The geometric mean was computed in u128, so that the first provision of e.g.
20 tokens of 18 decimals on each side panicked.
---
 contracts/halo-pair/src/contract.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index c5e47a5..bd5a472 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -6,7 +6,7 @@ use cosmwasm_std::entry_point;
 
 use cosmwasm_std::{
     from_binary, to_binary, Addr, Binary, CanonicalAddr, Coin, CosmosMsg, Decimal, Deps, DepsMut,
-    Env, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128, WasmMsg,
+    Env, Isqrt, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128, WasmMsg,
 };
 
 use bignumber::{Decimal256, Uint256};
@@ -20,7 +20,6 @@ use haloswap::pair::{
 };
 use haloswap::querier::query_token_info;
 use haloswap::token::InstantiateMsg as TokenInstantiateMsg;
-use integer_sqrt::IntegerSquareRoot;
 use std::cmp::Ordering;
 use std::str::FromStr;
 
@@ -294,7 +293,7 @@ pub fn provide_liquidity(
 
         // if the total supply of the LP token is zero, Initial share = collateral amount
         // hoanm: EQUATION - LP = \sqrt{A * B}
-        Uint128::from((deposits[0].u128() * deposits[1].u128()).integer_sqrt())
+        Uint128::try_from(deposits[0].full_mul(deposits[1]).isqrt()).map_err(StdError::from)?
     } else {
         // hoanm: update these equations by using the formula of Uniswap V2
         // min(1, 2)
-- 
2.43.0


From 6a0e7fff1df99cbb47f1fd53b4c0a008d318b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 4/8] fix: accept a slippage tolerance on the first deposit

The ratio of the empty reserves divided by zero, so that a first provision with
a slippage tolerance always panicked.
---
 contracts/halo-pair/src/contract.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index bd5a472..18a1f02 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -263,15 +263,15 @@ pub fn provide_liquidity(
         }
     }
 
-    // if the user provides the slippage tolerance, we should check it
-    assert_slippage_tolerance(&slippage_tolerance, &deposits, &pools)?;
-
     // get the address of the LP token
     let liquidity_token = deps.api.addr_humanize(&pair_info.liquidity_token)?;
 
     // get total supply of the LP token
     let total_share = query_token_info(&deps.querier, liquidity_token)?.total_supply;
 
+    // if the user provides the slippage tolerance, we should check it
+    assert_slippage_tolerance(&slippage_tolerance, &deposits, &pools, total_share)?;
+
     // calculate the amount of LP token is minted to the user
     let share = if total_share == Uint128::zero() {
         // when pool is empty
@@ -767,6 +767,7 @@ fn assert_slippage_tolerance(
     slippage_tolerance: &Option<Decimal>,
     deposits: &[Uint128; 2],
     pools: &[Asset; 2],
+    total_share: Uint128,
 ) -> Result<(), ContractError> {
     if let Some(slippage_tolerance) = *slippage_tolerance {
         let slippage_tolerance: Decimal256 = slippage_tolerance.into();
@@ -775,6 +776,11 @@ fn assert_slippage_tolerance(
             return Err(StdError::generic_err("slippage_tolerance cannot bigger than 1").into());
         }
 
+        // the first provision sets the price, there is none to deviate from yet
+        if total_share.is_zero() {
+            return Ok(());
+        }
+
         let one_minus_slippage_tolerance = Decimal256::one() - slippage_tolerance;
         let deposits: [Uint256; 2] = [deposits[0].into(), deposits[1].into()];
         let pools: [Uint256; 2] = [pools[0].amount.into(), pools[1].amount.into()];
-- 
2.43.0


From a0793981c106b90361e86de288961506a9090042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 5/8] fix: refuse pairing a token with itself under another
 spelling

The check compared the given strings, so that the same contract address written
in another case passed it.
---
 contracts/halo-factory/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/halo-factory/src/contract.rs b/contracts/halo-factory/src/contract.rs
index 2b2e98a..1601bd3 100644
--- a/contracts/halo-factory/src/contract.rs
+++ b/contracts/halo-factory/src/contract.rs
@@ -133,6 +133,11 @@ pub fn execute_create_pair(
         asset_infos[1].to_raw(deps.api)?,
     ];
 
+    // the same token may be written in different ways
+    if raw_infos[0] == raw_infos[1] {
+        return Err(StdError::generic_err("same asset"));
+    }
+
     let asset_decimals = [asset_1_decimal, asset_2_decimal];
 
     let pair_key = pair_key(&raw_infos);
-- 
2.43.0


From eda3aa84ddabb1007c97265bfcbb6cbf89887a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 6/8] fix: do not answer a pair lookup with the pair of other
 assets

---
 contracts/halo-factory/src/contract.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-factory/src/contract.rs b/contracts/halo-factory/src/contract.rs
index 1601bd3..4f59e00 100644
--- a/contracts/halo-factory/src/contract.rs
+++ b/contracts/halo-factory/src/contract.rs
@@ -292,11 +292,19 @@ pub fn query_config(deps: Deps) -> StdResult<ConfigResponse> {
 }
 
 pub fn query_pair(deps: Deps, asset_infos: [AssetInfo; 2]) -> StdResult<PairInfo> {
-    let pair_key = pair_key(&[
+    let raw_infos = [
         asset_infos[0].to_raw(deps.api)?,
         asset_infos[1].to_raw(deps.api)?,
-    ]);
-    let pair_info: PairInfoRaw = PAIRS.load(deps.storage, &pair_key)?;
+    ];
+    let pair_info: PairInfoRaw = PAIRS.load(deps.storage, &pair_key(&raw_infos))?;
+
+    // the names of different assets may run together into the same key
+    let [first, second] = &pair_info.asset_infos;
+    if raw_infos != [first.clone(), second.clone()] && raw_infos != [second.clone(), first.clone()]
+    {
+        return Err(StdError::not_found("pair of these assets"));
+    }
+
     pair_info.to_normal(deps.api)
 }
 
-- 
2.43.0


From f76d4b58a536c4bc4f352a34d33c170717fe172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 7/8] fix: count a token and a native coin of the same name as
 two route outputs

---
 contracts/halo-router/src/contract.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-router/src/contract.rs b/contracts/halo-router/src/contract.rs
index 3e430d2..39df5de 100644
--- a/contracts/halo-router/src/contract.rs
+++ b/contracts/halo-router/src/contract.rs
@@ -334,7 +334,8 @@ fn reverse_simulate_return_amount(
 }
 
 fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
-    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();
+    // a token and a native coin may have the same name
+    let mut ask_asset_map: HashMap<(bool, String), bool> = HashMap::new();
     for operation in operations.iter() {
         let (offer_asset, ask_asset) = match operation {
             SwapOperation::HaloSwap {
@@ -343,8 +344,8 @@ fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
             } => (offer_asset_info.clone(), ask_asset_info.clone()),
         };
 
-        ask_asset_map.remove(&offer_asset.to_string());
-        ask_asset_map.insert(ask_asset.to_string(), true);
+        ask_asset_map.remove(&(offer_asset.is_native_token(), offer_asset.to_string()));
+        ask_asset_map.insert((ask_asset.is_native_token(), ask_asset.to_string()), true);
     }
 
     if ask_asset_map.keys().len() != 1 {
-- 
2.43.0


From 81aa93a6e2e8662f34737482116bc3786abb4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 8/8] fix: do not abort swaps on the decimals of their assets

---
 contracts/halo-pair/src/contract.rs | 42 +++++++++++++----------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index 18a1f02..9dcab16 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -702,39 +702,35 @@ pub fn assert_max_spread(
     offer_decimal: u8,
     return_decimal: u8,
 ) -> Result<(), ContractError> {
+    // without a maximum spread there is nothing to compare
+    if max_spread.is_none() {
+        return Ok(());
+    }
+
+    // amounts brought to the same decimals may take more than 128 bits
+    let pow10 = |exp: u8| (0..exp).fold(Uint256::one(), |p, _| p * Uint256::from(10u64));
+    let (offer_amount, return_amount, spread_amount): (Uint256, Uint256, Uint256) = (
+        offer_asset.amount.into(),
+        return_asset.amount.into(),
+        spread_amount.into(),
+    );
     let (offer_amount, return_amount, spread_amount): (Uint256, Uint256, Uint256) =
         match offer_decimal.cmp(&return_decimal) {
             Ordering::Greater => {
-                let diff_decimal = 10u64.pow((offer_decimal - return_decimal).into());
+                let diff_decimal = pow10(offer_decimal - return_decimal);
 
                 (
-                    offer_asset.amount.into(),
-                    return_asset
-                        .amount
-                        .checked_mul(Uint128::from(diff_decimal))?
-                        .into(),
-                    spread_amount
-                        .checked_mul(Uint128::from(diff_decimal))?
-                        .into(),
+                    offer_amount,
+                    return_amount * diff_decimal,
+                    spread_amount * diff_decimal,
                 )
             }
             Ordering::Less => {
-                let diff_decimal = 10u64.pow((return_decimal - offer_decimal).into());
+                let diff_decimal = pow10(return_decimal - offer_decimal);
 
-                (
-                    offer_asset
-                        .amount
-                        .checked_mul(Uint128::from(diff_decimal))?
-                        .into(),
-                    return_asset.amount.into(),
-                    spread_amount.into(),
-                )
+                (offer_amount * diff_decimal, return_amount, spread_amount)
             }
-            Ordering::Equal => (
-                offer_asset.amount.into(),
-                return_asset.amount.into(),
-                spread_amount.into(),
-            ),
+            Ordering::Equal => (offer_amount, return_amount, spread_amount),
         };
 
     if let (Some(max_spread), Some(belief_price)) = (max_spread, belief_price) {
-- 
2.43.0

