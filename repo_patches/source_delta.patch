From 2461791b568b99edfc7f071c75416714d3352518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 01/17] fix: cross an initialised tick when an upward swap ends
 exactly on it at the price limit

---
 sdk/src/wasm/collections/tickmap.rs  | 2 +-
 src/contracts/collections/tickmap.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/collections/tickmap.rs b/sdk/src/wasm/collections/tickmap.rs
index 3841b9e..8427671 100644
--- a/sdk/src/wasm/collections/tickmap.rs
+++ b/sdk/src/wasm/collections/tickmap.rs
@@ -259,7 +259,7 @@ impl Tickmap {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
diff --git a/src/contracts/collections/tickmap.rs b/src/contracts/collections/tickmap.rs
index c0cfbae..7653ec7 100644
--- a/src/contracts/collections/tickmap.rs
+++ b/src/contracts/collections/tickmap.rs
@@ -196,7 +196,7 @@ impl Tickmap {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
-- 
2.43.0


From 195303dd4032af17b7f77038e9a8dd093f895427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 02/17] fix: count initialised ticks of the last tickmap chunk

---
 src/invariant_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index a38a977..74fa58a 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -307,7 +307,7 @@ impl Invariant {
 
     pub fn liquidity_ticks_count(&self, pool_key: PoolKey) -> u32 {
         let mut sum = 0;
-        for chunk_index in 0..get_max_chunk(pool_key.fee_tier.tick_spacing) {
+        for chunk_index in 0..=get_max_chunk(pool_key.fee_tier.tick_spacing) {
             if let Some(chunk) = self.tickmap.bitmap.get(&(chunk_index, pool_key)) {
                 sum += chunk.count_ones()
             }
-- 
2.43.0


From b9cbb3d6ea8b8d6cdcbf49f5316b16f162d0884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 03/17] fix: reject downcasts to u8, u16 and u32 when a higher
 limb is set

---
 calc/decimal/decimal_core/src/uint_casts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calc/decimal/decimal_core/src/uint_casts.rs b/calc/decimal/decimal_core/src/uint_casts.rs
index 191dcf7..b1c9064 100644
--- a/calc/decimal/decimal_core/src/uint_casts.rs
+++ b/calc/decimal/decimal_core/src/uint_casts.rs
@@ -253,7 +253,7 @@ pub fn impl_primitive_casts(
             expanded.append_all(quote! {
               impl #checked_cast_trait_name <#uint> for #primitive {
                 fn #checked_cast_function_name(#param_name: #uint)-> Result<#primitive, String> {
-                  if #param_name.0[0] > #primitive::MAX as u64 {
+                  if #param_name > #uint::from(#primitive::MAX) {
                     return Err(#down_cast_error.to_string());
                   }
 
-- 
2.43.0


From 084b2f10fa5487088a553c35f5ca0eca311169b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 04/17] fix: keep the tick below a just crossed one when the
 next downward step leaves the price unchanged

---
 sdk/src/wasm/storage/pool.rs  | 8 +++++++-
 src/contracts/storage/pool.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/storage/pool.rs b/sdk/src/wasm/storage/pool.rs
index d081737..d49f3d0 100644
--- a/sdk/src/wasm/storage/pool.rs
+++ b/sdk/src/wasm/storage/pool.rs
@@ -50,11 +50,17 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing as u16
             )) as i64;
 
+            // A downward step too small to move the price away from the tick crossed
+            // just before it must not bring that tick back into range
+            if !x_to_y || tick_index < self.current_tick_index {
+                self.current_tick_index = tick_index;
+            }
+
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index f8ecacf..f0b26bf 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -156,11 +156,17 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing
             ));
 
+            // A downward step too small to move the price away from the tick crossed
+            // just before it must not bring that tick back into range
+            if !x_to_y || tick_index < self.current_tick_index {
+                self.current_tick_index = tick_index;
+            }
+
             return (total_amount, remaining_amount, has_crossed);
         };
 
-- 
2.43.0


From 5cd73202cad5108b230486824945192635b34e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 05/17] fix: never pass the target price in a swap step whose
 input the coarse rounding calls too small

---
 calc/math/clamm.rs    | 11 ++++++++++-
 sdk/src/wasm/clamm.rs | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 3eacc5a..2696ee3 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -48,12 +48,21 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
+            let sqrt_price_from_input = ok_or_mark_trace!(get_next_sqrt_price_from_input(
                 current_sqrt_price,
                 liquidity,
                 amount_after_fee,
                 x_to_y,
             ))?;
+
+            // amount_in is rounded up coarsely at low prices, so a smaller amount
+            // may already be enough to reach the target, which must not be passed
+            if x_to_y && sqrt_price_from_input <= target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            } else {
+                next_sqrt_price = sqrt_price_from_input;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 92e7278..091d130 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -77,12 +77,21 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
+            let sqrt_price_from_input = ok_or_mark_trace!(get_next_sqrt_price_from_input(
                 current_sqrt_price,
                 liquidity,
                 amount_after_fee,
                 x_to_y,
             ))?;
+
+            // amount_in is rounded up coarsely at low prices, so a smaller amount
+            // may already be enough to reach the target, which must not be passed
+            if x_to_y && sqrt_price_from_input <= target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            } else {
+                next_sqrt_price = sqrt_price_from_input;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
-- 
2.43.0


From 59cf05e63f7dee192c338296bc07e5683704a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 06/17] fix: refund a withdrawal whenever the token's reply is
 an error, whatever its payload

---
 src/invariant_service.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index 84828a8..93425b9 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -1223,8 +1223,11 @@ fn reply_with_err_and_leave(err: InvariantError) {
 
 pub fn reply_handler(token: ActorId, msg_id: MessageId) {
     let invariant = InvariantStorage::as_mut();
+    // the token failed, so nothing was transferred, whatever text the runtime put into the reply
+    if msg::reply_code().map_or(false, |code| code.is_error()) {
+        handle_panic(invariant, token, msg_id)
     // message is a valid reply
-    if let Ok(msg) = msg::load::<(String, String, bool)>() {
+    } else if let Ok(msg) = msg::load::<(String, String, bool)>() {
         if msg.0 == "Vft" && msg.1 == "TransferFrom" {
             handle_valid_reply(invariant, token, msg_id, msg.2)
         } else {
-- 
2.43.0


From 63c9febaf91c2e5e02fa42bb2811ebda29b2df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 07/17] fix: reject tick i32::MIN in calculate_sqrt_price

The absolute value of i32::MIN wraps in release builds, so the bound check let it pass and the price of tick 0 was returned.
---
 calc/math/types/sqrt_price.rs    | 4 ++--
 sdk/src/wasm/types/sqrt_price.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/calc/math/types/sqrt_price.rs b/calc/math/types/sqrt_price.rs
index 6dcb2a1..959d264 100644
--- a/calc/math/types/sqrt_price.rs
+++ b/calc/math/types/sqrt_price.rs
@@ -145,9 +145,9 @@ pub fn check_tick_to_sqrt_price_relationship(
 
 pub fn calculate_sqrt_price(tick_index: i32) -> TrackableResult<SqrtPrice> {
     // checking if tick be converted to sqrt_price (overflows if more)
-    let tick = tick_index.abs();
+    let tick = tick_index.unsigned_abs();
 
-    if tick > MAX_TICK {
+    if tick > MAX_TICK as u32 {
         return Err(err!("tick over bounds"));
     }
 
diff --git a/sdk/src/wasm/types/sqrt_price.rs b/sdk/src/wasm/types/sqrt_price.rs
index 5bb9833..64f69cf 100644
--- a/sdk/src/wasm/types/sqrt_price.rs
+++ b/sdk/src/wasm/types/sqrt_price.rs
@@ -132,9 +132,9 @@ impl SqrtPrice {
 #[wasm_wrapper("_calculateSqrtPrice")]
 pub fn calculate_sqrt_price(tick_index: i32) -> TrackableResult<SqrtPrice> {
     // checking if tick be converted to sqrt_price (overflows if more)
-    let tick = tick_index.abs();
+    let tick = tick_index.unsigned_abs();
 
-    if tick > MAX_TICK {
+    if tick > MAX_TICK as u32 {
         return Err(err!("tick over bounds"));
     }
 
-- 
2.43.0


From 98c06f62f36f66b254fb52ad37fd9b969cbb85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 08/17] fix: estimate the second token of a deposit with the
 deposit's own arithmetic

calculate_y dropped the fraction of the liquidity and calculate_x rounded an already rounded intermediate, so with rounding_up the reported amount could be less than the deposit takes.
---
 sdk/src/wasm/math.rs                    | 60 ++++++-------------------
 src/contracts/logic/liquidity_result.rs | 60 ++++++-------------------
 2 files changed, 26 insertions(+), 94 deletions(-)

diff --git a/sdk/src/wasm/math.rs b/sdk/src/wasm/math.rs
index 98c1011..eb5dd7d 100644
--- a/sdk/src/wasm/math.rs
+++ b/sdk/src/wasm/math.rs
@@ -1,4 +1,5 @@
 use crate::{
+    clamm::{get_delta_x, get_delta_y},
     liquidity::Liquidity,
     sqrt_price::{calculate_sqrt_price, SqrtPrice},
     token_amount::TokenAmount,
@@ -93,8 +94,12 @@ pub fn get_liquidity_by_x_sqrt_price(
         .map_err(|_| err!("Overflow in calculating liquidity"))?,
     );
 
-    let sqrt_price_diff = current_sqrt_price - lower_sqrt_price;
-    let y = calculate_y(sqrt_price_diff, liquidity, rounding_up)?;
+    let y = ok_or_mark_trace!(get_delta_y(
+        current_sqrt_price,
+        lower_sqrt_price,
+        liquidity,
+        rounding_up
+    ))?;
     Ok(SingleTokenLiquidity {
         l: liquidity,
         amount: y,
@@ -164,54 +169,15 @@ pub fn get_liquidity_by_y_sqrt_price(
         )
         .map_err(|_| err!("Overflow in calculating liquidity"))?,
     );
-    let denominator =
-        (current_sqrt_price.big_mul(upper_sqrt_price)).big_div(SqrtPrice::from_integer(1));
-    let nominator = upper_sqrt_price - current_sqrt_price;
-
-    let x = calculate_x(nominator, denominator, liquidity, rounding_up)?;
+    let x = ok_or_mark_trace!(get_delta_x(
+        upper_sqrt_price,
+        current_sqrt_price,
+        liquidity,
+        rounding_up
+    ))?;
 
     Ok(SingleTokenLiquidity {
         l: liquidity,
         amount: x,
     })
 }
-
-#[allow(dead_code)]
-pub fn calculate_x(
-    nominator: SqrtPrice,
-    denominator: SqrtPrice,
-    liquidity: Liquidity,
-    rounding_up: bool,
-) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
-
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (common + Liquidity::from_integer(1).get() - U256::from(1))
-                / Liquidity::from_integer(1).get(),
-        )
-    } else {
-        TokenAmount::new(common / Liquidity::from_integer(1).get())
-    })
-}
-
-pub fn calculate_y(
-    sqrt_price_diff: SqrtPrice,
-    liquidity: Liquidity,
-    rounding_up: bool,
-) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                + SqrtPrice::from_integer(1).cast::<U256>()
-                - 1)
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
-    } else {
-        TokenAmount::new(
-            sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
-    })
-}
diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 985ce59..5d892cb 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -1,5 +1,6 @@
 extern crate alloc;
 use decimal::*;
+use math::clamm::{get_delta_x, get_delta_y};
 use math::liquidity::Liquidity;
 use math::sqrt_price::{calculate_sqrt_price, SqrtPrice};
 use math::token_amount::TokenAmount;
@@ -159,8 +160,12 @@ pub fn get_liquidity_by_x_sqrt_price(
         .map_err(|_| err!("Overflow in calculating liquidity"))?,
     );
 
-    let sqrt_price_diff = current_sqrt_price - lower_sqrt_price;
-    let y = calculate_y(sqrt_price_diff, liquidity, rounding_up)?;
+    let y = ok_or_mark_trace!(get_delta_y(
+        current_sqrt_price,
+        lower_sqrt_price,
+        liquidity,
+        rounding_up
+    ))?;
     Ok(SingleTokenLiquidity {
         l: liquidity,
         amount: y,
@@ -230,11 +235,12 @@ pub fn get_liquidity_by_y_sqrt_price(
         )
         .map_err(|_| err!("Overflow in calculating liquidity"))?,
     );
-    let denominator =
-        (current_sqrt_price.big_mul(upper_sqrt_price)).big_div(SqrtPrice::from_integer(1));
-    let nominator = upper_sqrt_price - current_sqrt_price;
-
-    let x = calculate_x(nominator, denominator, liquidity, rounding_up)?;
+    let x = ok_or_mark_trace!(get_delta_x(
+        upper_sqrt_price,
+        current_sqrt_price,
+        liquidity,
+        rounding_up
+    ))?;
 
     Ok(SingleTokenLiquidity {
         l: liquidity,
@@ -242,46 +248,6 @@ pub fn get_liquidity_by_y_sqrt_price(
     })
 }
 
-#[allow(dead_code)]
-pub fn calculate_x(
-    nominator: SqrtPrice,
-    denominator: SqrtPrice,
-    liquidity: Liquidity,
-    rounding_up: bool,
-) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
-
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (common + Liquidity::from_integer(1).get() - U256::from(1))
-                / Liquidity::from_integer(1).get(),
-        )
-    } else {
-        TokenAmount::new(common / Liquidity::from_integer(1).get())
-    })
-}
-
-pub fn calculate_y(
-    sqrt_price_diff: SqrtPrice,
-    liquidity: Liquidity,
-    rounding_up: bool,
-) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                + SqrtPrice::from_integer(1).cast::<U256>()
-                - 1)
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
-    } else {
-        TokenAmount::new(
-            sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
-    })
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From be87580b0228c47c9febf1e5fe02547742e25ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 09/17] fix: report the amounts of the liquidity get_liquidity
 returns

In range it paired the smaller liquidity with amounts of the larger one (more than the caller offered), and it divided by zero when the price was exactly at the end of the range.
---
 src/contracts/logic/liquidity_result.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 5d892cb..e420ea8 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -36,7 +36,7 @@ pub fn get_liquidity(
     let lower_sqrt_price = ok_or_mark_trace!(calculate_sqrt_price(lower_tick))?;
     let upper_sqrt_price = ok_or_mark_trace!(calculate_sqrt_price(upper_tick))?;
 
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         // single token y
         let result_by_y = ok_or_mark_trace!(get_liquidity_by_y_sqrt_price(
             y,
@@ -50,7 +50,7 @@ pub fn get_liquidity(
             y,
             l: result_by_y.l,
         });
-    } else if current_sqrt_price < lower_sqrt_price {
+    } else if current_sqrt_price <= lower_sqrt_price {
         // single token x
         let result_by_x = ok_or_mark_trace!(get_liquidity_by_x_sqrt_price(
             x,
@@ -82,12 +82,12 @@ pub fn get_liquidity(
     Ok(if result_by_y.l < result_by_x.l {
         LiquidityResult {
             x: result_by_y.amount,
-            y: result_by_x.amount,
+            y,
             l: result_by_y.l,
         }
     } else {
         LiquidityResult {
-            x: result_by_y.amount,
+            x,
             y: result_by_x.amount,
             l: result_by_x.l,
         }
-- 
2.43.0


From 2c4b9de112beb58a1cd24b3be0a7341624e301df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 10/17] fix: never take in more than the amount after fee in a
 swap step

At prices below one the input of a step is rounded up coarsely, so with a
fee tier of zero (or a tiny fee) the amount taken in came out one unit
above the amount offered, the fee underflowed and the swap failed.
---
 calc/math/clamm.rs    | 10 +++++++---
 sdk/src/wasm/clamm.rs | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 2696ee3..0989123 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -36,9 +36,9 @@ pub fn compute_swap_step(
         TokenAmount::new(U256::from(0)),
     );
 
-    if by_amount_in {
-        let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+    let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
 
+    if by_amount_in {
         amount_in = ok_or_mark_trace!(if x_to_y {
             get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)
         } else {
@@ -59,7 +59,6 @@ pub fn compute_swap_step(
             // may already be enough to reach the target, which must not be passed
             if x_to_y && sqrt_price_from_input <= target_sqrt_price {
                 next_sqrt_price = target_sqrt_price;
-                amount_in = amount_after_fee;
             } else {
                 next_sqrt_price = sqrt_price_from_input;
             }
@@ -126,6 +125,11 @@ pub fn compute_swap_step(
         amount_out = amount;
     }
 
+    // Amount in can not exceed the amount after fee, which paid for the price reached
+    if by_amount_in && amount_in > amount_after_fee {
+        amount_in = amount_after_fee;
+    }
+
     let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {
         amount - amount_in
     } else {
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 091d130..b7ee4aa 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -65,9 +65,9 @@ pub fn compute_swap_step(
         TokenAmount::new(U256::from(0)),
     );
 
-    if by_amount_in {
-        let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+    let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
 
+    if by_amount_in {
         amount_in = ok_or_mark_trace!(if x_to_y {
             get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)
         } else {
@@ -88,7 +88,6 @@ pub fn compute_swap_step(
             // may already be enough to reach the target, which must not be passed
             if x_to_y && sqrt_price_from_input <= target_sqrt_price {
                 next_sqrt_price = target_sqrt_price;
-                amount_in = amount_after_fee;
             } else {
                 next_sqrt_price = sqrt_price_from_input;
             }
@@ -155,6 +154,11 @@ pub fn compute_swap_step(
         amount_out = amount;
     }
 
+    // Amount in can not exceed the amount after fee, which paid for the price reached
+    if by_amount_in && amount_in > amount_after_fee {
+        amount_in = amount_after_fee;
+    }
+
     let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {
         amount - amount_in
     } else {
-- 
2.43.0


From b0cf134075497561507ac77955b2b9a7b4c03369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 11/17] fix: cross a tick when the amount left exceeds what the
 liquidity before it can absorb

is_enough_amount_to_change_price fails when the remaining amount would take
the price out of its range. update_tick panicked on that, so a swap that
passed a thinly provided range on its way to a deep one was refused.
---
 src/contracts/storage/pool.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index f0b26bf..c1ace22 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -170,14 +170,17 @@ impl Pool {
             return (total_amount, remaining_amount, has_crossed);
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
+        // It fails only for an amount this liquidity cannot absorb at any price, which is
+        // more than enough to leave the tick
+        let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
             self.liquidity,
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        ));
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
-- 
2.43.0


From 72c307f3277302bc9b8334fb03d86be5466d6cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 12/17] fix: count the positions of the owner in
 getUserPositionAmount

The pool key was sent as the owner, so the query always failed.
---
 sdk/src/invariant.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/src/invariant.ts b/sdk/src/invariant.ts
index fe50b45..7282d6e 100644
--- a/sdk/src/invariant.ts
+++ b/sdk/src/invariant.ts
@@ -383,9 +383,9 @@ export class Invariant {
     return new Map(result)
   }
 
-  async getUserPositionAmount(key: PoolKey, owner: ActorId): Promise<TokenAmount> {
+  async getUserPositionAmount(owner: ActorId): Promise<TokenAmount> {
     return BigInt(
-      await this.contract.service.getUserPositionAmount(key as any, owner as any, DEFAULT_ADDRESS)
+      await this.contract.service.getUserPositionAmount(owner as any, DEFAULT_ADDRESS)
     )
   }
 
-- 
2.43.0


From 69dcd69805f50e46eb13c37897a34e805c979e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 13/17] fix: number and skip the first page of getAllPositions
 correctly

When the positions count was not given, the first fetched page was labelled 0
whatever its index, and returned although the caller asked to skip it.
---
 sdk/src/invariant.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/src/invariant.ts b/sdk/src/invariant.ts
index 7282d6e..5f2c1a2 100644
--- a/sdk/src/invariant.ts
+++ b/sdk/src/invariant.ts
@@ -227,7 +227,9 @@ export class Invariant {
         BigInt(firstPageIndex) * positionsPerPageLimit
       )
 
-      pages.push({ index: 0, entries: positionEntries })
+      if (!skipPages?.includes(firstPageIndex)) {
+        pages.push({ index: firstPageIndex, entries: positionEntries })
+      }
       actualPositionsCount = positionsCount
     }
 
-- 
2.43.0


From e555cca9b79dc9a95779807ac3f3167cadd6497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 14/17] fix: return a bigint from calculateTick

The wasm function returns a number, so using the result with other ticks threw.
---
 sdk/src/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/utils.ts b/sdk/src/utils.ts
index 261112d..cd38eb3 100644
--- a/sdk/src/utils.ts
+++ b/sdk/src/utils.ts
@@ -630,7 +630,7 @@ export const getLiquidityByY = (
 }
 
 export const calculateTick = (sqrtPrice: SqrtPrice, tickSpacing: bigint): bigint => {
-  return _calculateTick(sqrtPrice, tickSpacing)
+  return BigInt(_calculateTick(sqrtPrice, tickSpacing))
 }
 
 export const isTokenX = (token0: HexString, token1: HexString): boolean => {
-- 
2.43.0


From 926e1d5fe5ad5273cf51494a4427147424d8bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 15/17] fix: decode the index of a crossed tick to a bigint

---
 sdk/src/wasm-serializer.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/src/wasm-serializer.ts b/sdk/src/wasm-serializer.ts
index 5afebf8..433781e 100644
--- a/sdk/src/wasm-serializer.ts
+++ b/sdk/src/wasm-serializer.ts
@@ -162,6 +162,7 @@ export const decodeTick = (value: Tick) => {
 
 export const decodeLiquidityTick = (value: LiquidityTick) => {
   const newVal = copyObject(value)
+  newVal.index = BigInt(value.index)
   newVal.liquidityChange = decodeLiquidity(value.liquidityChange as any)
   return newVal
 }
-- 
2.43.0


From 5aad0ccfcd8b75226eb537f0e5979c6754e61883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 16/17] fix: use the tick of each bound in
 calculateTokenAmountsWithSlippage

The price was moved to the bounds while the tick stayed, so for a range whose
border lies within the slippage the amounts could be many times too high.
---
 sdk/src/utils.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sdk/src/utils.ts b/sdk/src/utils.ts
index cd38eb3..8e1f6d3 100644
--- a/sdk/src/utils.ts
+++ b/sdk/src/utils.ts
@@ -810,13 +810,15 @@ export const calculateTokenAmountsWithSlippage = (
   slippage: Percentage,
   roundingUp: boolean
 ): [bigint, bigint] => {
-  const lowerBound = calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, false)
-  const upperBound = calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, true)
-
-  const currentTickIndex = calculateTick(currentSqrtPrice, tickSpacing)
+  const minSqrtPrice = getMinSqrtPrice(1n)
+  const maxSqrtPrice = getMaxSqrtPrice(1n)
+  let lowerBound = calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, false)
+  let upperBound = calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, true)
+  lowerBound = lowerBound < minSqrtPrice ? minSqrtPrice : lowerBound
+  upperBound = upperBound > maxSqrtPrice ? maxSqrtPrice : upperBound
 
   const [lowerX, lowerY] = calculateAmountDelta(
-    currentTickIndex,
+    calculateTick(lowerBound, tickSpacing),
     lowerBound,
     liquidity,
     roundingUp,
@@ -824,7 +826,7 @@ export const calculateTokenAmountsWithSlippage = (
     lowerTickIndex
   )
   const [upperX, upperY] = calculateAmountDelta(
-    currentTickIndex,
+    calculateTick(upperBound, tickSpacing),
     upperBound,
     liquidity,
     roundingUp,
-- 
2.43.0


From 8cb1d5c5bb6d3c8bacd4c5265a194b2740c1765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:44 +0000
Subject: [PATCH 17/17] fix: refuse a pool the listing cannot index any more

---
 src/contracts/collections/pool_keys.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/contracts/collections/pool_keys.rs b/src/contracts/collections/pool_keys.rs
index db858e9..7f4fe8d 100644
--- a/src/contracts/collections/pool_keys.rs
+++ b/src/contracts/collections/pool_keys.rs
@@ -18,10 +18,15 @@ impl PoolKeys {
             return Err(InvariantError::PoolKeyAlreadyExist);
         }
 
+        let new_length = self
+            .pool_keys_length
+            .checked_add(1)
+            .expect("pool keys limit reached");
+
         self.pool_keys.insert(*pool_key, self.pool_keys_length);
         self.pool_keys_by_index
             .insert(self.pool_keys_length, *pool_key);
-        self.pool_keys_length += 1;
+        self.pool_keys_length = new_length;
 
         Ok(())
     }
-- 
2.43.0

