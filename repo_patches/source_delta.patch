From ccbad41f566b7f1b28059fcc8b7cde275c66d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 01/29] fix: round deposits of mint up so that index tokens
 stay fully backed

---
 contracts/core/src/query.rs        |  2 +-
 contracts/core/src/state/units.rs  | 18 +++++++++++++-----
 contracts/periphery/src/execute.rs |  6 +++---
 contracts/periphery/src/lib.rs     |  5 +++++
 contracts/periphery/src/query.rs   |  8 +++++---
 packages/pool/src/sim/index_out.rs |  6 +++++-
 6 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 3cb78d7..79455cf 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -186,7 +186,7 @@ pub fn simulate_mint(
         .transpose()?
         .unwrap_or(index_units);
 
-    let spent = index_units.calc_require_amount(amount);
+    let spent = index_units.calc_deposit_amount(amount);
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
     let mint_fee = fee.mint_fee.map(|v| v * amount);
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
diff --git a/contracts/core/src/state/units.rs b/contracts/core/src/state/units.rs
index ee7ad7f..ac5bb31 100644
--- a/contracts/core/src/state/units.rs
+++ b/contracts/core/src/state/units.rs
@@ -131,16 +131,24 @@ impl Units {
             .collect::<Vec<_>>()
     }
 
+    // amount of each denom to deposit to mint given amount of index token.
+    // rounds up, so that minted index tokens are always fully backed.
+    pub fn calc_deposit_amount(&self, index_amount: Uint128) -> Vec<Coin> {
+        self.0
+            .iter()
+            .map(|(denom, unit)| {
+                let amount = index_amount.mul_ceil(*unit).max(Uint128::one());
+                coin(amount.u128(), denom)
+            })
+            .collect::<Vec<_>>()
+    }
+
     pub fn calc_refund_amount(
         &self,
         mut funds: Vec<Coin>,
         index_amount: Uint128,
     ) -> Result<Vec<Coin>, ContractError> {
-        let required = self
-            .calc_require_amount(index_amount)
-            .into_iter()
-            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
-            .collect::<Vec<_>>();
+        let required = self.calc_deposit_amount(index_amount);
         let mut denoms: Vec<_> = funds.clone().into_iter().map(|v| Some(v.denom)).collect();
 
         for Coin { denom, amount } in required {
diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index bb3cd3b..24c4b02 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -7,7 +7,7 @@ use ibcx_interface::{core, helpers::IbcCore};
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::error::ContractError;
-use crate::{coin_sorter, deduct_fee, expand_fee, make_unit_converter};
+use crate::{coin_sorter, deduct_fee, expand_fee, make_deposit_converter};
 
 pub fn mint_exact_amount_in(
     deps: DepsMut,
@@ -59,7 +59,7 @@ pub fn mint_exact_amount_in(
     let mut mint_msg_funds = core_portfolio
         .units
         .into_iter()
-        .map(|(denom, unit)| coin((sim_res.est_min_token_out * unit).u128(), denom))
+        .map(make_deposit_converter(sim_res.est_min_token_out))
         .collect::<Vec<_>>();
     mint_msg_funds.sort_by(coin_sorter);
 
@@ -121,7 +121,7 @@ pub fn mint_exact_amount_out(
         .sim_routes
         .to_msgs(&env.contract.address, input_asset.amount)?;
 
-    let conv = make_unit_converter(sim_res.index_out);
+    let conv = make_deposit_converter(sim_res.index_out);
     let mut mint_msg_funds: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_msg_funds.sort_by(coin_sorter);
 
diff --git a/contracts/periphery/src/lib.rs b/contracts/periphery/src/lib.rs
index 26063a1..43c343d 100644
--- a/contracts/periphery/src/lib.rs
+++ b/contracts/periphery/src/lib.rs
@@ -34,6 +34,11 @@ pub fn make_unit_converter(v: Uint128) -> Box<dyn Fn((String, Decimal)) -> Coin>
     Box::new(move |(denom, unit)| coin((v * unit).u128(), denom))
 }
 
+// amount to deposit to core contract: rounds up, and at least 1
+pub fn make_deposit_converter(v: Uint128) -> Box<dyn Fn((String, Decimal)) -> Coin> {
+    Box::new(move |(denom, unit)| coin(v.mul_ceil(unit).max(Uint128::one()).u128(), denom))
+}
+
 pub fn coin_sorter(a: &Coin, b: &Coin) -> Ordering {
     a.denom.cmp(&b.denom)
 }
diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index fe90d57..d9145e7 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -8,7 +8,9 @@ use ibcx_interface::{
 };
 use ibcx_pool::{query_pools, Simulator};
 
-use crate::{deduct_fee, error::ContractError, expand_fee, make_unit_converter};
+use crate::{
+    deduct_fee, error::ContractError, expand_fee, make_deposit_converter, make_unit_converter,
+};
 
 pub fn simulate_mint_exact_amount_in(
     deps: Deps,
@@ -33,7 +35,7 @@ pub fn simulate_mint_exact_amount_in(
     let mint_amount =
         (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_deposit_converter(mint_amount);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
@@ -63,7 +65,7 @@ pub fn simulate_mint_exact_amount_out(
     // apply mint fee
     let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_deposit_converter(mint_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
diff --git a/packages/pool/src/sim/index_out.rs b/packages/pool/src/sim/index_out.rs
index 91e6bc3..b364cff 100644
--- a/packages/pool/src/sim/index_out.rs
+++ b/packages/pool/src/sim/index_out.rs
@@ -84,7 +84,11 @@ impl<'a> Simulator<'a> {
         let routes_with_amount = self
             .index_units
             .iter()
-            .map(|(denom, unit)| coin((token_out * *unit).u128(), denom))
+            // core rounds up the amount to deposit (and takes at least 1)
+            .map(|(denom, unit)| {
+                let amount = token_out.mul_ceil(*unit).max(Uint128::one());
+                coin(amount.u128(), denom)
+            })
             .map(|token_out| {
                 // if this unit does not have to do swap
                 if token_out.denom == input_asset {
-- 
2.43.0


From 454e7ab19861eeea9d598f3c7a11ee5a9b10df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 02/29] fix: apply the minimum mint fee in mint simulation too

---
 contracts/core/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 79455cf..a1ff6d8 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -188,7 +188,7 @@ pub fn simulate_mint(
 
     let spent = index_units.calc_deposit_amount(amount);
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
-    let mint_fee = fee.mint_fee.map(|v| v * amount);
+    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
 
     Ok(SimulateMintResponse {
-- 
2.43.0


From 30d6aa086b30046a4594e8b587d22195d889a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 03/29] fix: do not send zero coins on burn and realize

---
 contracts/core/src/execute/fee.rs   | 8 +++++---
 contracts/core/src/execute/token.rs | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/contracts/core/src/execute/fee.rs b/contracts/core/src/execute/fee.rs
index f471a52..c4c30c9 100644
--- a/contracts/core/src/execute/fee.rs
+++ b/contracts/core/src/execute/fee.rs
@@ -30,15 +30,17 @@ pub fn realize_streaming_fee(deps: DepsMut, info: MessageInfo) -> StdResult<Resp
 
     // collect streaming fee
     if let Some(streaming_fee) = fee.streaming_fee.as_mut() {
+        // bank module refuses to send coins with zero amount
+        let mut collected = std::mem::take(&mut streaming_fee.collected);
+        collected.retain(|v| !v.amount.is_zero());
+
         msgs.push(
             BankMsg::Send {
                 to_address: fee.collector.to_string(),
-                amount: streaming_fee.collected.clone(),
+                amount: collected,
             }
             .into(),
         );
-
-        streaming_fee.collected = vec![];
     }
 
     FEE.save(deps.storage, &fee)?;
diff --git a/contracts/core/src/execute/token.rs b/contracts/core/src/execute/token.rs
index 3b54958..c440098 100644
--- a/contracts/core/src/execute/token.rs
+++ b/contracts/core/src/execute/token.rs
@@ -150,6 +150,7 @@ pub fn burn(
     let burn_fee = fee.burn_fee.map(|v| v * received);
     let burn_amount = received.checked_sub(burn_fee.unwrap_or_default())?;
     let mut burn_send_amount = index_units.calc_require_amount(burn_amount);
+    burn_send_amount.retain(|v| !v.amount.is_zero());
     burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
     // state applier
@@ -165,7 +166,7 @@ pub fn burn(
     };
 
     // send fee to collector
-    let fee_send_msg = burn_fee.map(|v| BankMsg::Send {
+    let fee_send_msg = burn_fee.filter(|v| !v.is_zero()).map(|v| BankMsg::Send {
         to_address: fee.collector.into_string(),
         amount: coins(v.u128(), &config.index_denom),
     });
-- 
2.43.0


From c6e983511975b14269bd2bc3e77afd99ec18bbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 04/29] fix: pay out collected streaming fees when fee strategy
 is replaced

---
 contracts/core/src/execute/gov/update.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/gov/update.rs b/contracts/core/src/execute/gov/update.rs
index 82a4683..b2f490b 100644
--- a/contracts/core/src/execute/gov/update.rs
+++ b/contracts/core/src/execute/gov/update.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
+use cosmwasm_std::{attr, BankMsg, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
 use ibcx_interface::{core::FeePayload, types::SwapRoutes};
 
 use crate::{
@@ -84,6 +84,14 @@ pub fn update_fee(
     // update
     let mut fee = FEE.load(deps.storage)?;
 
+    // pay out the streaming fees collected so far to the previous collector
+    let mut collected = fee.streaming_fee.map(|v| v.collected).unwrap_or_default();
+    collected.retain(|v| !v.amount.is_zero());
+    let payout = (!collected.is_empty()).then(|| BankMsg::Send {
+        to_address: fee.collector.to_string(),
+        amount: collected,
+    });
+
     fee.collector = deps.api.addr_validate(&new_fee.collector)?;
     fee.mint_fee = new_fee.mint_fee;
     fee.burn_fee = new_fee.burn_fee;
@@ -103,7 +111,7 @@ pub fn update_fee(
         attr("executor", info.sender),
     ];
 
-    let resp = Response::new().add_attributes(attrs);
+    let resp = Response::new().add_messages(payout).add_attributes(attrs);
 
     Ok(resp)
 }
-- 
2.43.0


From 3222ff5398ac4a365b7a13728a70fb77b4b922f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 05/29] fix: cap accumulated streaming fee at the whole unit

---
 contracts/core/src/state/fee.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/state/fee.rs b/contracts/core/src/state/fee.rs
index c282c29..d6c11be 100644
--- a/contracts/core/src/state/fee.rs
+++ b/contracts/core/src/state/fee.rs
@@ -52,9 +52,11 @@ impl StreamingFee {
             return Ok((index_units, None)); // not collected
         }
 
+        // after long idle period, accumulated rate could exceed the whole unit
         let rate = (Decimal::one() + self.rate)
-            .checked_pow(delta as u32)?
-            .checked_sub(Decimal::one())?;
+            .checked_pow(delta as u32)
+            .map(|v| (v - Decimal::one()).min(Decimal::one()))
+            .unwrap_or(Decimal::one());
 
         // calculate new units with fee and amount of collect fees
         let (new_units, collected): (Units, Units) = index_units
-- 
2.43.0


From f909dfe759b43e2ff0b38d1ab521d76f6cdbd0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 06/29] fix: refuse rebalance with zero inflation weight

---
 contracts/core/src/state/rebalance.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/core/src/state/rebalance.rs b/contracts/core/src/state/rebalance.rs
index b8a9df3..b2cb7dc 100644
--- a/contracts/core/src/state/rebalance.rs
+++ b/contracts/core/src/state/rebalance.rs
@@ -35,6 +35,11 @@ impl Rebalance {
             return Err(ValidationError::invalid_rebalance("inflation", "duplicate denom").into());
         }
 
+        // check inflation weights
+        if self.inflation.iter().any(|(_, weight)| weight.is_zero()) {
+            return Err(ValidationError::invalid_rebalance("inflation", "zero weight").into());
+        }
+
         // check index_units <-> deflation
         {
             let mut base_units = index_units;
-- 
2.43.0


From f4fcea35d2badadc61b3ab34dd2c64d93087f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 07/29] fix: let rebalance finalize with untradable dust of
 units

---
 .../core/src/execute/rebalance/finalize.rs    | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/finalize.rs b/contracts/core/src/execute/rebalance/finalize.rs
index bf7e6aa..de2a373 100644
--- a/contracts/core/src/execute/rebalance/finalize.rs
+++ b/contracts/core/src/execute/rebalance/finalize.rs
@@ -1,9 +1,9 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, Storage};
+use cosmwasm_std::{attr, Decimal, DepsMut, Env, MessageInfo, Response, Storage};
 
 use crate::{
     assert_sender,
     error::RebalanceError,
-    state::{FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS},
+    state::{FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS, TOTAL_SUPPLY},
     StdResult,
 };
 
@@ -29,22 +29,34 @@ pub fn finalize(deps: DepsMut, env: Env, info: MessageInfo) -> StdResult<Respons
         assert_sender(&manager, &info.sender)?;
     }
 
-    let index_units = INDEX_UNITS.load(deps.storage)?;
+    let mut index_units = INDEX_UNITS.load(deps.storage)?;
+
+    // trades move whole amounts only, so there could be the dust of unit left
+    // which is worth less than 1 over the total supply and unable to be traded
+    let total_supply = TOTAL_SUPPLY.may_load(deps.storage)?.unwrap_or_default();
+    let is_dust = |unit: Decimal| !total_supply.is_zero() && (unit * total_supply).is_zero();
 
     // check deflation
     for (denom, target_unit) in rebalance.deflation {
-        let (_, current_unit) = index_units.get_key(&denom).unwrap();
-
-        if &target_unit < current_unit {
-            return Err(
-                RebalanceError::unable_to_finalize("deflation condition did not met").into(),
-            );
+        let (_, current_unit) = *index_units.get_key(&denom).unwrap();
+
+        if target_unit < current_unit {
+            let unit_gap = current_unit.checked_sub(target_unit)?;
+            if !is_dust(unit_gap) {
+                return Err(
+                    RebalanceError::unable_to_finalize("deflation condition did not met").into(),
+                );
+            }
+            index_units.sub_key(&denom, unit_gap)?;
         }
     }
 
     // check reserve unit has been flushed to inflation units
     let reserve_units = RESERVE_UNITS.load(deps.storage)?;
-    if !reserve_units.check_empty() {
+    if !reserve_units
+        .iter()
+        .all(|(_, unit)| unit.is_zero() || is_dust(*unit))
+    {
         return Err(RebalanceError::unable_to_finalize("inflation condition did not met").into());
     }
 
-- 
2.43.0


From bce0a39fa5efa9117bf0483ed55b9a788f6af7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 08/29] fix: round up the units deducted by rebalance trades

---
 .../core/src/execute/rebalance/trade/deflate.rs     |  4 ++--
 .../core/src/execute/rebalance/trade/inflate.rs     |  4 ++--
 contracts/core/src/execute/rebalance/trade/mod.rs   | 13 ++++++++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/trade/deflate.rs b/contracts/core/src/execute/rebalance/trade/deflate.rs
index e4bdb22..6be4200 100644
--- a/contracts/core/src/execute/rebalance/trade/deflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/deflate.rs
@@ -6,7 +6,7 @@ use crate::{
     StdResult,
 };
 
-use super::load_units;
+use super::{deduct_unit, load_units};
 
 fn deflate_index_unit(
     index_units: &mut Units,
@@ -121,7 +121,7 @@ pub fn deflate(
     }
 
     // deduct & expand stored units
-    let index_deduct_unit = Decimal::checked_from_ratio(sim_amount_in, total_supply)?;
+    let index_deduct_unit = deduct_unit(sim_amount_in, total_supply)?;
     let reserve_expand_unit = Decimal::checked_from_ratio(amount_out, total_supply)?;
 
     // deduct index unit
diff --git a/contracts/core/src/execute/rebalance/trade/inflate.rs b/contracts/core/src/execute/rebalance/trade/inflate.rs
index 1320e8e..8dc25b9 100644
--- a/contracts/core/src/execute/rebalance/trade/inflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/inflate.rs
@@ -6,7 +6,7 @@ use crate::{
     StdResult,
 };
 
-use super::load_units;
+use super::{deduct_unit, load_units};
 
 // in the case of reserve denom, we can directly inflate the unit
 pub fn inflate_reserve(
@@ -80,7 +80,7 @@ pub fn inflate(
     }
 
     // deduct & expand stored units
-    let reserve_deduct_unit = Decimal::checked_from_ratio(amount_in, total_supply)?;
+    let reserve_deduct_unit = deduct_unit(amount_in, total_supply)?;
     let index_expand_unit = Decimal::checked_from_ratio(sim_amount_out, total_supply)?;
 
     // expand index unit
diff --git a/contracts/core/src/execute/rebalance/trade/mod.rs b/contracts/core/src/execute/rebalance/trade/mod.rs
index d53d73f..844abeb 100644
--- a/contracts/core/src/execute/rebalance/trade/mod.rs
+++ b/contracts/core/src/execute/rebalance/trade/mod.rs
@@ -1,7 +1,7 @@
 mod deflate;
 mod inflate;
 
-use cosmwasm_std::{DepsMut, Env, MessageInfo, Response, Storage, Uint128};
+use cosmwasm_std::{Decimal, DepsMut, Env, MessageInfo, Response, Storage, Uint128};
 use ibcx_interface::core::RebalanceTradeMsg;
 
 use deflate::{deflate, deflate_reserve};
@@ -22,6 +22,17 @@ pub fn load_units(storage: &dyn Storage) -> StdResult<(Units, Units, Uint128)> {
     Ok((index_units, reserve_units, total_supply))
 }
 
+// unit to deduct for the amount leaving the contract. rounds up,
+// so that the rest of units never exceed the balance left
+pub fn deduct_unit(amount: Uint128, total_supply: Uint128) -> StdResult<Decimal> {
+    let unit = Decimal::checked_from_ratio(amount, total_supply)?;
+    if unit * total_supply < amount {
+        return Ok(unit.checked_add(Decimal::raw(1))?);
+    }
+
+    Ok(unit)
+}
+
 // deflate / inflate the target denom
 pub fn trade(
     deps: DepsMut,
-- 
2.43.0


From f6637698ba428212ce83046f4c1eb8d24c8db177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 09/29] fix: file multi-hop trade routes under their last denom

---
 packages/interface/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/interface/src/types.rs b/packages/interface/src/types.rs
index b4e4b76..2a28fec 100644
--- a/packages/interface/src/types.rs
+++ b/packages/interface/src/types.rs
@@ -69,11 +69,11 @@ impl From<SwapRoutes> for Vec<SwapAmountOutRoute> {
 
 impl SwapRoutes {
     pub fn dneom_first(&self) -> String {
-        self.0.last().unwrap().token_denom.clone()
+        self.0.first().unwrap().token_denom.clone()
     }
 
     pub fn denom_last(&self) -> String {
-        self.0.first().unwrap().token_denom.clone()
+        self.0.last().unwrap().token_denom.clone()
     }
 
     pub fn sim_swap_exact_in(
-- 
2.43.0


From 1be07ce195755e1b767cfd3ef20b1cf271aba55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 10/29] fix: pow with exponent between one and two

---
 packages/math/src/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/math/src/pow.rs b/packages/math/src/pow.rs
index 257a32e..7f9a890 100644
--- a/packages/math/src/pow.rs
+++ b/packages/math/src/pow.rs
@@ -43,7 +43,7 @@ pub fn pow(base: Decimal256, exp: Decimal256) -> Result<Decimal256, MathError> {
 }
 
 fn pow_int(mut base: Decimal256, power: Uint256) -> Decimal256 {
-    if power <= Uint256::one() {
+    if power.is_zero() {
         return Decimal256::one();
     }
 
-- 
2.43.0


From d0281779257e71ea6e09905fda1282ad9576db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 11/29] fix: verify bearer claim with its claim hash

---
 contracts/airdrop/src/query/claim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/airdrop/src/query/claim.rs b/contracts/airdrop/src/query/claim.rs
index b8b2841..26b4c53 100644
--- a/contracts/airdrop/src/query/claim.rs
+++ b/contracts/airdrop/src/query/claim.rs
@@ -108,7 +108,8 @@ pub fn verify_claim(
             }
 
             // validate claim hash
-            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &account, amount);
+            let verify_result =
+                verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);
             if let Err(e) = verify_result {
                 return Ok(resp.fail(e));
             }
-- 
2.43.0


From 49e5ed5f0c1141e4960810e1ac53cdcefbe7d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 12/29] fix: allow closing an airdrop which is fully claimed

---
 contracts/airdrop/src/execute/close.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/contracts/airdrop/src/execute/close.rs b/contracts/airdrop/src/execute/close.rs
index eb1956c..5fac298 100644
--- a/contracts/airdrop/src/execute/close.rs
+++ b/contracts/airdrop/src/execute/close.rs
@@ -48,17 +48,17 @@ fn close_open(
     airdrop.closed_at = Some(env.block.height);
 
     // response
-    let send_msg = BankMsg::Send {
+    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
         to_address: airdrop.creator.to_string(),
         amount: coins(redeem_amount.u128(), &airdrop.denom),
-    };
+    });
 
     let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);
 
     // apply states
     airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
 
-    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
+    Ok(Response::new().add_messages(send_msg).add_attributes(attrs))
 }
 
 fn close_bearer(
@@ -81,17 +81,17 @@ fn close_bearer(
     airdrop.closed_at = Some(env.block.height);
 
     // response
-    let send_msg = BankMsg::Send {
+    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
         to_address: airdrop.creator.to_string(),
         amount: coins(redeem_amount.u128(), &airdrop.denom),
-    };
+    });
 
     let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, redeem_amount);
 
     // apply states
     airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
 
-    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
+    Ok(Response::new().add_messages(send_msg).add_attributes(attrs))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 319023fba01e1a78d465fd0a8fb863e630a09aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 13/29] fix: deduct burn fee in periphery with the same
 rounding as core

---
 contracts/periphery/src/execute.rs |  6 +++---
 contracts/periphery/src/lib.rs     | 11 +++++++++++
 contracts/periphery/src/query.rs   |  4 ++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index 24c4b02..6d7c612 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -7,7 +7,7 @@ use ibcx_interface::{core, helpers::IbcCore};
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::error::ContractError;
-use crate::{coin_sorter, deduct_fee, expand_fee, make_deposit_converter};
+use crate::{coin_sorter, deduct_burn_fee, deduct_fee, expand_fee, make_deposit_converter};
 
 pub fn mint_exact_amount_in(
     deps: DepsMut,
@@ -184,7 +184,7 @@ pub fn burn_exact_amount_in(
     let pool_ids = extract_pool_ids(swap_info.clone());
     let pools = query_pools(&deps.as_ref(), pool_ids)?;
 
-    let act_burn_amount = index_asset.amount * deduct_fee(core_fee.burn_fee)?;
+    let act_burn_amount = deduct_burn_fee(index_asset.amount, core_fee.burn_fee)?;
 
     let deps_ref = deps.as_ref();
     let sim = Simulator::new(&deps_ref, &pools, &swap_info, &core_portfolio.units);
@@ -262,7 +262,7 @@ pub fn burn_exact_amount_out(
         vec![coin(burn_amount.u128(), &core_config.index_denom)],
     )?;
 
-    let act_burn_amount = burn_amount * deduct_fee(core_fee.burn_fee)?;
+    let act_burn_amount = deduct_burn_fee(burn_amount, core_fee.burn_fee)?;
 
     let sim_res = sim.estimate_output_for_index(act_burn_amount, &desired_output.denom)?;
 
diff --git a/contracts/periphery/src/lib.rs b/contracts/periphery/src/lib.rs
index 43c343d..6ad1b5e 100644
--- a/contracts/periphery/src/lib.rs
+++ b/contracts/periphery/src/lib.rs
@@ -21,6 +21,17 @@ pub fn deduct_fee(rate: Option<Decimal>) -> Result<Decimal, ContractError> {
         .unwrap_or(Decimal::one()))
 }
 
+// same rounding as core contract does
+pub fn deduct_mint_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
+    let fee = rate.map(|v| (v * amount).max(Uint128::one()));
+    Ok(amount.checked_sub(fee.unwrap_or_default())?)
+}
+
+// same rounding as core contract does
+pub fn deduct_burn_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
+    Ok(amount.checked_sub(rate.map(|v| v * amount).unwrap_or_default())?)
+}
+
 pub fn expand_fee(rate: Option<Decimal>) -> Result<Decimal, ContractError> {
     Ok(rate
         .map(|v| {
diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index d9145e7..bac2ce2 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -9,7 +9,7 @@ use ibcx_interface::{
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::{
-    deduct_fee, error::ContractError, expand_fee, make_deposit_converter, make_unit_converter,
+    deduct_burn_fee, deduct_fee, error::ContractError, expand_fee, make_deposit_converter, make_unit_converter,
 };
 
 pub fn simulate_mint_exact_amount_in(
@@ -97,7 +97,7 @@ pub fn simulate_burn_exact_amount_in(
     let pools = query_pools(&deps, pool_ids)?;
 
     // apply burn fee before simulating
-    let burn_amount = index_amount * deduct_fee(core_fee.burn_fee)?;
+    let burn_amount = deduct_burn_fee(index_amount, core_fee.burn_fee)?;
 
     let conv = make_unit_converter(burn_amount);
     let mut burn_redeem_amount: Vec<_> =
-- 
2.43.0


From 40d51257e9a53ddd17253aae0125a536f2af42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 14/29] fix: skip refund of periphery when there is nothing to
 refund

---
 contracts/periphery/src/execute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index 6d7c612..0f42abd 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -326,10 +326,10 @@ pub fn finish_operation(
             attr("refund_asset", refund_asset),
             attr("amount", balance.amount),
         ])
-        .add_message(BankMsg::Send {
+        .add_messages((!balance.amount.is_zero()).then(|| BankMsg::Send {
             to_address: refund_to,
             amount: vec![balance],
-        });
+        }));
 
     Ok(resp)
 }
-- 
2.43.0


From b0617176547ac74b725ed8091fff6fdf5b737c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 15/29] fix: deduct mint fee from the output of
 mint_exact_amount_in

---
 contracts/periphery/src/execute.rs | 16 +++++++++++-----
 contracts/periphery/src/query.rs   |  6 +++---
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index 0f42abd..9b2a2bc 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -7,7 +7,7 @@ use ibcx_interface::{core, helpers::IbcCore};
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::error::ContractError;
-use crate::{coin_sorter, deduct_burn_fee, deduct_fee, expand_fee, make_deposit_converter};
+use crate::{coin_sorter, deduct_burn_fee, deduct_mint_fee, expand_fee, make_deposit_converter};
 
 pub fn mint_exact_amount_in(
     deps: DepsMut,
@@ -30,13 +30,16 @@ pub fn mint_exact_amount_in(
     let pool_ids = extract_pool_ids(swap_info.clone());
     let pools = query_pools(&deps.as_ref(), pool_ids)?;
 
+    // amount to mint before deducting mint fee
+    let min_mint_amount = min_index_amount.mul_ceil(expand_fee(core_fee.mint_fee)?);
+
     let deps_ref = deps.as_ref();
     let sim = Simulator::new(&deps_ref, &pools, &swap_info, &core_portfolio.units);
     let sim_res = sim
         .estimate_index_for_input(
             desired_asset.clone(),
-            Some(min_index_amount),
-            Some(min_index_amount),
+            Some(min_mint_amount),
+            Some(min_mint_amount),
             None,
         )?
         .est
@@ -72,7 +75,10 @@ pub fn mint_exact_amount_in(
         mint_msg_funds,
     )?;
 
-    let act_mint_amount = sim_res.est_min_token_out * deduct_fee(core_fee.mint_fee)?;
+    let act_mint_amount = deduct_mint_fee(sim_res.est_min_token_out, core_fee.mint_fee)?;
+    if act_mint_amount < min_index_amount {
+        return Err(ContractError::TradeAmountExceeded {});
+    }
     let act_mint_asset = coin(act_mint_amount.u128(), core_config.index_denom);
 
     let resp = Response::new()
@@ -143,7 +149,7 @@ pub fn mint_exact_amount_out(
         funds: vec![],
     };
 
-    let act_mint_amount = index_asset.amount * deduct_fee(core_fee.mint_fee)?;
+    let act_mint_amount = deduct_mint_fee(index_asset.amount, core_fee.mint_fee)?;
     let act_mint_asset = coin(act_mint_amount.u128(), &core_config.index_denom);
 
     let resp = Response::new()
diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index bac2ce2..ae9b8b3 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -32,10 +32,10 @@ pub fn simulate_mint_exact_amount_in(
         .max;
 
     // apply mint fee
-    let mint_amount =
-        (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
+    let mint_amount = deduct_mint_fee(sim_res.est_min_token_out, core_fee.mint_fee)?
+        .saturating_sub(Uint128::new(100)); // FIXME: hacky calibration
 
-    let conv = make_deposit_converter(mint_amount);
+    let conv = make_deposit_converter(sim_res.est_min_token_out);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
-- 
2.43.0


From fea97a8944e83522ccaa856a90c51675ffb218f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 16/29] fix: quote mint_exact_amount_out for the amount which
 is actually minted

---
 contracts/periphery/src/query.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index ae9b8b3..3cc836c 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -9,7 +9,8 @@ use ibcx_interface::{
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::{
-    deduct_burn_fee, deduct_fee, error::ContractError, expand_fee, make_deposit_converter, make_unit_converter,
+    deduct_burn_fee, deduct_mint_fee, error::ContractError, expand_fee, make_deposit_converter,
+    make_unit_converter,
 };
 
 pub fn simulate_mint_exact_amount_in(
@@ -63,15 +64,15 @@ pub fn simulate_mint_exact_amount_out(
     let pools = query_pools(&deps, pool_ids)?;
 
     // apply mint fee
-    let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
+    let mint_amount = deduct_mint_fee(index_amount, core_fee.mint_fee)?;
 
-    let conv = make_deposit_converter(mint_amount);
+    let conv = make_deposit_converter(index_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
     let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
-    let sim_res = sim.estimate_input_for_index(&input_asset, mint_amount)?;
+    let sim_res = sim.estimate_input_for_index(&input_asset, index_amount)?;
 
     Ok(SimulateMintExactAmountOutResponse {
         mint_amount,
-- 
2.43.0


From a720e71b56ba5c675eda262e6c3511d21dfc70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 17/29] fix: split minimum output among swaps without rounding
 loss

---
 packages/pool/src/sim/route.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/pool/src/sim/route.rs b/packages/pool/src/sim/route.rs
index 693f406..0c33148 100644
--- a/packages/pool/src/sim/route.rs
+++ b/packages/pool/src/sim/route.rs
@@ -42,14 +42,19 @@ impl SimAmountOutRoutes {
             return Err(PoolError::TradeAmountExceeded);
         }
 
-        let amplifier = Decimal::checked_from_ratio(min_output, total_receive_amount)?;
+        if total_receive_amount.is_zero() {
+            return Err(PoolError::TradeAmountExceeded);
+        }
 
         let swap_msgs = self
             .0
             .iter()
             .filter_map(|r| {
                 r.routes.as_ref().map(|routes| {
-                    let min_amount_out = r.sim_amount_out * amplifier;
+                    // rounds up, so that sum of them never be less than min_output
+                    let min_amount_out = r
+                        .sim_amount_out
+                        .mul_ceil((min_output, total_receive_amount));
                     routes.msg_swap_exact_in(
                         contract,
                         &r.amount_in.denom,
-- 
2.43.0


From 0233eb6d09f0bb66fec5a46d518575bc34f7108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:39 +0000
Subject: [PATCH 18/29] fix: streaming fee accrual over idle periods beyond the
 range of decimal

---
 contracts/core/src/state/fee.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/contracts/core/src/state/fee.rs b/contracts/core/src/state/fee.rs
index d6c11be..60853b1 100644
--- a/contracts/core/src/state/fee.rs
+++ b/contracts/core/src/state/fee.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
 use cosmwasm_schema::cw_serde;
-use cosmwasm_std::{coin, Addr, Coin, Decimal, Uint128};
+use cosmwasm_std::{coin, Addr, Coin, Decimal, OverflowError, Uint128};
 
 use crate::{
     error::{ContractError, ValidationError},
@@ -41,6 +41,26 @@ pub struct StreamingFee {
 }
 
 impl StreamingFee {
+    // (1 + rate)^secs - 1. after long idle period, it could exceed the whole unit
+    // or the range of decimal, so caps it at the whole unit
+    fn accumulated_rate(&self, secs: u64) -> Decimal {
+        let pow = || -> Result<Decimal, OverflowError> {
+            let (mut base, mut acc, mut exp) = (Decimal::one() + self.rate, Decimal::one(), secs);
+            while exp > 1 {
+                if exp % 2 == 1 {
+                    acc = base.checked_mul(acc)?;
+                }
+                base = base.checked_mul(base)?;
+                exp /= 2;
+            }
+            base.checked_mul(acc)
+        };
+
+        pow()
+            .map(|v| (v - Decimal::one()).min(Decimal::one()))
+            .unwrap_or_else(|_| Decimal::one())
+    }
+
     pub fn collect(
         &mut self,
         index_units: Units,
@@ -52,11 +72,7 @@ impl StreamingFee {
             return Ok((index_units, None)); // not collected
         }
 
-        // after long idle period, accumulated rate could exceed the whole unit
-        let rate = (Decimal::one() + self.rate)
-            .checked_pow(delta as u32)
-            .map(|v| (v - Decimal::one()).min(Decimal::one()))
-            .unwrap_or(Decimal::one());
+        let rate = self.accumulated_rate(delta);
 
         // calculate new units with fee and amount of collect fees
         let (new_units, collected): (Units, Units) = index_units
-- 
2.43.0


From 4c3eb2cfa34d477f5263fea3c02e888c89a94c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:22 +0000
Subject: [PATCH 19/29] fix: split proceeds of deflation by weight without loss
 of precision

---
 .../core/src/execute/rebalance/trade/deflate.rs     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/trade/deflate.rs b/contracts/core/src/execute/rebalance/trade/deflate.rs
index 6be4200..ad2f63b 100644
--- a/contracts/core/src/execute/rebalance/trade/deflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/deflate.rs
@@ -1,4 +1,6 @@
-use cosmwasm_std::{attr, coin, Decimal, DepsMut, Env, MessageInfo, Response, Uint128};
+use cosmwasm_std::{
+    attr, coin, Decimal, DepsMut, Env, MessageInfo, Response, StdError, Uint128, Uint256,
+};
 
 use crate::{
     error::RebalanceError,
@@ -23,9 +25,14 @@ fn inflate_reserve_unit(
     inflations: Units,
 ) -> StdResult<()> {
     let mut expand_unit = inflate_unit;
-    let mut total_weight = inflations.iter().map(|(_, v)| *v).sum::<Decimal>();
+    // product of unit and weight could be out of the precision (or the range) of decimal
+    let mut total_weight = inflations.iter().fold(Uint256::zero(), |acc, (_, v)| {
+        acc + Uint256::from(v.atomics())
+    });
     for (denom, weight) in inflations {
-        let sub_unit = expand_unit * weight / total_weight;
+        let weight = Uint256::from(weight.atomics());
+        let sub_unit = Uint256::from(expand_unit.atomics()).multiply_ratio(weight, total_weight);
+        let sub_unit = Decimal::new(Uint128::try_from(sub_unit).map_err(StdError::from)?);
         reserve_units.add_key(&denom, sub_unit)?;
 
         expand_unit = expand_unit.checked_sub(sub_unit)?;
-- 
2.43.0


From c34120c9711f76782dcc41bb664930083f096dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 20/29] fix: claim verification refuses accounts which cannot
 claim

---
 contracts/airdrop/src/query/claim.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/contracts/airdrop/src/query/claim.rs b/contracts/airdrop/src/query/claim.rs
index 26b4c53..fdbf6d5 100644
--- a/contracts/airdrop/src/query/claim.rs
+++ b/contracts/airdrop/src/query/claim.rs
@@ -84,8 +84,12 @@ pub fn verify_claim(
                 return Ok(resp.fail("airdrop is closed"));
             }
 
-            let verify_result =
-                verify_merkle_proof(&airdrop.merkle_root, proof, &account.unwrap(), amount);
+            let account = account.unwrap();
+            if let Err(e) = deps.api.addr_validate(&account) {
+                return Ok(resp.fail(e));
+            }
+
+            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &account, amount);
             if let Err(e) = verify_result {
                 return Ok(resp.fail(e));
             }
@@ -107,6 +111,10 @@ pub fn verify_claim(
                 return Ok(resp.fail("airdrop is closed"));
             }
 
+            if let Err(e) = deps.api.addr_validate(&account) {
+                return Ok(resp.fail(e));
+            }
+
             // validate claim hash
             let verify_result =
                 verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);
-- 
2.43.0


From fc97d72d46184c8f1cab83b13278deced95cc163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:48 +0000
Subject: [PATCH 21/29] fix: decode scaling factors of stable pools as the
 chain encodes them

---
 packages/pool/src/stable.rs | 44 +++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/packages/pool/src/stable.rs b/packages/pool/src/stable.rs
index 0d83934..16e10d6 100644
--- a/packages/pool/src/stable.rs
+++ b/packages/pool/src/stable.rs
@@ -1,6 +1,9 @@
-use std::str::FromStr;
+use std::{fmt, str::FromStr};
 
-use cosmwasm_schema::cw_serde;
+use cosmwasm_schema::{
+    cw_serde,
+    serde::{de, Deserialize, Deserializer},
+};
 use cosmwasm_std::{Coin, Decimal, Decimal256, Deps, StdError, StdResult, Uint256};
 use ibcx_interface::types::{SwapRoute, SwapRoutes};
 
@@ -18,12 +21,49 @@ pub struct Pool {
     pub pool_params: PoolParams,
     pub pool_liquidity: Vec<Coin>,
 
+    #[serde(deserialize_with = "deserialize_scaling_factors")]
     pub scaling_factors: Vec<u64>,
     pub scaling_factor_controller: String,
     pub total_shares: Coin,
     pub future_pool_governor: String,
 }
 
+// the chain encodes 64-bit integers as strings
+fn deserialize_scaling_factors<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Vec<u64>, D::Error> {
+    struct ScalingFactor(u64);
+
+    impl<'de> Deserialize<'de> for ScalingFactor {
+        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+            deserializer.deserialize_any(ScalingFactorVisitor)
+        }
+    }
+
+    struct ScalingFactorVisitor;
+
+    impl<'de> de::Visitor<'de> for ScalingFactorVisitor {
+        type Value = ScalingFactor;
+
+        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+            f.write_str("an unsigned integer or its string representation")
+        }
+
+        fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
+            Ok(ScalingFactor(v))
+        }
+
+        fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
+            v.parse().map(ScalingFactor).map_err(E::custom)
+        }
+    }
+
+    Ok(Vec::<ScalingFactor>::deserialize(deserializer)?
+        .into_iter()
+        .map(|v| v.0)
+        .collect())
+}
+
 #[cw_serde]
 pub struct PoolParams {
     pub swap_fee: Decimal,
-- 
2.43.0


From 733629974a914467595f891173ae111663957352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:53 +0000
Subject: [PATCH 22/29] fix: round pool ratio as the chain does when estimating
 swaps

---
 packages/pool/src/weighted.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/pool/src/weighted.rs b/packages/pool/src/weighted.rs
index e0b80fb..7161461 100644
--- a/packages/pool/src/weighted.rs
+++ b/packages/pool/src/weighted.rs
@@ -20,7 +20,10 @@ fn solve_constant_function_invariants(
 ) -> Result<(Decimal256, bool), MathError> {
     let weight_ratio = token_weight_fixed / token_weight_unknown;
 
-    let y = token_balance_fixed_before / token_balance_fixed_after;
+    // the chain rounds this quotient half up, not down
+    let y_doubled =
+        (token_balance_fixed_before + token_balance_fixed_before) / token_balance_fixed_after;
+    let y = Decimal256::new((y_doubled.atomics() + Uint256::one()) / Uint256::from(2u64));
 
     let y_to_weight_ratio = ibcx_math::pow(y, weight_ratio)?;
 
-- 
2.43.0


From 3af1a1886e1634219cbcf87c31aace7b8b4b0bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:53 +0000
Subject: [PATCH 23/29] fix: skip swaps of assets which redeem nothing

---
 packages/pool/src/sim/index_in.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/pool/src/sim/index_in.rs b/packages/pool/src/sim/index_in.rs
index 24f15ba..1c1d519 100644
--- a/packages/pool/src/sim/index_in.rs
+++ b/packages/pool/src/sim/index_in.rs
@@ -84,8 +84,8 @@ impl<'a> Simulator<'a> {
             .map(|(denom, unit)| {
                 let token_in = coin((token_in * *unit).u128(), denom);
 
-                // if this unit does not have to do swap
-                if token_in.denom == output_asset {
+                // if this unit does not have to do swap (or redeems nothing)
+                if token_in.denom == output_asset || token_in.amount.is_zero() {
                     Ok(SimAmountOutRoute {
                         // amount_in = amount_out
                         sim_amount_out: token_in.amount,
-- 
2.43.0


From 30da64e97e20eb3031890de9a091eb6aeaeca8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 24/29] fix: keep fractions of the swap input after fee when
 estimating swaps

---
 packages/pool/src/weighted.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/packages/pool/src/weighted.rs b/packages/pool/src/weighted.rs
index 7161461..95762c5 100644
--- a/packages/pool/src/weighted.rs
+++ b/packages/pool/src/weighted.rs
@@ -140,15 +140,16 @@ impl Pool {
             weight: token_in_weight,
         } = self.get_asset(&input_amount.denom)?;
 
-        let token_amount_in_after_fee = Uint256::from_uint128(input_amount.amount)
-            * Decimal256::one().checked_sub(spread_factor.into())?;
+        let token_amount_in_after_fee = to_dec(input_amount.amount.into())?
+            .checked_mul(Decimal256::one().checked_sub(spread_factor.into())?)?;
 
-        let pool_token_in_balance = token_in.amount;
-        let pool_post_swap_in_balance = pool_token_in_balance + token_amount_in_after_fee;
+        let pool_token_in_balance = to_dec(token_in.amount)?;
+        let pool_post_swap_in_balance =
+            pool_token_in_balance.checked_add(token_amount_in_after_fee)?;
 
         let (token_amount_out, neg) = solve_constant_function_invariants(
-            to_dec(pool_token_in_balance)?,
-            to_dec(pool_post_swap_in_balance)?,
+            pool_token_in_balance,
+            pool_post_swap_in_balance,
             to_dec(token_in_weight)?,
             to_dec(token_out.amount)?,
             to_dec(token_out_weight)?,
-- 
2.43.0


From f769dfa267a710d756dd83aae67e088fc41970ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:45 +0000
Subject: [PATCH 25/29] fix: refuse estimates of weighted pools whose output
 truncates to zero, as the chain does

---
 packages/pool/src/weighted.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/pool/src/weighted.rs b/packages/pool/src/weighted.rs
index 95762c5..9be3eef 100644
--- a/packages/pool/src/weighted.rs
+++ b/packages/pool/src/weighted.rs
@@ -161,7 +161,14 @@ impl Pool {
             ));
         }
 
-        Ok(token_amount_out.to_uint_floor())
+        let token_amount_out = token_amount_out.to_uint_floor();
+        if token_amount_out.is_zero() {
+            return Err(PoolError::invalid_math_approx(
+                "token amount must be positive",
+            ));
+        }
+
+        Ok(token_amount_out)
     }
 
     /// tokenBalanceIn * [{tokenBalanceOut / (tokenBalanceOut - tokenAmountOut)} ^ (tokenWeightOut / tokenWeightIn) -1] / tokenAmountIn
-- 
2.43.0


From 2abe569225c068f78888ee0b6ec5597ff72172b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:07 +0000
Subject: [PATCH 26/29] fix: quote of burn_exact_amount_out redeems only what
 is left after burn fee

---
 contracts/periphery/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index 3cc836c..df6e568 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -138,7 +138,8 @@ pub fn simulate_burn_exact_amount_out(
     // apply burn fee after simulation
     let burn_amount = sim_res.est_min_token_in * expand_fee(core_fee.burn_fee)?;
 
-    let conv = make_unit_converter(burn_amount);
+    // only what is left after burn fee is redeemed
+    let conv = make_unit_converter(sim_res.est_min_token_in);
     let mut burn_redeem_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     burn_redeem_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
-- 
2.43.0


From 5f5a2af0f864f8372a798bf3b1b64a2a8deddc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 27/29] fix: round powers and weight ratios as the chain does

---
 packages/math/src/pow.rs      | 30 ++++++++++++++++++++----------
 packages/pool/src/weighted.rs | 15 +++++++++------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/packages/math/src/pow.rs b/packages/math/src/pow.rs
index 7f9a890..2675931 100644
--- a/packages/math/src/pow.rs
+++ b/packages/math/src/pow.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{Decimal256, Uint256};
+use cosmwasm_std::{Decimal256, Decimal256RangeExceeded, Uint256, Uint512};
 
 use crate::error::MathError;
 
@@ -28,7 +28,7 @@ pub fn pow(base: Decimal256, exp: Decimal256) -> Result<Decimal256, MathError> {
         Decimal256::from_atomics(x - (y * (x / y)), base.decimal_places())
     }?;
 
-    let integer_pow = pow_int(base, integer);
+    let integer_pow = pow_int(base, integer)?;
     if fractional.is_zero() {
         return Ok(integer_pow);
     }
@@ -39,12 +39,12 @@ pub fn pow(base: Decimal256, exp: Decimal256) -> Result<Decimal256, MathError> {
         Decimal256::from_atomics(POW_PRECISION, base.decimal_places())?,
     )?;
 
-    Ok(integer_pow * fractional_pow)
+    mul(integer_pow, fractional_pow)
 }
 
-fn pow_int(mut base: Decimal256, power: Uint256) -> Decimal256 {
+fn pow_int(mut base: Decimal256, power: Uint256) -> Result<Decimal256, MathError> {
     if power.is_zero() {
-        return Decimal256::one();
+        return Ok(Decimal256::one());
     }
 
     let mut tmp = Decimal256::one();
@@ -57,15 +57,15 @@ fn pow_int(mut base: Decimal256, power: Uint256) -> Decimal256 {
         }
 
         if i % Uint256::from(2u64) != Uint256::zero() {
-            tmp *= base;
+            tmp = mul(tmp, base)?;
         }
 
         i /= Uint256::from(2u64);
 
-        base *= base;
+        base = mul(base, base)?;
     }
 
-    base * tmp
+    mul(base, tmp)
 }
 
 fn pow_approx(
@@ -94,8 +94,8 @@ fn pow_approx(
         let big_k = Decimal256::one() * Decimal256::from_ratio(i, 1u64);
         let (c, c_neg) = abs_diff_with_sign(a, big_k - Decimal256::one());
 
-        term *= c * x;
-        term /= big_k;
+        term = mul(mul(term, c)?, x)?;
+        term = Decimal256::new((term.atomics() + Uint256::from(i / 2)) / Uint256::from(i));
 
         if term.is_zero() {
             break;
@@ -121,6 +121,16 @@ fn pow_approx(
     Ok(sum)
 }
 
+/// Multiplies two decimals, rounding half up as the chain does
+fn mul(x: Decimal256, y: Decimal256) -> Result<Decimal256, MathError> {
+    let half = Uint512::from(DEC_PRECISION / 2);
+    let rounded = (x.atomics().full_mul(y.atomics()) + half) / Uint512::from(DEC_PRECISION);
+
+    Uint256::try_from(rounded)
+        .map(Decimal256::new)
+        .map_err(|_| Decimal256RangeExceeded.into())
+}
+
 pub fn abs_diff_with_sign(x: Decimal256, y: Decimal256) -> (Decimal256, bool) {
     (x.abs_diff(y), x > y)
 }
diff --git a/packages/pool/src/weighted.rs b/packages/pool/src/weighted.rs
index 9be3eef..f8cdc06 100644
--- a/packages/pool/src/weighted.rs
+++ b/packages/pool/src/weighted.rs
@@ -11,6 +11,13 @@ fn to_dec(v: Uint256) -> Result<Decimal256, PoolError> {
     Ok(Decimal256::from_atomics(v, 0)?)
 }
 
+/// Divides two decimals, rounding half up as the chain does
+fn quo(numerator: Decimal256, denominator: Decimal256) -> Decimal256 {
+    let doubled = (numerator + numerator) / denominator;
+
+    Decimal256::new((doubled.atomics() + Uint256::one()) / Uint256::from(2u64))
+}
+
 fn solve_constant_function_invariants(
     token_balance_fixed_before: Decimal256,
     token_balance_fixed_after: Decimal256,
@@ -18,12 +25,8 @@ fn solve_constant_function_invariants(
     token_balance_unknown_before: Decimal256,
     token_weight_unknown: Decimal256,
 ) -> Result<(Decimal256, bool), MathError> {
-    let weight_ratio = token_weight_fixed / token_weight_unknown;
-
-    // the chain rounds this quotient half up, not down
-    let y_doubled =
-        (token_balance_fixed_before + token_balance_fixed_before) / token_balance_fixed_after;
-    let y = Decimal256::new((y_doubled.atomics() + Uint256::one()) / Uint256::from(2u64));
+    let weight_ratio = quo(token_weight_fixed, token_weight_unknown);
+    let y = quo(token_balance_fixed_before, token_balance_fixed_after);
 
     let y_to_weight_ratio = ibcx_math::pow(y, weight_ratio)?;
 
-- 
2.43.0


From be27866668bc30cd27f8d3aa02771c82c3a49325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:35 +0000
Subject: [PATCH 28/29] fix: let mint_exact_amount_in work without a minimum
 output

---
 contracts/periphery/src/execute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index 9b2a2bc..ba787fc 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -31,7 +31,10 @@ pub fn mint_exact_amount_in(
     let pools = query_pools(&deps.as_ref(), pool_ids)?;
 
     // amount to mint before deducting mint fee
-    let min_mint_amount = min_index_amount.mul_ceil(expand_fee(core_fee.mint_fee)?);
+    // (the search cannot start from zero, and the core contract does not mint zero anyway)
+    let min_mint_amount = min_index_amount
+        .mul_ceil(expand_fee(core_fee.mint_fee)?)
+        .max(Uint128::one());
 
     let deps_ref = deps.as_ref();
     let sim = Simulator::new(&deps_ref, &pools, &swap_info, &core_portfolio.units);
-- 
2.43.0


From dabeea48e0e2342abb9a4c0b4473f975878a76db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:47 +0000
Subject: [PATCH 29/29] fix: refuse to start a rebalance while nothing is
 minted

With zero supply every trade fails on the division by the supply, so such a
rebalance could never be finalized and mint would stay blocked for good.
---
 contracts/core/src/execute/rebalance/init.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/init.rs b/contracts/core/src/execute/rebalance/init.rs
index 1423f02..0acfed6 100644
--- a/contracts/core/src/execute/rebalance/init.rs
+++ b/contracts/core/src/execute/rebalance/init.rs
@@ -1,8 +1,8 @@
 use cosmwasm_std::{attr, Decimal, DepsMut, MessageInfo, Response, Storage};
 
 use crate::{
-    error::RebalanceError,
-    state::{Rebalance, Units, CONFIG, FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS},
+    error::{RebalanceError, ValidationError},
+    state::{Rebalance, Units, CONFIG, FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS, TOTAL_SUPPLY},
     StdResult,
 };
 
@@ -47,6 +47,14 @@ pub fn init(
         return Err(RebalanceError::OnRebalancing.into());
     }
 
+    // without supply there is nothing to trade, so the rebalance could never be
+    // finalized and minting would be blocked forever
+    if matches!(TOTAL_SUPPLY.may_load(deps.storage)?, Some(supply) if supply.is_zero()) {
+        return Err(
+            ValidationError::invalid_rebalance("total_supply", "nothing to rebalance").into(),
+        );
+    }
+
     // make new rebalance
     let rebalance = Rebalance {
         manager: manager
-- 
2.43.0

