From 41dbc28bb7cca21a647772f93249e63d970ec025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 1/4] fix: reject trades against the book outside the Active
 status when only free funds are used

A limit order that only uses free funds has its received lots credited to the
trader's seat, so num_*_lots_out was zero and the cross check was skipped: such
an order traded in a PostOnly market (as did a sell whose proceeds round to
zero). Check whether anything was matched instead.
---
 src/program/processor/new_order.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/program/processor/new_order.rs b/src/program/processor/new_order.rs
index d236ed0..4a92e0c 100644
--- a/src/program/processor/new_order.rs
+++ b/src/program/processor/new_order.rs
@@ -376,6 +376,7 @@ fn process_new_order<'a, 'info>(
 
     let side = order_packet.side();
     let (
+        crossed_the_spread,
         quote_atoms_to_withdraw,
         quote_atoms_to_deposit,
         base_atoms_to_withdraw,
@@ -421,6 +422,10 @@ fn process_new_order<'a, 'info>(
         }
 
         (
+            // The lots received are zero if the order only used free funds (they are credited to
+            // the trader's seat), so the lots that were given must be checked as well.
+            matching_engine_response.num_quote_lots() > QuoteLots::ZERO
+                || matching_engine_response.num_base_lots() > BaseLots::ZERO,
             matching_engine_response.num_quote_lots_out * quote_lot_size,
             matching_engine_response.get_deposit_amount_bid_in_quote_lots() * quote_lot_size,
             matching_engine_response.num_base_lots_out * base_lot_size,
@@ -431,7 +436,7 @@ fn process_new_order<'a, 'info>(
     let quote_params = &header.quote_params;
     let base_params = &header.base_params;
 
-    if quote_atoms_to_withdraw > QuoteAtoms::ZERO || base_atoms_to_withdraw > BaseAtoms::ZERO {
+    if crossed_the_spread {
         let status = MarketStatus::from(header.status);
         assert_with_msg(
             status.cross_allowed(),
-- 
2.43.0


From 24fba47ad151129c72dcfd3ee4e052ea5bc8f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 2/4] fix: refuse to create a market whose tick size is zero

---
 src/program/processor/initialize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/program/processor/initialize.rs b/src/program/processor/initialize.rs
index 1ac157e..141b017 100644
--- a/src/program/processor/initialize.rs
+++ b/src/program/processor/initialize.rs
@@ -105,6 +105,12 @@ pub(crate) fn process_initialize_market<'a, 'info>(
         "Taker fee must be less than or equal to 10000 basis points (100%)",
     )?;
 
+    assert_with_msg(
+        tick_size_in_quote_lots_per_base_unit > QuoteLotsPerBaseUnitPerTick::ZERO,
+        ProgramError::InvalidInstructionData,
+        "Tick size must be greater than zero",
+    )?;
+
     let base_atoms_per_base_unit = BaseAtomsPerBaseUnit::new(
         10u64.pow(base_mint.decimals as u32) * raw_base_units_per_base_unit.unwrap_or(1) as u64,
     );
-- 
2.43.0


From 7cd822636fc05eafe290b79e931bb3bfbd8a1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 3/4] fix: refuse to create a market whose base units consist
 of zero raw base units

---
 src/program/processor/initialize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/program/processor/initialize.rs b/src/program/processor/initialize.rs
index 141b017..9f92764 100644
--- a/src/program/processor/initialize.rs
+++ b/src/program/processor/initialize.rs
@@ -114,6 +114,11 @@ pub(crate) fn process_initialize_market<'a, 'info>(
     let base_atoms_per_base_unit = BaseAtomsPerBaseUnit::new(
         10u64.pow(base_mint.decimals as u32) * raw_base_units_per_base_unit.unwrap_or(1) as u64,
     );
+    assert_with_msg(
+        base_atoms_per_base_unit > BaseAtomsPerBaseUnit::ZERO,
+        ProgramError::InvalidInstructionData,
+        "A base unit must consist of at least one base atom",
+    )?;
     let quote_atoms_per_quote_unit =
         QuoteAtomsPerQuoteUnit::new(10u64.pow(quote_mint.decimals as u32));
 
-- 
2.43.0


From 0334d71878db0cee2ae72e6259b06f6331b9a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 4/4] fix: describe order ids completely in the interface
 description

The type Ticks that FIFOOrderId refers to is described nowhere, so clients
generated from the description cannot resolve it. Describe the price as u64,
like every other quantity.
---
 idl/phoenix_v1.json  | 4 +---
 src/shank_structs.rs | 7 +++++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/idl/phoenix_v1.json b/idl/phoenix_v1.json
index 67f1c3e..799d52a 100644
--- a/idl/phoenix_v1.json
+++ b/idl/phoenix_v1.json
@@ -2166,9 +2166,7 @@
         "fields": [
           {
             "name": "priceInTicks",
-            "type": {
-              "defined": "Ticks"
-            }
+            "type": "u64"
           },
           {
             "name": "orderSequenceNumber",
diff --git a/src/shank_structs.rs b/src/shank_structs.rs
index 11d1624..11034b7 100644
--- a/src/shank_structs.rs
+++ b/src/shank_structs.rs
@@ -31,6 +31,13 @@ struct MarketHeader {
     _padding2: [u64; 32],
 }
 
+#[derive(BorshDeserialize, BorshSerialize, Copy, Clone, PartialEq, Eq, Debug)]
+#[repr(C)]
+struct FIFOOrderId {
+    price_in_ticks: u64,
+    order_sequence_number: u64,
+}
+
 #[derive(BorshDeserialize, BorshSerialize, Copy, Clone, PartialEq, Eq, Debug)]
 enum OrderPacket {
     PostOnly {
-- 
2.43.0

