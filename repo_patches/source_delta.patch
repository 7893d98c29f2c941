From 55821298c18c72a6474b5bc3152e189918c03bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 01/22] fix: terminate single-period evaluation over an empty
 history

With evaluation_period_months <= 0 and no OHLC ticks in the evaluated time
interval, EvaluateTrader looped forever.
---
 eval/eval.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index e290f2e..9d31c74 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -164,6 +164,9 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     const auto ohlc_history_subset = HistorySubset(
         ohlc_history, start_eval_timestamp_sec, end_eval_timestamp_sec);
     if (ohlc_history_subset.first == ohlc_history_subset.second) {
+      if (eval_config.evaluation_period_months() <= 0) {
+        break;
+      }
       continue;
     }
     std::unique_ptr<Trader> trader = trader_emitter.NewTrader();
@@ -178,7 +181,7 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     period->set_final_gain(result.end_value() / result.start_value());
     assert(result.start_price() > 0 && result.end_price() > 0);
     period->set_base_final_gain(result.end_price() / result.start_price());
-    if (eval_config.evaluation_period_months() == 0) {
+    if (eval_config.evaluation_period_months() <= 0) {
       break;
     }
   }
-- 
2.43.0


From 7f7052aedecf1b4a4e37b628b8e40ccb0c2e0208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 02/22] fix: return an empty history subset when it ends before
 it starts

HistorySubset returned a pair of inverted iterators for
end_timestamp_sec < start_timestamp_sec.
---
 base/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.h b/base/base.h
index ae54983..9eb073e 100644
--- a/base/base.h
+++ b/base/base.h
@@ -62,7 +62,7 @@ HistorySubset(const std::vector<T>& history, int64_t start_timestamp_sec,
           : history.begin();
   const auto record_end =
       end_timestamp_sec > 0
-          ? std::lower_bound(history.begin(), history.end(), end_timestamp_sec,
+          ? std::lower_bound(record_begin, history.end(), end_timestamp_sec,
                              record_compare)
           : history.end();
   return {record_begin, record_end};
-- 
2.43.0


From 7d96dcd44f1ce070f602daf6a162ef0e921fdbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 03/22] fix: report an empty side history instead of crashing
 the trader

SideInput expects a non-empty side history, but the selected time period might
not contain any side history record.
---
 trader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trader.cc b/trader.cc
index e8675fb..8e11c39 100644
--- a/trader.cc
+++ b/trader.cc
@@ -197,6 +197,10 @@ int main(int argc, char* argv[]) {
             absl::GetFlag(FLAGS_input_side_history_delimited_proto_file),
             start_time, end_time);
     CheckOk(side_history_status.status());
+    if (side_history_status.value().empty()) {
+      LogError("No side history records within the selected time period");
+      std::exit(EXIT_FAILURE);
+    }
     side_input = absl::make_unique<SideInput>(side_history_status.value());
   }
 
-- 
2.43.0


From 53b1bbabcbd9b5bff4c35a23a26348dcaea589d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 04/22] fix: never return a negative variance

Due to the limited precision the sliding window variance could be slightly
negative, in which case the standard deviation (and volatility) was NaN.
---
 indicators/util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/util.cc b/indicators/util.cc
index 0da1c03..b8f4f2f 100644
--- a/indicators/util.cc
+++ b/indicators/util.cc
@@ -17,8 +17,10 @@ float SlidingWindowMeanAndVariance::GetVariance() const {
   }
   const int window_size = GetWindowSize();
   const float mean = (current_value_ + window_sum_) / window_size;
-  return (std::pow(current_value_, 2) + window_sum_2_) / window_size -
-         std::pow(mean, 2);
+  // The difference can be slightly negative due to the limited precision.
+  return std::max(0.0, (std::pow(current_value_, 2) + window_sum_2_) /
+                               window_size -
+                           std::pow(mean, 2));
 }
 
 float SlidingWindowMeanAndVariance::GetStandardDeviation() const {
-- 
2.43.0


From c3d334d5ba89303d4a1117a3d2fe22b46a314074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 05/22] fix: return at most top_n gaps also when top_n is zero

The gap between the start_timestamp_sec and the first price record was returned
for a single record history even when no gaps were requested.
---
 base/history.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/history.cc b/base/history.cc
index 562ed20..9747fe9 100644
--- a/base/history.cc
+++ b/base/history.cc
@@ -32,6 +32,9 @@ std::vector<HistoryGap> GetPriceHistoryGaps(PriceHistory::const_iterator begin,
   std::vector<HistoryGap> history_gaps;
   if (start_timestamp_sec > 0) {
     gap_queue.push(HistoryGap{start_timestamp_sec, begin->timestamp_sec()});
+    if (gap_queue.size() > top_n) {
+      gap_queue.pop();
+    }
   }
   auto it_prev = end;
   for (auto it = begin; it != end; ++it) {
-- 
2.43.0


From cad2511eb2af5096eec44fd16ef6124066a96e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 06/22] fix: do not execute an order again after a zero volume
 tick

Orders are kept over the zero volume OHLC ticks. An order that was executed on
such a tick was kept as well, and therefore could be executed repeatedly.
---
 eval/eval.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index 9d31c74..7c81715 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -86,7 +86,8 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
     // The trader was updated on the previous OHLC tick T[i-1] and emitted
     // "orders". There are no other active orders on the exchange.
     // Execute (or cancel) "orders" on the current OHLC tick T[i].
-    for (const Order& order : orders) {
+    // Remove the executed orders, so that no order is executed more than once.
+    const auto execute_order = [&](const Order& order) -> bool {
       const bool success =
           account.ExecuteOrder(account_config, order, ohlc_tick);
       if (success) {
@@ -96,7 +97,10 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
           logger->LogExchangeState(ohlc_tick, account, order);
         }
       }
-    }
+      return success;
+    };
+    orders.erase(std::remove_if(orders.begin(), orders.end(), execute_order),
+                 orders.end());
     if (ohlc_tick.volume() == 0) {
       // Zero volume OHLC tick indicates a gap in a price history. Such gap
       // could have been caused by an unresponsive exchange (or its API).
-- 
2.43.0


From ddb8cbb74a88e73b02dbb725ca1a1d02b157c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 07/22] fix: scale rebalancing limit prices by the base balance

The base allocation is base_balance * price / portfolio_value, so the price at
which it leaves the allowed interval depends on the base balance. The limit
prices were correct only for the base balance of 1.
---
 traders/rebalancing_trader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traders/rebalancing_trader.cc b/traders/rebalancing_trader.cc
index 017692b..cdd02f3 100644
--- a/traders/rebalancing_trader.cc
+++ b/traders/rebalancing_trader.cc
@@ -40,8 +40,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
     order.set_base_amount(market_buy_base_amount);
   } else if (base_balance > 1.0e-6f && quote_balance > 1.0e-6f) {
     if (alpha * (1 + epsilon) < 1) {
-      const float sell_price =
-          (alpha * (1 + epsilon) * quote_balance) / (1 - alpha * (1 + epsilon));
+      const float sell_price = (alpha * (1 + epsilon) * quote_balance) /
+                               (1 - alpha * (1 + epsilon)) / base_balance;
       if (sell_price > price && sell_price < 100.0f * price) {
         const float sell_base_amount = base_balance * epsilon / (1 + epsilon);
         orders.emplace_back();
@@ -52,8 +52,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
         sell_order.set_price(sell_price);
       }
     }
-    const float buy_price =
-        (alpha * (1 - epsilon) * quote_balance) / (1 - alpha * (1 - epsilon));
+    const float buy_price = (alpha * (1 - epsilon) * quote_balance) /
+                            (1 - alpha * (1 - epsilon)) / base_balance;
     if (buy_price < price && buy_price > price / 100.0f) {
       const float buy_base_amount = base_balance * epsilon / (1 - epsilon);
       orders.emplace_back();
-- 
2.43.0


From 3b0bf654da78e1e1a4be0d67e02fcfae166a5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 08/22] fix: do not execute orders for a zero base amount

Without the base unit, an order that cannot be filled at all (e.g. limit order
on a zero volume tick) was reported as executed and charged a fee.
---
 base/account.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/account.cc b/base/account.cc
index f74272b..cd56b82 100644
--- a/base/account.cc
+++ b/base/account.cc
@@ -79,7 +79,7 @@ bool Account::BuyBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit) {
+  if (base_amount <= 0 || base_amount < base_unit) {
     return false;
   }
   const float quote_amount = Ceil(base_amount * price, quote_unit);
@@ -119,7 +119,8 @@ bool Account::SellBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit || base_amount > base_balance) {
+  if (base_amount <= 0 || base_amount < base_unit ||
+      base_amount > base_balance) {
     return false;
   }
   const float quote_amount = Floor(base_amount * price, quote_unit);
-- 
2.43.0


From 1194181f080f8516cd6302a3aade731459795690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 09/22] fix: report a failed write of delimited messages

Messages are buffered, and a failure to write the buffered data to the output
stream (e.g. when the disk is full) was not reported.
---
 util/proto.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/util/proto.h b/util/proto.h
index 5b7ebeb..c6be52b 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -100,12 +100,13 @@ absl::Status ReadDelimitedMessagesFromFile(const std::string& file_name,
       });
 }
 
-// Writes (and compresses) delimited messages to the output file.
+namespace internal {
+// Serializes (and compresses) delimited messages to the output stream.
+// Some of the serialized data are written to the output stream only when this
+// function returns, so the caller needs to check the state of the stream.
 template <class InputIterator>
-absl::Status WriteDelimitedMessagesToOStream(InputIterator first,
-                                             InputIterator last,
-                                             std::ostream& stream,
-                                             bool compress) {
+absl::Status SerializeDelimitedMessages(InputIterator first, InputIterator last,
+                                        std::ostream& stream, bool compress) {
   google::protobuf::io::OstreamOutputStream out_stream(&stream);
 #ifdef HAVE_ZLIB
   google::protobuf::io::GzipOutputStream::Options options;
@@ -127,6 +128,21 @@ absl::Status WriteDelimitedMessagesToOStream(InputIterator first,
   }
   return absl::OkStatus();
 }
+}  // namespace internal
+
+// Writes (and compresses) delimited messages to the output stream.
+template <class InputIterator>
+absl::Status WriteDelimitedMessagesToOStream(InputIterator first,
+                                             InputIterator last,
+                                             std::ostream& stream,
+                                             bool compress) {
+  const absl::Status status =
+      internal::SerializeDelimitedMessages(first, last, stream, compress);
+  if (status.ok() && !stream.flush()) {
+    return absl::DataLossError("Cannot write to the output stream");
+  }
+  return status;
+}
 
 // Writes (and compresses) delimited messages to the output file.
 template <class InputIterator>
-- 
2.43.0


From aa2e3ecd75fcce15b0f266421fd17b36d0219e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 10/22] fix: report corrupted input of delimited messages

A decompression error (corrupted data or data that are not compressed at all) at
the message boundary was treated as the end of the input.
---
 util/proto.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index c6be52b..4514904 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -45,6 +45,13 @@ absl::Status ReadDelimitedMessagesFromIStream(
     bool parsed = google::protobuf::util::ParseDelimitedFromZeroCopyStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
+#ifdef HAVE_ZLIB
+      // Decompression error at the message boundary is not a clean EOF.
+      const int zlib_error = gzip_stream.ZlibErrorCode();
+      if (zlib_error < 0 && zlib_error != Z_BUF_ERROR) {
+        clean_eof = false;
+      }
+#endif
       if (clean_eof) {
         return absl::OkStatus();
       }
-- 
2.43.0


From fb28cc7fb1d10fab4d38fca0838bf7d0f671ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 11/22] fix: reject CSV lines that cannot be parsed

Values missing on a malformed (or blank) line were silently taken from the
previous line, i.e. convert fabricated price records and OHLC ticks.
---
 convert.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/convert.cc b/convert.cc
index fd6d36b..39b46fb 100644
--- a/convert.cc
+++ b/convert.cc
@@ -81,7 +81,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   PriceHistory price_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price,
+                    &volume) != 3) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
@@ -137,8 +141,12 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   OhlcHistory ohlc_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
-                &timestamp_sec, &open, &high, &low, &close, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
+                    &timestamp_sec, &open, &high, &low, &close,
+                    &volume) != 6) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
-- 
2.43.0


From a297fe7131a18b23971f03f55b6439a12a773b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 12/22] fix: reject side input CSV lines with invalid signals

Signals following a signal that cannot be parsed were silently dropped.
---
 convert.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/convert.cc b/convert.cc
index 39b46fb..4729ca2 100644
--- a/convert.cc
+++ b/convert.cc
@@ -225,6 +225,10 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
     while (iss >> signal) {
       side_history.back().add_signal(signal);
     }
+    if (!iss.eof()) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Cannot parse the signals on the line %d: %s", row, line));
+    }
     if (num_signals == 0) {
       num_signals = side_history.back().signal_size();
     }
-- 
2.43.0


From 7f68e654fe78fe6fdecada37e05aee381df6d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 13/22] fix: reject infinite and NaN prices and volumes

NaN passed all the checks of the input price and OHLC histories.
---
 convert.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/convert.cc b/convert.cc
index 4729ca2..aae13db 100644
--- a/convert.cc
+++ b/convert.cc
@@ -57,6 +57,11 @@ void CheckOk(const absl::Status status) {
     std::exit(EXIT_FAILURE);
   }
 }
+// The following functions return false also for NaN.
+bool IsPositiveFinite(float value) { return value > 0 && std::isfinite(value); }
+bool IsNonNegativeFinite(float value) {
+  return value >= 0 && std::isfinite(value);
+}
 
 // Reads the input CSV file containing the historical prices.
 absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
@@ -96,11 +101,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (price <= 0) {
+    if (!IsPositiveFinite(price)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid price on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!IsNonNegativeFinite(volume)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -157,12 +162,13 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (open <= 0 || high <= 0 || low <= 0 || close <= 0 || low > open ||
+    if (!IsPositiveFinite(open) || !IsPositiveFinite(high) ||
+        !IsPositiveFinite(low) || !IsPositiveFinite(close) || low > open ||
         low > high || low > close || high < open || high < close) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid OHLC prices on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!IsNonNegativeFinite(volume)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -301,10 +307,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const PriceRecord& price_record) -> absl::Status {
-        if (price_record.price() <= 0) {
+        if (!IsPositiveFinite(price_record.price())) {
           return absl::InvalidArgumentError("Invalid price");
         }
-        if (price_record.volume() < 0) {
+        if (!IsNonNegativeFinite(price_record.volume())) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
@@ -319,8 +325,10 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const OhlcTick& ohlc_tick) -> absl::Status {
-        if (ohlc_tick.open() <= 0 || ohlc_tick.high() <= 0 ||
-            ohlc_tick.low() <= 0 || ohlc_tick.close() <= 0 ||
+        if (!IsPositiveFinite(ohlc_tick.open()) ||
+            !IsPositiveFinite(ohlc_tick.high()) ||
+            !IsPositiveFinite(ohlc_tick.low()) ||
+            !IsPositiveFinite(ohlc_tick.close()) ||
             ohlc_tick.low() > ohlc_tick.open() ||
             ohlc_tick.low() > ohlc_tick.high() ||
             ohlc_tick.low() > ohlc_tick.close() ||
@@ -328,7 +336,7 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
             ohlc_tick.high() < ohlc_tick.close()) {
           return absl::InvalidArgumentError("Invalid OHLC prices");
         }
-        if (ohlc_tick.volume() < 0) {
+        if (!IsNonNegativeFinite(ohlc_tick.volume())) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
-- 
2.43.0


From cd28f6cdc494b8c4d457caa2dcfd42d869cec3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 14/22] fix: convert: reject side CSV rows ending with an
 unparsable signal

---
 convert.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/convert.cc b/convert.cc
index aae13db..4c2616a 100644
--- a/convert.cc
+++ b/convert.cc
@@ -228,13 +228,13 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
     timestamp_sec_prev = timestamp_sec;
     side_history.emplace_back();
     side_history.back().set_timestamp_sec(timestamp_sec);
-    while (iss >> signal) {
+    while (!(iss >> std::ws).eof()) {
+      if (!(iss >> signal)) {
+        return absl::InvalidArgumentError(absl::StrFormat(
+            "Cannot parse the signals on the line %d: %s", row, line));
+      }
       side_history.back().add_signal(signal);
     }
-    if (!iss.eof()) {
-      return absl::InvalidArgumentError(absl::StrFormat(
-          "Cannot parse the signals on the line %d: %s", row, line));
-    }
     if (num_signals == 0) {
       num_signals = side_history.back().signal_size();
     }
-- 
2.43.0


From 9f5f7d04a6de1d4dbc05f526c5b036fea4255546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 15/22] fix: report a failed read of the input stream

---
 util/proto.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index 4514904..0e81406 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -52,6 +52,10 @@ absl::Status ReadDelimitedMessagesFromIStream(
         clean_eof = false;
       }
 #endif
+      // Neither is a failed read from the input stream.
+      if (stream.bad()) {
+        return absl::DataLossError("Cannot read from the input stream");
+      }
       if (clean_eof) {
         return absl::OkStatus();
       }
-- 
2.43.0


From 295f9fbba94704e64c34b0596c7abc079621ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 16/22] fix: report a compressed stream that is cut at a
 message boundary

---
 util/proto.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/util/proto.h b/util/proto.h
index 0e81406..ef8c3c5 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -40,19 +40,30 @@ absl::Status ReadDelimitedMessagesFromIStream(
   google::protobuf::io::ZeroCopyInputStream& gzip_stream = in_stream;
 #endif
   while (true) {
+#ifdef HAVE_ZLIB
+    // The input might end only when the decompression is finished (or when
+    // there is no input at all).
+    const void* data = nullptr;
+    int size = 0;
+    int zlib_code = Z_OK;
+    bool has_data = false;
+    do {
+      zlib_code = gzip_stream.ZlibErrorCode();
+      has_data = gzip_stream.Next(&data, &size);
+    } while (has_data && size == 0);
+    if (has_data) {
+      gzip_stream.BackUp(size);
+    } else if (gzip_stream.ZlibErrorCode() < 0 ||
+               (zlib_code != Z_STREAM_END && in_stream.ByteCount() > 0)) {
+      return absl::InvalidArgumentError("Cannot decompress the input stream");
+    }
+#endif
     T message;
     bool clean_eof;
     bool parsed = google::protobuf::util::ParseDelimitedFromZeroCopyStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
-#ifdef HAVE_ZLIB
-      // Decompression error at the message boundary is not a clean EOF.
-      const int zlib_error = gzip_stream.ZlibErrorCode();
-      if (zlib_error < 0 && zlib_error != Z_BUF_ERROR) {
-        clean_eof = false;
-      }
-#endif
-      // Neither is a failed read from the input stream.
+      // A failed read from the input stream is not a clean EOF.
       if (stream.bad()) {
         return absl::DataLossError("Cannot read from the input stream");
       }
-- 
2.43.0


From 78c15a57ffd87d8cf69615e572ed24c10042627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 17/22] fix: report garbage after the last message as an error

---
 util/proto.h | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/util/proto.h b/util/proto.h
index ef8c3c5..cf21e3d 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -41,35 +41,38 @@ absl::Status ReadDelimitedMessagesFromIStream(
 #endif
   while (true) {
 #ifdef HAVE_ZLIB
-    // The input might end only when the decompression is finished (or when
-    // there is no input at all).
+    int zlib_code = Z_OK;
+#endif
     const void* data = nullptr;
     int size = 0;
-    int zlib_code = Z_OK;
     bool has_data = false;
     do {
+#ifdef HAVE_ZLIB
       zlib_code = gzip_stream.ZlibErrorCode();
+#endif
       has_data = gzip_stream.Next(&data, &size);
     } while (has_data && size == 0);
-    if (has_data) {
-      gzip_stream.BackUp(size);
-    } else if (gzip_stream.ZlibErrorCode() < 0 ||
-               (zlib_code != Z_STREAM_END && in_stream.ByteCount() > 0)) {
-      return absl::InvalidArgumentError("Cannot decompress the input stream");
-    }
-#endif
-    T message;
-    bool clean_eof;
-    bool parsed = google::protobuf::util::ParseDelimitedFromZeroCopyStream(
-        &message, &gzip_stream, &clean_eof);
-    if (!parsed) {
-      // A failed read from the input stream is not a clean EOF.
+    if (!has_data) {
       if (stream.bad()) {
         return absl::DataLossError("Cannot read from the input stream");
       }
-      if (clean_eof) {
-        return absl::OkStatus();
+#ifdef HAVE_ZLIB
+      // The input might end only when the decompression is finished (or when
+      // there is no input at all).
+      if (gzip_stream.ZlibErrorCode() < 0 ||
+          (zlib_code != Z_STREAM_END && in_stream.ByteCount() > 0)) {
+        return absl::InvalidArgumentError("Cannot decompress the input stream");
       }
+#endif
+      return absl::OkStatus();
+    }
+    gzip_stream.BackUp(size);
+    // There are some data, so failed parsing never means the end of the input
+    // (not even if no data were consumed, i.e. clean_eof is not reliable).
+    T message;
+    bool parsed = google::protobuf::util::ParseDelimitedFromZeroCopyStream(
+        &message, &gzip_stream, /*clean_eof=*/nullptr);
+    if (!parsed) {
       return absl::InvalidArgumentError("Cannot parse the input stream");
     }
     ReaderStatus reader_status = reader(message);
-- 
2.43.0


From 65f8da8e1495051391f1f75bc67667904e76da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 18/22] fix: compute the evaluation score of many periods
 without underflow

---
 eval/eval.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index 7c81715..389ea50 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -26,12 +26,14 @@ float GetGeometricAverage(const C& container, F selector) {
   if (container.empty()) {
     return 0;
   }
-  double mul = 1;
+  // Note: The product of many values could underflow or overflow.
+  double log_sum = 0;
   for (const auto& element : container) {
-    mul *= selector(element);
+    const double value = selector(element);
+    assert(value >= 0);
+    log_sum += std::log(value);
   }
-  assert(mul >= 0);
-  return static_cast<float>(std::pow(mul, 1.0 / container.size()));
+  return static_cast<float>(std::exp(log_sum / container.size()));
 }
 }  // namespace
 
-- 
2.43.0


From 700cbb9abae2a36f7c9fdfd811808e4766a0f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 19/22] fix: accept complete compressed streams that end with a
 full buffer

The check of streams cut at a message boundary rejected complete streams
whose decompressed length is a multiple of the buffer size.
---
 util/proto.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/util/proto.h b/util/proto.h
index cf21e3d..10d38ea 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -41,14 +41,17 @@ absl::Status ReadDelimitedMessagesFromIStream(
 #endif
   while (true) {
 #ifdef HAVE_ZLIB
-    int zlib_code = Z_OK;
+    bool finished = false;
 #endif
     const void* data = nullptr;
     int size = 0;
     bool has_data = false;
     do {
 #ifdef HAVE_ZLIB
-      zlib_code = gzip_stream.ZlibErrorCode();
+      // Note: There is no progress after Z_BUF_ERROR.
+      if (gzip_stream.ZlibErrorCode() != Z_BUF_ERROR) {
+        finished = gzip_stream.ZlibErrorCode() == Z_STREAM_END;
+      }
 #endif
       has_data = gzip_stream.Next(&data, &size);
     } while (has_data && size == 0);
@@ -60,7 +63,7 @@ absl::Status ReadDelimitedMessagesFromIStream(
       // The input might end only when the decompression is finished (or when
       // there is no input at all).
       if (gzip_stream.ZlibErrorCode() < 0 ||
-          (zlib_code != Z_STREAM_END && in_stream.ByteCount() > 0)) {
+          (!finished && in_stream.ByteCount() > 0)) {
         return absl::InvalidArgumentError("Cannot decompress the input stream");
       }
 #endif
-- 
2.43.0


From 650b10ea67ec762249b42c3f1ff39b011513c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:10 +0000
Subject: [PATCH 20/22] fix: report logs that could not be written completely

---
 trader.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/trader.cc b/trader.cc
index 8e11c39..7571d56 100644
--- a/trader.cc
+++ b/trader.cc
@@ -120,6 +120,16 @@ absl::StatusOr<std::unique_ptr<std::ofstream>> OpenLogFile(
   return log_stream;
 }
 
+// Flushes the log file and verifies that everything was written to it.
+absl::Status FlushLogFile(const std::string& log_filename,
+                          std::ofstream* log_stream) {
+  if (log_stream != nullptr && !log_stream->flush()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot write the file: %s", log_filename));
+  }
+  return absl::OkStatus();
+}
+
 void PrintBatchEvalResults(const std::vector<EvaluationResult>& eval_results,
                            size_t top_n) {
   const size_t eval_count = std::min(top_n, eval_results.size());
@@ -234,6 +244,10 @@ int main(int argc, char* argv[]) {
     EvaluationResult eval_result =
         EvaluateTrader(account_config, eval_config, ohlc_history,
                        side_input.get(), *trader_emitter, &logger);
+    CheckOk(FlushLogFile(absl::GetFlag(FLAGS_output_exchange_log_file),
+                         exchange_log_stream_status.value().get()));
+    CheckOk(FlushLogFile(absl::GetFlag(FLAGS_output_trader_log_file),
+                         trader_log_stream_status.value().get()));
     PrintTraderEvalResult(eval_result);
   }
   LogInfo(
-- 
2.43.0


From 20c0593a339a449b8dab280301e8a73db4163228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:34 +0000
Subject: [PATCH 21/22] fix: report CSV files that could not be read completely

---
 convert.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/convert.cc b/convert.cc
index 4c2616a..3f355a1 100644
--- a/convert.cc
+++ b/convert.cc
@@ -115,6 +115,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
     price_history.back().set_price(price);
     price_history.back().set_volume(volume);
   }
+  if (infile.bad()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(
       absl::StrFormat("Loaded %d records in %.3f seconds", price_history.size(),
                       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
@@ -181,6 +185,10 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
     ohlc_history.back().set_close(close);
     ohlc_history.back().set_volume(volume);
   }
+  if (infile.bad()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(absl::StrFormat(
       "Loaded %d OHLC ticks in %.3f seconds", ohlc_history.size(),
       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
@@ -243,6 +251,10 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
           "Invalid number of signals on the line %d: %s", row, line));
     }
   }
+  if (infile.bad()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(
       absl::StrFormat("Loaded %d records in %.3f seconds", side_history.size(),
                       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
-- 
2.43.0


From aea0fe70e50dfad323baf80fb30c3ec3ebf59dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:13 +0000
Subject: [PATCH 22/22] fix: do not lose the context of outliers when its size
 is (nearly) unlimited

---
 base/history.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/history.cc b/base/history.cc
index 9747fe9..aa633fd 100644
--- a/base/history.cc
+++ b/base/history.cc
@@ -126,6 +126,8 @@ std::map<size_t, bool> GetOutlierIndicesWithContext(
     const std::vector<size_t>& outlier_indices, size_t price_history_size,
     size_t left_context_size, size_t right_context_size, size_t last_n) {
   std::map<size_t, bool> index_to_outlier;
+  // Note: The sum below could overflow.
+  right_context_size = std::min(right_context_size, price_history_size);
   const size_t start_i = (last_n == 0 || outlier_indices.size() <= last_n)
                              ? 0
                              : outlier_indices.size() - last_n;
-- 
2.43.0

