// C01: orders never overdraw the account; failed orders change nothing.
#include "harness/account_model.h"

namespace {
using namespace model;  // NOLINT
using trader::kSecondsPerMinute;

float Ulp(float v) {
  v = std::abs(v);
  return std::nextafter(v, std::numeric_limits<float>::infinity()) - v;
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  Env env = GenEnv(s);
  AccountConfig config = GenAccountConfig(s, env);
  // Balances that are not multiples of the units (until the first order that
  // rounds them).
  const bool unaligned = s.Chance(1, 6);
  if (unaligned) {
    config.set_start_base_balance(GenBaseAmount(s, env, false));
    config.set_start_quote_balance(GenQuoteAmount(s, env, false));
  }
  const double base_slack = unaligned ? env.bu / 2 : 0, quote_slack = unaligned ? env.qu / 2 : 0;
  Account a;
  SetUp(s, a, config, "bqfBQ");
  PBT_DESC(c, Str(a) << " market " << Str(config.market_order_fee_config()) << " stop "
                     << Str(config.stop_order_fee_config()) << " limit "
                     << Str(config.limit_order_fee_config()) << "\n");
  const int n = s.SizeOrHuge(1, 60, 1500, 2048);
  int executed = 0, rejected = 0;
  for (int i = 0; i < n; ++i) {
    OhlcTick t = GenTick(s, env, 1483228800 + i * kSecondsPerMinute);
    t.set_volume(s.Chance(1, 6) ? 0 : GenBaseAmount(s, env, s.Bool()));
    const Order o = GenOrder(s, env, t, &a);
    const Account before = a;
    bool ok = false;
    // The same order can be placed also without the order message.
    const bool direct = s.Chance(1, 4);
    const FeeConfig& fee = FeeOf(config, o);
    if (!direct) {
      ok = a.ExecuteOrder(config, o, t);
    } else {
      const bool buy = o.side() == Order::BUY;
      const bool base = o.oneof_amount_case() == Order::kBaseAmount;
      const float amount = base ? o.base_amount() : o.quote_amount();
      switch (o.type()) {
        case Order::MARKET:
          if (s.Bool()) {
            const float price = t.close();
            ok = buy ? (base ? a.BuyBase(fee, amount, price) : a.BuyAtQuote(fee, amount, price))
                     : (base ? a.SellBase(fee, amount, price) : a.SellAtQuote(fee, amount, price));
          } else {
            ok = buy ? (base ? a.MarketBuy(fee, t, amount) : a.MarketBuyAtQuote(fee, t, amount))
                     : (base ? a.MarketSell(fee, t, amount) : a.MarketSellAtQuote(fee, t, amount));
          }
          break;
        case Order::STOP:
          ok = buy ? (base ? a.StopBuy(fee, t, amount, o.price()) : a.StopBuyAtQuote(fee, t, amount, o.price()))
                   : (base ? a.StopSell(fee, t, amount, o.price()) : a.StopSellAtQuote(fee, t, amount, o.price()));
          break;
        case Order::LIMIT:
          ok = buy ? (base ? a.LimitBuy(fee, t, amount, o.price()) : a.LimitBuyAtQuote(fee, t, amount, o.price()))
                   : (base ? a.LimitSell(fee, t, amount, o.price()) : a.LimitSellAtQuote(fee, t, amount, o.price()));
          break;
      }
    }
    PBT_DESC(c, i << ": " << Str(t) << " " << Str(o) << (direct ? " (direct)" : "") << " -> "
                  << (ok ? "executed" : "rejected") << " " << Str(a) << "\n");
    PBT_CHECK(SameParams(a, before), "account parameters changed by the order " << Str(o));
    // !(x >= 0) is true also for NaN.
    PBT_CHECK(a.base_balance >= 0 && a.quote_balance >= 0 && a.total_fee >= 0,
              "negative balance or fee after " << Str(o) << " on " << Str(t) << ": "
                                               << Str(before) << " -> " << Str(a));
    PBT_CHECK(std::isfinite(a.base_balance) && std::isfinite(a.quote_balance) &&
                  std::isfinite(a.total_fee),
              "balance or fee is not finite after " << Str(o));
    if (!ok) {
      ++rejected;
      PBT_CHECK(SameState(a, before), "rejected order changed the account: "
                                          << Str(o) << " on " << Str(t) << ": "
                                          << Str(before) << " -> " << Str(a));
    } else {
      ++executed;
      const double fee_slack = env.exact && env.qu > 0 ? 0 : 4 * Ulp(before.total_fee);
      PBT_CHECK(a.total_fee >= before.total_fee - fee_slack, "accumulated fee decreased by " << Str(o));
      const double db = static_cast<double>(a.base_balance) - before.base_balance;
      const double dir = o.side() == Order::BUY ? 1 : -1;
      const double ulps = 4.0 * Ulp(std::max(a.base_balance, before.base_balance));
      if (env.bu > ulps) {
        PBT_CHECK(dir * db >= env.bu - base_slack - ulps,
                  "executed order moved less than one base unit: " << Str(o) << ": "
                                                                   << Str(before) << " -> " << Str(a));
      } else {
        PBT_CHECK(dir * db >= -ulps, "executed order moved base in the wrong direction: " << Str(o));
      }
      const double dq = static_cast<double>(a.quote_balance) - before.quote_balance;
      PBT_CHECK(dir * dq <= quote_slack + 4.0 * Ulp(std::max(a.quote_balance, before.quote_balance)),
                "executed order moved quote in the wrong direction: "
                    << Str(o) << ": " << Str(before) << " -> " << Str(a));
    }
  }
  c.nontrivial = executed >= 1 && rejected >= 1;
  c.Label("executed orders", executed);
  c.Label("rejected orders", rejected);
  c.LabelIf(env.exact, "exact regime");
  c.LabelIf(unaligned, "start balances off the units");
  c.LabelIf(executed >= 10, "at least 10 executed orders");
  c.LabelIf(n >= 20, "at least 20 orders");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C01", "Orders never overdraw balances; failed orders change nothing",
    "Random account (units, fees, liquidity, volume ratio) and a random sequence of up to 60 "
    "market/stop/limit orders (base or quote amount, through the order message or directly) over "
    "random ticks; amounts are biased to the current balances. Non-trivial: at least one executed "
    "and one rejected order.",
    4000000, 150000000, Run, 20,
    {"Balances that start off the units may be rounded to them (by half a unit) by the first order.",
     "Starting balances are non-negative; prices are positive; amounts are below 2^24 units."}};
