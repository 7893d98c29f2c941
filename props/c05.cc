// C05: triggering and execution prices.
#include "harness/account_model.h"

namespace {
using namespace model;  // NOLINT

void Run(pbt::Case& c) {
  auto& s = c.s;
  Env env = GenEnv(s, 3, 1);
  env.qu = 0;  // The traded value is not rounded, so it reveals the price.
  if (env.exact) env.bu = 0.125 * env.b_scale;
  AccountConfig config;
  config.set_base_unit(env.bu);
  config.set_quote_unit(0);
  config.set_market_liquidity(GenLiquidity(s, env));
  config.set_max_volume_ratio(0);
  const double huge = env.exact ? 4096 * env.q_scale() : Float(env.base_scale * env.price_scale * 16);
  // On the base unit: the balance is rounded to it by every execution.
  const double unit = env.bu > 0 ? Float(env.bu) : 1;
  const double huge_base = env.exact   ? 4096 * env.b_scale
                           : env.bu > 0 ? Float(unit * std::round(env.base_scale * 16 / unit))
                                        : Float(env.base_scale * 16);
  const int steps = s.SizeOrHuge(1, 16, 400, 1024);
  int triggered = 0, waiting = 0;
  for (int i = 0; i < steps; ++i) {
    Account a;
    config.set_start_base_balance(huge_base);
    config.set_start_quote_balance(huge);
    SetUp(s, a, config, "l");
    OhlcTick t = GenTick(s, env, 1483228800 + 60 * i);
    // The volume does not matter without the volume ratio.
    t.set_volume(s.Chance(1, 4) ? 0 : GenBaseAmount(s, env, true));
    Order o = GenOrder(s, env, t, nullptr);
    double amount = 0;
    if (env.exact) {
      amount = 0.125 * env.b_scale * (1 + s.Draw(63));
    } else {
      amount = Float(env.base_scale * (0.25 + 0.5 * s.Unit(10)));
    }
    const bool by_quote = s.Chance(1, 4);
    if (by_quote) {
      const double ref = o.has_price() ? std::min(t.low(), o.price()) : t.low();
      o.set_quote_amount(env.exact ? env.b_scale * ref * (1 + s.Draw(64)) / 8 : ref * env.base_scale * (0.25 + s.Unit(10)));
    } else {
      o.set_base_amount(amount);
    }
    const bool buy = o.side() == Order::BUY;
    const Account before = a;
    const bool ok = a.ExecuteOrder(config, o, t);
    const bool want = Triggered(o, t);
    const Iv price = Price(before, o, t);
    std::ostringstream what;
    what.precision(10);
    what << Str(o) << " " << Str(t) << " liq=" << before.market_liquidity << ": "
         << (ok ? "executed " : "not executed ") << Str(a) << "; expected "
         << (want ? "triggered" : "not triggered") << " price " << price;
    PBT_DESC(c, what.str() << "\n");
    if (!want) {
      ++waiting;
      PBT_CHECK(!ok, "order was executed although it was not triggered: " << what.str());
      continue;
    }
    ++triggered;
    c.Label((Order::Type_Name(o.type()) + " " + Order::Side_Name(o.side())).c_str());
    c.LabelIf(o.type() != Order::MARKET && (o.price() == t.low() || o.price() == t.high()),
              "order price at the low or high");
    if (by_quote && env.bu > 0) {
      // Might be too small an amount for one base unit.
      if (!ok) {
        PBT_CHECK(Iv(o.quote_amount()).lo / price.hi < env.bu * 1.01,
                  "triggered order was not executed: " << what.str());
        continue;
      }
    } else {
      PBT_CHECK(ok, "triggered order was not executed: " << what.str());
    }
    const Iv base_1 = Stored(a.base_balance, env, env.bu), base_0 = Stored(before.base_balance, env, env.bu);
    const Iv quote_1 = Stored(a.quote_balance, env, 1), quote_0 = Stored(before.quote_balance, env, 1);
    const Iv base = buy ? base_1 - base_0 : base_0 - base_1;
    const Iv quote = buy ? quote_0 - quote_1 : quote_1 - quote_0;
    const Iv value = base * price;
    PBT_CHECK(quote.hi >= value.lo && quote.lo <= value.hi,
              "traded " << base << " for " << quote << " instead of " << value << ": " << what.str());
    c.LabelIf(base.exact() && quote.exact() && value.exact(), "exact price");
    // Price getters agree with the executed price.
    if (o.type() != Order::LIMIT) {
      const float got = o.type() == Order::MARKET
                            ? (buy ? before.GetMarketBuyPrice(t) : before.GetMarketSellPrice(t))
                            : (buy ? before.GetStopBuyPrice(t, o.price()) : before.GetStopSellPrice(t, o.price()));
      PBT_CHECK(price.Contains(got), "price " << got << " instead of " << price << ": " << what.str());
      const double eps = env.exact ? 0 : 1e-5 * t.high();
      PBT_CHECK(got >= t.low() - eps && got <= t.high() + eps, "price is out of the tick: " << what.str());
      const double reference = o.type() == Order::MARKET ? t.open()
                               : buy ? std::max(o.price(), t.open()) : std::min(o.price(), t.open());
      PBT_CHECK(buy ? got >= reference - eps : got <= reference + eps,
                "price is better than the reference price: " << what.str());
    }
  }
  c.nontrivial = triggered > 0;
  c.Label("not triggered orders", waiting);
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C05", "Orders trigger and execute at the documented prices",
    "Well funded account without fees and quote unit, random liquidity, ticks and orders of all types "
    "with prices biased to the tick's open/high/low/close and just beyond; the execution price is "
    "recovered from the balances. Non-trivial: at least one triggered order.",
    800000, 40000000, Run};
