// C02: executed orders settle at the exact value, rounded against the trader.
#include "harness/account_model.h"

namespace {
using namespace model;  // NOLINT

void Run(pbt::Case& c) {
  auto& s = c.s;
  Env env = GenEnv(s, 4, 1);
  AccountConfig config = GenAccountConfig(s, env);
  config.set_max_volume_ratio(0);
  Account a;
  SetUp(s, a, config, "BQ");
  if (s.Chance(1, 3)) a.total_fee = GenQuoteAmount(s, env, true);
  const int steps = s.SizeOrHuge(1, 12, 400, 1024);
  int executed = 0, boundary = 0;
  for (int i = 0; i < steps; ++i) {
    OhlcTick t = GenTick(s, env, 1483228800 + 60 * i);
    t.set_volume(GenBaseAmount(s, env, true));
    const bool buy = s.Bool();
    const FeeConfig fee = GenFee(s, env);
    double amount = GenBaseAmount(s, env, s.Bool());
    if (!buy && s.Bool()) {
      const double unit = env.BaseUnitOr(0.125);
      amount = Float(a.base_balance + unit * (s.Draw(9) / 4.0 - 1));
    }
    amount = std::max(0.0, Float(amount));
    // Execution price and the way the order is placed.
    const int how = s.Draw(3);
    double price = 0;
    if (how == 0) {
      price = GenPrice(s, env);
    } else if (how == 1) {  // Limit order at a price within the tick.
      price = s.Bool() ? t.low() : t.high();
    } else {  // Market order executed at the opening price.
      a.market_liquidity = 1.0f;
      price = t.open();
    }
    auto fee_of = [&](Iv q) {
      return Iv(a.GetFee(fee, std::max(0.0, q.lo)), a.GetFee(fee, std::max(0.0, q.hi)));
    };
    const Iv base = RoundU(Iv(amount), env.bu);
    const Iv quote = buy ? CeilU(base * Iv(price), env.qu) : FloorU(base * Iv(price), env.qu);
    // Boundary: the balance is (nearly) the exact cost.
    if (buy && s.Chance(2, 3)) {
      const double unit = env.QuoteUnitOr(0.125);
      const double cost = (quote + fee_of(quote)).hi + unit * (static_cast<double>(s.Draw(3)) - 1);
      if (cost >= 0) {
        a.quote_balance = cost;
        ++boundary;
      }
    } else if (s.Chance(1, 3)) {
      a.quote_balance = GenQuoteAmount(s, env, true);
    }
    if (!buy && s.Chance(1, 3)) a.base_balance = GenBaseAmount(s, env, true);
    const Account before = a;
    bool ok = false;
    if (how == 0) {
      ok = buy ? a.BuyBase(fee, amount, price) : a.SellBase(fee, amount, price);
    } else if (how == 1) {
      ok = buy ? a.LimitBuy(fee, t, amount, price) : a.LimitSell(fee, t, amount, price);
    } else {
      ok = buy ? a.MarketBuy(fee, t, amount) : a.MarketSell(fee, t, amount);
    }
    const Iv total = buy ? quote + fee_of(quote) : quote - fee_of(quote);
    Tri expected = And(Lt(Iv(0), base), Le(Iv(env.bu), base));
    if (buy) {
      expected = And(expected, Le(total, Iv(before.quote_balance)));
    } else {
      expected = And(expected, And(Le(base, Iv(before.base_balance)), Le(Iv(env.qu), total)));
    }
    std::ostringstream what;
    what.precision(10);
    what << (buy ? "buy " : "sell ") << amount << " at " << price << " " << Str(fee) << " how=" << how
         << ": " << Str(before) << " -> " << (ok ? "executed " : "rejected ") << Str(a)
         << "; expected executed=" << Name(expected) << " base=" << base << " quote=" << quote
         << " total=" << total;
    PBT_DESC(c, what.str() << "\n");
    PBT_CHECK(expected != Tri::kYes || ok, "affordable order was rejected: " << what.str());
    PBT_CHECK(expected != Tri::kNo || !ok, "order must be rejected: " << what.str());
    if (!ok) continue;
    ++executed;
    c.LabelIf(base.exact() && quote.exact(), "exact settlement");
    // The fee is taken from the account itself here (it is decided by C03).
    const Iv charged = fee_of(quote);
    const Iv new_base = RoundU(buy ? Iv(before.base_balance) + base : Iv(before.base_balance) - base, env.bu);
    const Iv new_quote = RoundU(buy ? Iv(before.quote_balance) - (quote + charged)
                                    : Iv(before.quote_balance) + (quote - charged), env.qu);
    PBT_CHECK(new_base.Contains(a.base_balance), "base balance should be " << new_base << ": " << what.str());
    PBT_CHECK(new_quote.Contains(a.quote_balance), "quote balance should be " << new_quote << ": " << what.str());
    const Iv new_fee = RoundU(Iv(before.total_fee) + fee_of(quote), env.qu);
    PBT_CHECK(new_fee.Contains(a.total_fee), "accumulated fee should be " << new_fee << ": " << what.str());
  }
  c.nontrivial = executed > 0;
  c.Label("executed orders", executed);
  c.Label("boundary balances", boundary);
  c.LabelIf(env.exact, "exact regime");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C02", "Executed orders settle at exact value, rounded against the trader",
    "Base-amount orders (direct, limit, market at open) on a random account, balances biased to the "
    "exact cost +- one unit. Exact regime: power-of-two units and few-bit values, so that a single "
    "settlement is allowed; realistic regime: decimal units with an interval model of float rounding. "
    "Non-trivial: at least one executed order.",
    800000, 40000000, Run, 20,
    {"Values are within the precision of single floats (at most 2^22 units)."}};
