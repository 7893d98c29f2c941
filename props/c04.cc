// C04: orders with a quote amount.
#include "harness/account_model.h"

namespace {
using namespace model;  // NOLINT

void Run(pbt::Case& c) {
  auto& s = c.s;
  Env env = GenEnv(s, 4, 1);
  AccountConfig config = GenAccountConfig(s, env);
  const int steps = s.SizeOrHuge(1, 12, 400, 1024);
  int executed = 0;
  for (int i = 0; i < steps; ++i) {
    Account a;
    SetUp(s, a, config, "BQ");
    a.base_balance = GenBaseAmount(s, env, true) * (s.Bool() ? 1 : 8);
    a.quote_balance = GenQuoteAmount(s, env, true);
    OhlcTick t = GenTick(s, env, 1483228800 + 60 * i);
    t.set_volume(GenBaseAmount(s, env, s.Bool()));
    Order o = GenOrder(s, env, t, &a);
    double q = GenQuoteAmount(s, env, s.Bool());
    if (s.Chance(1, 2)) {
      const double unit = env.QuoteUnitOr(0.125);
      q = a.quote_balance + unit * (static_cast<double>(s.Draw(5)) - 2) / 2;
    }
    if (o.side() == Order::SELL && s.Chance(1, 3)) {
      // About the value of the whole base balance.
      q = FewBits(a.base_balance * t.open() * (0.75 + s.Draw(3) / 4.0), 10);
    }
    if (!(Float(q) > 0)) q = env.QuoteUnitOr(0.125);
    o.set_quote_amount(q);
    const Account before = a;
    const bool ok = a.ExecuteOrder(config, o, t);
    const Expect e = Execute(before, config, o, t);
    std::ostringstream what;
    what.precision(10);
    what << Str(o) << " " << Str(FeeOf(config, o)) << " " << Str(t) << ": " << Str(before) << " -> "
         << (ok ? "executed " : "rejected ") << Str(a) << "; expected " << Name(e.executes)
         << " base=" << e.base << " quote=" << e.quote << " fee=" << e.fee;
    PBT_DESC(c, what.str() << "\n");
    PBT_CHECK(e.executes != Tri::kYes || ok, "feasible order was rejected: " << what.str());
    PBT_CHECK(e.executes != Tri::kNo || !ok, "infeasible order was executed: " << what.str());
    if (!ok) continue;
    ++executed;
    const bool buy = o.side() == Order::BUY;
    const Iv cap = RoundU(Iv(o.quote_amount()), env.qu);
    const double spent = buy ? double(before.quote_balance) - a.quote_balance
                             : double(a.quote_balance) - before.quote_balance;
    // Up to one quote unit (by rounding up a float error) outside of the exact values.
    const bool representable = env.exact && e.new_quote.exact();
    const double slack = representable ? 0 : 2 * env.qu + 1e-6 * (before.quote_balance + a.quote_balance + cap.hi + e.fee.hi);
    PBT_CHECK(spent <= cap.hi + slack,
              (buy ? "spent " : "received ") << spent << " over the quote amount " << cap << ": " << what.str());
    PBT_CHECK(e.new_base.Contains(a.base_balance),
              "traded base should lead to the balance " << e.new_base << ": " << what.str());
    PBT_CHECK(e.new_quote.Contains(a.quote_balance),
              "quote balance should be " << e.new_quote << ": " << what.str());
    c.LabelIf(e.new_base.exact() && e.new_quote.exact(), "exact execution");
    c.Label(buy ? "executed buy" : "executed sell");
    c.LabelIf(o.type() == Order::LIMIT && config.max_volume_ratio() > 0, "executed capped limit");
  }
  c.nontrivial = executed > 0;
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C04", "Quote-amount orders stay within the amount and trade the most it allows",
    "Random orders of all types with a quote amount (biased to the balance, to the value of the base "
    "balance, and to unit boundaries) on random accounts; compared with a reference model of the "
    "largest feasible base amount. Non-trivial: at least one executed order.",
    800000, 40000000, Run, 20,
    {"Values are within the precision of single floats (at most 2^22 units)."}};
