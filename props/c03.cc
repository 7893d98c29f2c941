// C03: fee schedule.
#include "harness/account_model.h"

namespace {
using namespace model;  // NOLINT

void Run(pbt::Case& c) {
  auto& s = c.s;
  Env env = GenEnv(s, 3, 1);
  if (s.Bool()) {
    // Fee function.
    Account a;
    a.quote_unit = env.qu;
    a.base_unit = env.bu;
    const FeeConfig f = GenFee(s, env);
    const double q1 = GenQuoteAmount(s, env, s.Bool());
    const double q2 = GenQuoteAmount(s, env, s.Bool());
    const float f1 = a.GetFee(f, q1);
    const float f2 = a.GetFee(f, q2);
    PBT_DESC(c, Str(f) << " unit=" << env.qu << " fee(" << q1 << ")=" << f1 << " fee(" << q2 << ")=" << f2);
    for (auto [q, fee] : {std::pair<double, float>{q1, f1}, {q2, f2}}) {
      const Iv raw = FeeUnrounded(f, Iv(Float(q)));
      const Iv want = CeilU(raw, env.qu);
      PBT_CHECK(want.Contains(fee), "fee of " << q << " by " << Str(f) << " with unit " << env.qu
                                              << " is " << fee << " instead of " << want);
      PBT_CHECK(fee >= raw.lo * (1 - 1e-5) , "fee is below the schedule");
      c.LabelIf(want.exact(), "exact fee");
      c.LabelIf(f.minimum_fee() > f.fixed_fee() + q * f.relative_fee(), "minimum fee applies");
    }
    PBT_CHECK((q1 <= q2 || f1 >= f2) && (q1 >= q2 || f1 <= f2),
              "fee is not monotone: fee(" << q1 << ")=" << f1 << ", fee(" << q2 << ")=" << f2);
    c.nontrivial = f1 > 0 || f2 > 0;
    c.Label("fee function");
    return;
  }
  // Fees charged by orders of all types.
  AccountConfig config = GenAccountConfig(s, env);
  config.set_max_volume_ratio(s.Bool() ? 0 : GenRatio(s, env));
  const int steps = s.SizeOrHuge(1, 12, 400, 1024);
  int executed = 0;
  for (int i = 0; i < steps; ++i) {
    Account a;
    SetUp(s, a, config, "fQ");
    a.base_balance = GenBaseAmount(s, env, true);
    a.quote_balance = GenQuoteAmount(s, env, true);
    if (s.Chance(1, 2)) a.total_fee = GenQuoteAmount(s, env, true);
    OhlcTick t = GenTick(s, env, 1483228800 + 60 * i);
    t.set_volume(GenBaseAmount(s, env, s.Bool()));
    const Order o = GenOrder(s, env, t, &a);
    const Account before = a;
    const bool ok = a.ExecuteOrder(config, o, t);
    if (!ok) continue;
    ++executed;
    c.Label(Order::Type_Name(o.type()).c_str());
    const FeeConfig& f = FeeOf(config, o);
    const bool buy = o.side() == Order::BUY;
    const Iv fee = Stored(a.total_fee, env, env.qu) - Stored(before.total_fee, env, env.qu);
    const Iv after_q = Stored(a.quote_balance, env, env.qu);
    const Iv before_q = Stored(before.quote_balance, env, env.qu);
    const Iv dq = buy ? before_q - after_q : after_q - before_q;
    // Traded quote amount as implied by the balances and the charged fee.
    Iv traded = buy ? dq - fee : dq + fee;
    if (!env.exact) {
      traded.lo -= env.qu;
      traded.hi += env.qu;
    }
    traded.lo = std::max(0.0, traded.lo);
    traded.hi = std::max(0.0, traded.hi);
    Iv want = Fee(f, traded, env.qu);
    if (!env.exact) {
      want.lo -= env.qu;
      want.hi += env.qu;
    }
    PBT_DESC(c, Str(config.market_order_fee_config()) << Str(config.stop_order_fee_config())
                    << Str(config.limit_order_fee_config()) << Str(o) << " " << Str(t) << ": "
                    << Str(before) << " -> " << Str(a) << "\n");
    PBT_CHECK(fee.hi >= want.lo && fee.lo <= want.hi,
              "charged fee " << fee << " for traded " << traded << " instead of " << want << " by "
                             << Str(f) << ": " << Str(o) << " " << Str(t) << " " << Str(before)
                             << " -> " << Str(a));
    c.LabelIf(fee.exact() && traded.exact() && want.exact(), "exact charged fee");
  }
  c.nontrivial = executed > 0;
  c.Label("charged fees");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C03", "Fees follow the schedule of the order type and are rounded up",
    "Either the fee function on random schedules and amounts (value, rounding up, monotonicity), or "
    "random orders of all types with three different schedules, where the charged fee (from the "
    "accumulated fee) has to be the schedule of the order type applied to the traded quote amount "
    "(from the balances). Non-trivial: a positive fee or an executed order.",
    8000000, 200000000, Run, 20,
    {"Values are within the precision of single floats (at most 2^22 units)."}};
