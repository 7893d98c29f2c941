// C06: limit orders fill at most the configured share of the tick volume.
#include "harness/account_model.h"

namespace {
using namespace model;  // NOLINT

void Run(pbt::Case& c) {
  auto& s = c.s;
  Env env = GenEnv(s, 3, 1);
  AccountConfig config = GenAccountConfig(s, env);
  if (s.Chance(2, 3) && config.max_volume_ratio() == 0) config.set_max_volume_ratio(0.5f);
  const int steps = s.SizeOrHuge(1, 12, 400, 1024);
  int executed = 0, partial = 0;
  for (int i = 0; i < steps; ++i) {
    Account a;
    SetUp(s, a, config, "Br");
    a.base_balance = GenBaseAmount(s, env, true) * 4;
    a.quote_balance = GenQuoteAmount(s, env, true) * 4;
    OhlcTick t = GenTick(s, env, 1483228800 + 60 * i);
    Order o = GenOrder(s, env, t, &a, s.Weighted({5, 1, 1}) == 0 ? 2 : static_cast<int>(s.Draw(2)));
    // Volume from zero to twice the order.
    const double base_amount = o.oneof_amount_case() == Order::kBaseAmount
                                   ? o.base_amount()
                                   : o.quote_amount() / t.close();
    double volume = 0;
    switch (s.Draw(5)) {
      case 0: break;
      case 1: volume = GenBaseAmount(s, env, s.Bool()); break;
      case 2: volume = FewBits(base_amount, 8); break;
      case 3: volume = FewBits(base_amount * 2, 8); break;
      default: volume = FewBits(base_amount * s.Draw(33) / 8, 8);
    }
    t.set_volume(volume);
    const Account before = a;
    const bool ok = a.ExecuteOrder(config, o, t);
    const Expect e = Execute(before, config, o, t);
    const bool capped = o.type() == Order::LIMIT && before.max_volume_ratio > 0;
    const Iv cap = FloorU(Iv(before.max_volume_ratio) * Iv(t.volume()), env.bu);
    const float max_base = before.GetMaxBaseAmount(t);
    std::ostringstream what;
    what.precision(10);
    what << Str(o) << " " << Str(FeeOf(config, o)) << " " << Str(t) << ": " << Str(before) << " -> "
         << (ok ? "executed " : "rejected ") << Str(a) << "; expected " << Name(e.executes)
         << " base=" << e.base << " cap=" << cap;
    PBT_DESC(c, what.str() << "\n");
    if (before.max_volume_ratio > 0) {
      PBT_CHECK(cap.Contains(max_base), "maximum base amount " << max_base << ": " << what.str());
    } else {
      PBT_CHECK(max_base == std::numeric_limits<float>::max(), "maximum base amount " << max_base << ": " << what.str());
    }
    PBT_CHECK(e.executes != Tri::kYes || ok, "feasible order was rejected: " << what.str());
    PBT_CHECK(e.executes != Tri::kNo || !ok, "infeasible order was executed: " << what.str());
    if (!ok) continue;
    ++executed;
    const Iv base_1 = Stored(a.base_balance, env, env.bu), base_0 = Stored(before.base_balance, env, env.bu);
    const Iv base = o.side() == Order::BUY ? base_1 - base_0 : base_0 - base_1;
    if (capped) {
      PBT_CHECK(base.lo <= cap.hi, "filled " << base << " over the volume cap: " << what.str());
      c.Label("executed capped limit order");
    }
    PBT_CHECK(e.new_base.Contains(a.base_balance), "filled " << base << ": " << what.str());
    if (capped && cap.hi < base_amount * 0.999 && o.oneof_amount_case() == Order::kBaseAmount) {
      ++partial;
      c.Label("partial fill");
    }
    c.LabelIf(!capped && t.volume() < base_amount, "uncapped order above the volume");
  }
  c.nontrivial = executed > 0;
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C06", "Limit orders fill at most the configured share of the tick volume",
    "Random orders (mostly limit) over ticks whose volume is zero, unrelated, or around the order "
    "amount; compared with the model of capped fills; market and stop orders must not be capped. "
    "Non-trivial: at least one executed order.",
    800000, 40000000, Run, 20,
    {"Values are within the precision of single floats (at most 2^22 units)."}};
