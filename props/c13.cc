// C13: batch evaluation equals individual evaluations; determinism; fast evaluation.
#include "harness/sim.h"

namespace {
using namespace sim;  // NOLINT

EvaluationResult WithoutVolatility(EvaluationResult r) {
  r.mutable_eval_config()->clear_fast_eval();
  for (auto& p : *r.mutable_period()) {
    p.mutable_result()->clear_base_volatility();
    p.mutable_result()->clear_trader_volatility();
  }
  return r;
}

// Trader that uses its side input and its history.
class SideTrader : public Trader {
 public:
  void Update(const OhlcTick& tick, const std::vector<float>& signals, float base, float quote,
              std::vector<Order>& orders) override {
    float x = tick.close();
    for (float v : signals) x += v;
    sum_ += x;
    ++n_;
    Order o;
    o.set_type(Order::MARKET);
    o.set_side(x * n_ > sum_ ? Order::BUY : Order::SELL);
    if (o.side() == Order::BUY) {
      if (!(quote > 0)) return;
      o.set_quote_amount(quote / 2);
    } else {
      if (!(base > 0)) return;
      o.set_base_amount(base / 2);
    }
    orders.push_back(o);
  }
  std::string GetInternalState() const override { return ""; }

 private:
  float sum_ = 0;
  int n_ = 0;
};
class SideEmitter : public TraderEmitter {
 public:
  explicit SideEmitter(std::string name) : name_(std::move(name)) {}
  std::string GetName() const override { return name_; }
  std::unique_ptr<Trader> NewTrader() const override { return std::unique_ptr<Trader>(new SideTrader()); }

 private:
  std::string name_;
};

void Run(pbt::Case& c) {
  auto& s = c.s;
  const Env env = GenUnitEnv(s, 1, 2);
  const AccountConfig config = GenFundedConfig(s, env);
  HistoryOptions opt;
  opt.min_ticks = s.Chance(1, 8) ? 1 : 6;
  opt.huge_ticks = 240;
  opt.max_ticks = 60;
  opt.start = pbt::GenEpoch(s);
  opt.walk = true;
  opt.step = s.Chance(1, 8) ? s.Int(1, 240) * 3600 : s.Pick({2 * 86400, 3600, 5 * 86400, 300, 7 * 86400, 60, 900});
  const OhlcHistory h = GenOhlcHistory(s, env, opt);
  EvaluationConfig eval;
  eval.set_start_timestamp_sec(opt.start);
  eval.set_end_timestamp_sec(h.back().timestamp_sec() + s.Int(20, 80) * 86400 + 1);
  eval.set_evaluation_period_months(s.Chance(1, 8) ? s.Int(0, 13) : s.Pick({1, 0, 2, 6}));
  const bool fast = s.Bool();
  eval.set_fast_eval(fast);
  SideHistory side;
  std::unique_ptr<SideInput> input;
  if (s.Bool()) {
    side = GenSideHistory(s, h.front().timestamp_sec(), h.back().timestamp_sec(), opt.step, 10);
    input.reset(new SideInput(side));
  }
  const Script script = GenScript(s, env, h, 2);
  std::vector<std::unique_ptr<TraderEmitter>> batch;
  const bool huge = s.Chance(1, 128);
  const int n = huge ? s.Int(7, 200) : s.Chance(1, 20) ? 0 : s.Int(1, 6);
  int same_names = 0;
  for (int i = 0; i < n; ++i) {
    // Different traders might have the same name.
    const int kind = s.Draw(4);
    const std::string name = s.Chance(1, 3)       ? "trader"
                             : s.Chance(1, 8) && i > 0 ? batch.back()->GetName()
                                                  : "trader-" + std::to_string(i);
    if (i > 0 && kind <= 1 && name == batch.back()->GetName()) ++same_names;
    switch (kind) {
      case 0: batch.emplace_back(new ScriptEmitter(name, &script, nullptr, nullptr)); break;
      case 1: batch.emplace_back(new SideEmitter(name)); break;
      default: batch.push_back(GenBuiltIn(s));
    }
  }
  PBT_DESC(c, "history:\n" << Str(h) << "side:\n" << Str(side) << "eval: " << eval.ShortDebugString() << "\n");
  for (const auto& e : batch) PBT_DESC(c, e->GetName() << "\n");
  const std::vector<EvaluationResult> got = trader::EvaluateBatchOfTraders(config, eval, h, input.get(), batch);
  PBT_CHECK(static_cast<int>(got.size()) == n, "got " << got.size() << " results for " << n << " traders");
  int orders = 0;
  bool differ = false;
  for (int i = 0; i < n; ++i) {
    const EvaluationResult one = trader::EvaluateTrader(config, eval, h, input.get(), *batch[i], nullptr);
    PBT_CHECK(got[i].SerializeAsString() == one.SerializeAsString(),
              "result " << i << " of the batch differs from the individual evaluation: " << got[i].ShortDebugString()
                        << " instead of " << one.ShortDebugString());
    for (const auto& p : one.period()) orders += p.result().total_executed_orders();
    if (one.score() != got[0].score()) differ = true;
    // Fast evaluation.
    EvaluationConfig other = eval;
    other.set_fast_eval(!fast);
    const EvaluationResult two = trader::EvaluateTrader(config, other, h, input.get(), *batch[i], nullptr);
    PBT_CHECK(WithoutVolatility(one).SerializeAsString() == WithoutVolatility(two).SerializeAsString(),
              "fast evaluation changes the result: " << one.ShortDebugString() << " and " << two.ShortDebugString());
    for (const auto& p : (fast ? one : two).period()) {
      PBT_CHECK(p.result().base_volatility() == 0 && p.result().trader_volatility() == 0,
                "fast evaluation computed the volatility");
    }
    for (const auto& p : (fast ? two : one).period()) {
      PBT_CHECK(p.result().has_base_volatility() && p.result().has_trader_volatility(),
                "the evaluation did not compute the volatility");
    }
  }
  c.nontrivial = n >= 2 && differ && orders > 0;
  c.LabelIf(input != nullptr, "with side input");
  c.LabelIf(n >= 4, "at least 4 traders");
  c.LabelIf(n >= 64, "at least 64 traders");
  c.LabelIf(same_names > 0, "neighbours with the same name");
  c.Label("executed orders", orders);
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C13", "Batch evaluation equals individual evaluations in order",
    "Random batches of 0-6 built-in, scripted and side-input traders over random histories; batch "
    "results compared with the individual evaluations and with fast evaluation; the threads of the "
    "batch run under ThreadSanitizer (a data race is a failure). Non-trivial: at least two traders with different scores and "
    "executed orders.",
    18000, 1000000, Run, 60, {}, nullptr, nullptr, true};
