// C12: aggregates of an evaluation.
#include "harness/sim.h"

namespace {
using namespace sim;  // NOLINT

bool Near(double got, double want) {
  return std::abs(got - want) <= 2e-5 * std::abs(want) + 1e-30;
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  pbt::GenZone(s);
  const bool built_in = s.Bool();
  const Env env = built_in ? GenUnitEnv(s, 1, 3) : GenUnitEnv(s, 1, 1);
  AccountConfig config = GenFundedConfig(s, env);
  // Everything can be lost: by selling for a fee of the whole value.
  const bool ruin = !built_in && s.Chance(1, 8);
  if (ruin) {
    config.set_quote_unit(0);
    config.set_start_quote_balance(0);
    if (!(config.start_base_balance() > 0)) config.set_start_base_balance(std::max(1.0f, config.base_unit()));
    config.mutable_market_order_fee_config()->set_relative_fee(1);
    config.mutable_market_order_fee_config()->set_fixed_fee(0);
    config.mutable_market_order_fee_config()->set_minimum_fee(0);
  }
  HistoryOptions opt;
  opt.min_ticks = s.Chance(1, 8) ? 1 : 8;
  opt.max_ticks = 80;
  opt.start = pbt::GenEpoch(s);
  opt.walk = true;
  opt.step = s.Chance(1, 8) ? s.Int(1, 40) * 43200 : s.Pick({7 * 86400, 86400, 5 * 86400, 15 * 86400, 300, 3600});
  const OhlcHistory h = GenOhlcHistory(s, env, opt);
  EvaluationConfig eval;
  eval.set_start_timestamp_sec(opt.start);
  eval.set_end_timestamp_sec(h.back().timestamp_sec() + s.Int(-10, 100) * 86400);
  if (eval.end_timestamp_sec() <= opt.start) eval.set_end_timestamp_sec(opt.start + 1);
  eval.set_evaluation_period_months(s.Chance(1, 8) ? s.Int(0, 13) : s.Pick({1, 0, 2, 3, 6}));
  eval.set_fast_eval(s.Bool());
  SideHistory side;
  std::unique_ptr<TraderEmitter> emitter;
  Script script;
  if (built_in) {
    emitter = GenBuiltIn(s);
  } else {
    script = GenScript(s, env, h, 2);
    if (ruin) {
      script.orders.clear();
      for (const OhlcTick& t : h) {
        if (!s.Chance(1, 6)) continue;
        ScriptedOrder o;
        o.order.set_type(Order::MARKET);
        o.order.set_side(Order::SELL);
        o.order.set_base_amount(1);
        o.whole_balance = true;
        script.orders[t.timestamp_sec()].push_back(o);
      }
    }
    emitter.reset(new ScriptEmitter("script-" + std::to_string(s.Draw(10)), &script, nullptr, nullptr));
  }
  const EvaluationResult r = trader::EvaluateTrader(config, eval, h, nullptr, *emitter, nullptr);
  PBT_DESC(c, "history:\n" << Str(h) << "result: " << r.ShortDebugString() << "\n");
  PBT_CHECK(r.account_config().SerializeAsString() == config.SerializeAsString(), "account configuration of the result");
  PBT_CHECK(r.eval_config().SerializeAsString() == eval.SerializeAsString(), "evaluation configuration of the result");
  PBT_CHECK(r.name() == emitter->GetName(), "name of the result is " << r.name());
  const int n = r.period_size();
  // Rebalancing in wild prices can overflow single floats; nothing is specified then.
  for (const auto& p : r.period()) {
    if (!(p.result().end_value() < 3e37f) || !(p.final_gain() < 3e37f) || !(p.result().total_fee() < 3e37f)) {
      c.Label("beyond the range of floats");
      return;
    }
  }
  double log_score = 0, gain = 0, base_gain = 0, orders = 0, fee = 0;
  bool zero = false;
  bool different = false;
  for (int i = 0; i < n; ++i) {
    const auto& p = r.period(i);
    const double g = double(p.result().end_value()) / p.result().start_value();
    const double b = double(p.result().end_price()) / p.result().start_price();
    PBT_CHECK(Near(p.final_gain(), g), "final gain of period " << i << " is " << p.final_gain() << " instead of " << g);
    PBT_CHECK(Near(p.base_final_gain(), b), "base gain of period " << i << " is " << p.base_final_gain() << " instead of " << b);
    if (g > 0) {
      log_score += std::log(g / b);
    } else {
      zero = true;
    }
    gain += g;
    base_gain += b;
    orders += p.result().total_executed_orders();
    fee += p.result().total_fee();
    if (i > 0 && p.result().total_executed_orders() != r.period(0).result().total_executed_orders()) different = true;
  }
  const double want_score = n == 0 || zero ? 0 : std::exp(log_score / n);
  PBT_CHECK(Near(r.score(), want_score), "score " << r.score() << " instead of " << want_score);
  auto avg = [&](double sum) { return n == 0 ? 0 : sum / n; };
  PBT_CHECK(Near(r.avg_gain(), avg(gain)), "average gain " << r.avg_gain() << " instead of " << avg(gain));
  PBT_CHECK(Near(r.avg_base_gain(), avg(base_gain)), "average base gain " << r.avg_base_gain() << " instead of " << avg(base_gain));
  PBT_CHECK(Near(r.avg_total_executed_orders(), avg(orders)),
            "average number of orders " << r.avg_total_executed_orders() << " instead of " << avg(orders));
  PBT_CHECK(Near(r.avg_total_fee(), avg(fee)), "average fee " << r.avg_total_fee() << " instead of " << avg(fee));
  c.nontrivial = n >= 2;
  c.LabelIf(n >= 4, "at least 4 periods");
  c.LabelIf(different, "periods with different numbers of orders");
  c.LabelIf(fee > 0, "with fees");
  c.LabelIf(n == 0, "no period");
  c.LabelIf(zero, "nothing left at the end of a period");
  c.LabelIf(built_in, "built-in trader");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C12", "Evaluation aggregates equal their definitions over the periods",
    "Random history over up to several years, account, built-in or scripted trader and evaluation "
    "period; gains, score and averages recomputed in double precision from the results of the "
    "periods. Non-trivial: at least two periods.",
    400000, 8000000, Run, 20, {"Starting portfolio value and prices are positive."}};
