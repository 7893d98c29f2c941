// C10: accounting of an execution.
#include "harness/sim.h"

namespace {
using namespace sim;  // NOLINT

bool Near(double a, double b, double scale) { return std::abs(a - b) <= 1e-6 * (std::abs(scale) + std::abs(b)); }

void Run(pbt::Case& c) {
  auto& s = c.s;
  const bool built_in = s.Chance(1, 3);
  const Env env = built_in ? GenUnitEnv(s, 1, 3) : GenEnv(s, 3, 1);
  AccountConfig config = built_in ? GenFundedConfig(s, env) : GenAnyConfig(s, env);
  HistoryOptions opt;
  opt.min_ticks = s.Chance(1, 12) ? 0 : 3;
  opt.max_ticks = 40;
  opt.giant = 128;
  opt.start = pbt::GenEpoch(s);
  opt.walk = true;
  opt.step = s.Chance(1, 8) ? s.Int(1, 100000) : s.Pick({300, 3600, 86400});
  const OhlcHistory h = GenOhlcHistory(s, env, opt);
  Script script = built_in || h.empty() ? Script() : GenScript(s, env, h);
  if (h.size() > 30000 && !built_in && s.Chance(7, 8)) {
    // Extremely many executed orders: buys and sells everything (without any costs).
    config.clear_market_order_fee_config();
    config.clear_base_unit();
    config.clear_quote_unit();
    config.set_market_liquidity(1);
    if (!(config.start_quote_balance() > 0)) config.set_start_quote_balance(Float(env.base_scale * env.price_scale));
    const bool both = s.Bool();
    script = Script();
    for (size_t i = 0; i < h.size(); ++i) {
      std::vector<ScriptedOrder>& orders = script.orders[h[i].timestamp_sec()];
      for (int k = 0; k < (both ? 2 : 1); ++k) {
        ScriptedOrder so;
        so.whole_balance = true;
        so.order.set_type(Order::MARKET);
        so.order.set_side((both ? k : i % 2) == 0 ? Order::BUY : Order::SELL);
        orders.push_back(so);
      }
    }
    c.Label("extremely many orders");
  }
  // Execute only a part of the history sometimes.
  size_t from = 0, to = h.size();
  if (!h.empty() && s.Chance(1, 3)) {
    from = s.Draw(h.size() + 1);
    to = from + s.Draw(h.size() - from + 1);
  }
  Events events;
  RecordingLogger logger(&events);
  std::unique_ptr<Trader> trader;
  if (built_in) {
    trader.reset(new SpyTrader(GenBuiltIn(s)->NewTrader(), &events));
  } else {
    trader.reset(new ScriptTrader(&script, &events, nullptr));
  }
  const ExecutionResult r = trader::ExecuteTrader(config, h.begin() + from, h.begin() + to, nullptr,
                                                  s.Bool(), *trader, &logger);
  PBT_DESC(c, "history:\n" << Str(h) << "range " << from << " to " << to << "\nscript:\n" << Str(script)
                           << "events:\n" << Str(events) << "result: " << r.ShortDebugString() << "\n");
  // Rebalancing in wild prices can overflow single floats; nothing is specified then.
  if (!(r.end_value() < 3e37f) || !(r.total_fee() < 3e37f)) {
    c.Label("beyond the range of floats");
    return;
  }
  if (from == to) {
    PBT_CHECK(events.empty(), "the trader or the logger was called on an empty history");
    PBT_CHECK(r.SerializeAsString() == ExecutionResult().SerializeAsString(),
              "result of an empty history: " << r.ShortDebugString());
    c.Label("empty history");
    return;
  }
  float base = config.start_base_balance(), quote = config.start_quote_balance(), fee = 0;
  int orders = 0;
  size_t ticks = 0;
  for (const Event& e : events) {
    if (e.kind == Event::kState) continue;
    if (e.kind == Event::kOrder) {
      ++orders;
      const bool buy = e.order.side() == Order::BUY;
      PBT_CHECK(buy ? e.base >= base && e.quote <= quote : e.base <= base && e.quote >= quote,
                "order moved the balances in the wrong direction: " << e.Str());
      base = e.base;
      quote = e.quote;
      fee = e.fee;
      continue;
    }
    if (e.kind == Event::kTick) {
      PBT_CHECK(from + ticks < to && SameTick(e.tick, h[from + ticks]), "logged tick: " << e.Str());
      ++ticks;
      PBT_CHECK(e.fee == fee, "the fee changed without an order: " << e.Str());
    }
    PBT_CHECK(e.base == base && e.quote == quote, "balances changed without an order: " << e.Str());
  }
  PBT_CHECK(ticks == to - from, "logged " << ticks << " of " << to - from << " ticks");
  const OhlcTick& first = h[from];
  const OhlcTick& last = h[to - 1];
  PBT_CHECK(r.start_base_balance() == config.start_base_balance(), "start base balance " << r.start_base_balance());
  PBT_CHECK(r.start_quote_balance() == config.start_quote_balance(), "start quote balance " << r.start_quote_balance());
  PBT_CHECK(r.end_base_balance() == base, "end base balance " << r.end_base_balance() << " instead of " << base);
  PBT_CHECK(r.end_quote_balance() == quote, "end quote balance " << r.end_quote_balance() << " instead of " << quote);
  PBT_CHECK(r.start_price() == first.close(), "start price " << r.start_price());
  PBT_CHECK(r.end_price() == last.close(), "end price " << r.end_price());
  const double start_value = double(config.start_base_balance()) * first.close() + config.start_quote_balance();
  const double end_value = double(base) * last.close() + quote;
  PBT_CHECK(Near(r.start_value(), start_value, 0), "start value " << r.start_value() << " instead of " << start_value);
  PBT_CHECK(Near(r.end_value(), end_value, 0), "end value " << r.end_value() << " instead of " << end_value);
  PBT_CHECK(r.total_executed_orders() == orders, "executed orders " << r.total_executed_orders() << " instead of " << orders);
  PBT_CHECK(r.total_fee() == fee, "total fee " << r.total_fee() << " instead of " << fee);
  c.nontrivial = orders > 0;
  c.LabelIf(built_in, "built-in trader");
  c.Label("executed orders", orders);
  c.LabelIf(last.volume() == 0, "last tick without volume");
  c.LabelIf(to - from < h.size(), "part of the history");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C10", "The execution result accounts exactly for what was executed",
    "Random history (or a part of it), account and trader (built-in or scripted); the result has to "
    "follow from the configuration, the ticks and the recorded log. Non-trivial: at least one "
    "executed order.",
    700000, 20000000, Run, 20};
