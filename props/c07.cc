// C07: life cycle of the orders in an execution.
#include "harness/sim.h"

namespace {
using namespace sim;  // NOLINT

void Run(pbt::Case& c) {
  auto& s = c.s;
  const Env env = GenEnv(s, 4, 1);
  AccountConfig config = GenFundedConfig(s, env);
  HistoryOptions opt;
  opt.start = pbt::GenEpoch(s);
  opt.step = s.Chance(1, 8) ? s.Int(1, 100000) : s.Pick({300, 60, 3600, 86400});
  opt.min_ticks = 1;
  opt.max_ticks = 40;
  opt.giant = 256;
  const OhlcHistory h = GenOhlcHistory(s, env, opt);
  const Script script = GenScript(s, env, h);
  const bool with_side = s.Chance(1, 4);
  SideHistory side;
  std::unique_ptr<SideInput> side_input;
  if (with_side) {
    side = GenSideHistory(s, h.front().timestamp_sec(), h.back().timestamp_sec(), opt.step, 10);
    side_input.reset(new SideInput(side));
  }
  PBT_DESC(c, "history:\n" << Str(h) << "script:\n" << Str(script));

  // Reference. Settlement itself is decided by other properties, so that the
  // account of the library is used.
  Events want;
  int executed = 0, kept_executed = 0, dropped = 0, repeated_zero = 0;
  {
    Account a;
    a.InitAccount(config);
    std::vector<std::pair<Order, int>> pending;  // With the number of waits.
    int updates = 0;
    for (const OhlcTick& t : h) {
      auto snapshot = [&](Event::Kind kind) {
        Event e;
        e.kind = kind;
        e.tick = t;
        e.base = a.base_balance;
        e.quote = a.quote_balance;
        e.fee = kind == Event::kUpdate ? 0 : a.total_fee;
        return e;
      };
      want.push_back(snapshot(Event::kTick));
      std::vector<std::pair<Order, int>> rest;
      for (auto& p : pending) {
        if (a.ExecuteOrder(config, p.first, t)) {
          Event e = snapshot(Event::kOrder);
          e.order = p.first;
          want.push_back(e);
          ++executed;
          if (p.second > 0) ++kept_executed;
        } else {
          rest.push_back({p.first, p.second + 1});
        }
      }
      pending = rest;
      if (t.volume() == 0) {
        if (!pending.empty()) ++repeated_zero;
        continue;
      }
      dropped += pending.size();
      pending.clear();
      Event u = snapshot(Event::kUpdate);
      u.signals = ReferenceSignals(with_side ? &side : nullptr, t.timestamp_sec());
      want.push_back(u);
      std::vector<Order> emitted;
      script.Emit(t.timestamp_sec(), a.base_balance, a.quote_balance, &emitted);
      for (const Order& o : emitted) pending.push_back({o, 0});
      Event state;
      state.kind = Event::kState;
      state.state = "update " + std::to_string(++updates);
      want.push_back(state);
    }
  }

  Events got;
  RecordingLogger logger(&got);
  ScriptTrader trader(&script, &got, nullptr);
  const bool fast = s.Bool();
  const ExecutionResult r =
      trader::ExecuteTrader(config, h.begin(), h.end(), side_input.get(), fast, trader, &logger);
  PBT_DESC(c, "events:\n" << Str(got));
  const std::string diff = Difference(got, want);
  PBT_CHECK(diff.empty(), diff);
  PBT_CHECK(r.total_executed_orders() == executed,
            "counted " << r.total_executed_orders() << " executed orders instead of " << executed);
  // The same without the logger.
  Events got_updates, want_updates;
  for (const Event& e : want) {
    if (e.kind == Event::kUpdate) want_updates.push_back(e);
  }
  ScriptTrader trader_2(&script, &got_updates, nullptr);
  const ExecutionResult r2 =
      trader::ExecuteTrader(config, h.begin(), h.end(), side_input.get(), fast, trader_2, nullptr);
  const std::string diff_2 = Difference(got_updates, want_updates);
  PBT_CHECK(diff_2.empty(), "without a logger: " << diff_2);
  PBT_CHECK(r.SerializeAsString() == r2.SerializeAsString(), "the result depends on the logger");

  c.nontrivial = executed > 0;
  c.Label("executed orders", executed);
  c.Label("executed after a zero volume tick", kept_executed);
  c.Label("orders kept by a zero volume tick", repeated_zero);
  c.Label("dropped orders", dropped);
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C07", "Orders wait for the next tick, execute at most once, and die on update",
    "Random history (zero-volume ticks, gaps), account and scripted trader emitting 0-5 orders per "
    "tick aimed at one of the next ticks; the sequence of logged ticks, executed orders, trader "
    "updates and logged states has to be the one of a reference scheduler. Non-trivial: at least one "
    "executed order.",
    500000, 20000000, Run, 20, {"Timestamps of ticks are increasing; emitted orders are valid."}};
