// C08: the future never changes the past.
#include "harness/sim.h"

namespace {
using namespace sim;  // NOLINT

struct Runner {
  const AccountConfig* config;
  const Script* script;          // Null for a built-in trader.
  const TraderEmitter* emitter;  // Null for a scripted trader.
  bool fast;

  Events Execute(const OhlcHistory& h, const SideHistory& side) const {
    Events events;
    RecordingLogger logger(&events);
    std::unique_ptr<SideInput> side_input;
    if (!side.empty()) side_input.reset(new SideInput(side));
    std::unique_ptr<Trader> trader;
    if (script != nullptr) {
      trader.reset(new ScriptTrader(script, &events, nullptr));
    } else {
      trader.reset(new SpyTrader(emitter->NewTrader(), &events));
    }
    trader::ExecuteTrader(*config, h.begin(), h.end(), side_input.get(), fast, *trader, &logger);
    return events;
  }
};

// Number of events up to (and including) the given number of ticks.
size_t CountUpTo(const Events& events, size_t ticks) {
  size_t seen = 0;
  for (size_t i = 0; i < events.size(); ++i) {
    if (events[i].kind == Event::kTick && ++seen > ticks) return i;
  }
  return events.size();
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  const bool built_in = s.Bool();
  const Env env = built_in ? GenUnitEnv(s, 1, 3) : GenEnv(s, 3, 1);
  const AccountConfig config = GenFundedConfig(s, env);
  HistoryOptions opt;
  opt.start = pbt::GenEpoch(s);
  opt.min_ticks = 2;
  opt.max_ticks = 40;
  opt.giant = 128;
  opt.walk = true;
  opt.step = s.Chance(1, 8) ? s.Int(1, 100000) : s.Pick({300, 60, 3600, 86400});
  const OhlcHistory h = GenOhlcHistory(s, env, opt);
  const size_t cut = s.Int(1, h.size() - 1);  // Ticks in the common past.
  const int64_t now = h[cut - 1].timestamp_sec();
  // Another future.
  HistoryOptions opt2 = opt;
  opt2.min_ticks = 0;
  opt2.max_ticks = 20;
  opt2.start = now + (s.Bool() ? opt.step : s.Int(1, 3 * opt.step));
  OhlcHistory h2(h.begin(), h.begin() + cut);
  for (const OhlcTick& t : GenOhlcHistory(s, env, opt2)) h2.push_back(t);
  SideHistory side, side2;
  if (s.Chance(2, 3)) {
    side = GenSideHistory(s, h.front().timestamp_sec(), h.back().timestamp_sec(), opt.step, 16);
    int64_t last = 0;
    for (const auto& r : side) {
      if (r.timestamp_sec() <= now) {
        side2.push_back(r);
        last = r.timestamp_sec();
      }
    }
    int64_t ts = std::max(last, now);
    const int more = s.Draw(5);
    for (int i = 0; i < more; ++i) {
      ts += s.Bool() ? 1 : s.Int(1, 2 * opt.step);
      SideInputRecord r;
      r.set_timestamp_sec(ts);
      for (int k = 0; k < side.front().signal_size(); ++k) r.add_signal(-1000 - i);
      side2.push_back(r);
    }
  }
  Script script;
  std::unique_ptr<TraderEmitter> emitter;
  if (built_in) {
    emitter = GenBuiltIn(s);
  } else {
    script = GenScript(s, env, h);
    // A script depends on the times only; the other future has orders too.
    const Script other = GenScript(s, env, h2);
    for (const auto& kv : other.orders) {
      if (kv.first > now) script.orders[kv.first] = kv.second;
    }
  }
  const Runner runner{&config, built_in ? nullptr : &script, emitter.get(), s.Bool()};
  PBT_DESC(c, "history:\n" << Str(h) << "side:\n" << Str(side) << "cut after " << cut
                           << " ticks, other history:\n" << Str(h2) << "other side:\n" << Str(side2)
                           << (built_in ? emitter->GetName() : "script:\n" + Str(script)) << "\n");
  const Events full = runner.Execute(h, side);
  const Events other = runner.Execute(h2, side2);
  const OhlcHistory prefix(h.begin(), h.begin() + cut);
  const Events past = runner.Execute(prefix, side);
  const size_t n = CountUpTo(full, cut);
  const Events full_past(full.begin(), full.begin() + n);
  const Events other_past(other.begin(), other.begin() + CountUpTo(other, cut));
  PBT_DESC(c, "events:\n" << Str(full) << "other events:\n" << Str(other));
  const std::string d1 = Difference(other_past, full_past);
  PBT_CHECK(d1.empty(), "a different future changed the past: " << d1);
  const std::string d2 = Difference(past, full_past);
  PBT_CHECK(d2.empty(), "the execution of the prefix differs: " << d2);
  int orders = 0;
  for (const Event& e : full_past) orders += e.kind == Event::kOrder;
  c.nontrivial = orders > 0 && cut < h.size();
  c.LabelIf(built_in, "built-in trader");
  c.LabelIf(!side.empty(), "with side input");
  c.Label("executed orders in the past", orders);
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C08", "No look-ahead: the future never changes the past",
    "Two histories (and side inputs) with the same records up to a random cut and different ones "
    "after it, and the prefix alone, are executed by the same built-in or scripted trader; trader "
    "inputs, emitted orders, states and logs up to the cut have to be identical. Non-trivial: an "
    "order was executed before the cut.",
    250000, 10000000, Run, 20};
