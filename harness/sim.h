// Generators, recording traders/loggers and references for executions.
#ifndef VERIF_HARNESS_SIM_H
#define VERIF_HARNESS_SIM_H

#include <memory>
#include <string>
#include <vector>

#include "base/side_input.h"
#include "base/trader.h"
#include "eval/eval.h"
#include "harness/account_model.h"
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"

namespace sim {

using namespace model;  // NOLINT
using model::Str;
using trader::ExecutionResult;
using trader::EvaluationConfig;
using trader::EvaluationResult;
using trader::Logger;
using trader::OhlcHistory;
using trader::SideHistory;
using trader::SideInput;
using trader::SideInputRecord;
using trader::Trader;
using trader::TraderEmitter;

// ------------------------------------------------------------ recording ----

struct Event {
  enum Kind { kTick, kOrder, kUpdate, kState } kind;
  OhlcTick tick;
  float base = 0, quote = 0, fee = 0;
  Order order;
  std::vector<float> signals;
  std::string state;

  std::string Str() const {
    std::ostringstream os;
    os.precision(9);
    switch (kind) {
      case kTick: os << "log tick " << model::Str(tick); break;
      case kOrder: os << "executed " << model::Str(order) << " on " << model::Str(tick); break;
      case kUpdate: os << "update " << model::Str(tick) << " signals=["; break;
      case kState: os << "state " << state; break;
    }
    if (kind == kUpdate) {
      for (float x : signals) os << x << " ";
      os << "]";
    }
    if (kind != kState) os << " base=" << base << " quote=" << quote << " fee=" << fee;
    return os.str();
  }
};

inline bool SameTick(const OhlcTick& a, const OhlcTick& b) {
  return a.timestamp_sec() == b.timestamp_sec() && a.open() == b.open() &&
         a.high() == b.high() && a.low() == b.low() && a.close() == b.close() &&
         a.volume() == b.volume();
}
inline bool SameOrder(const Order& a, const Order& b) {
  return a.SerializeAsString() == b.SerializeAsString();
}
inline bool Same(const Event& a, const Event& b) {
  if (a.kind != b.kind) return false;
  if (a.kind == Event::kState) return a.state == b.state;
  if (!SameTick(a.tick, b.tick) || a.base != b.base || a.quote != b.quote || a.fee != b.fee) return false;
  if (a.kind == Event::kOrder && !SameOrder(a.order, b.order)) return false;
  if (a.kind == Event::kUpdate && a.signals != b.signals) return false;
  return true;
}

using Events = std::vector<Event>;

inline std::string Str(const Events& events) {
  std::string s;
  for (const Event& e : events) s += "  " + e.Str() + "\n";
  return s;
}

// Checks that the events are the same and reports the first difference.
inline std::string Difference(const Events& got, const Events& want) {
  for (size_t i = 0; i < got.size() || i < want.size(); ++i) {
    if (i < got.size() && i < want.size() && Same(got[i], want[i])) continue;
    return "event " + std::to_string(i) + ": got " + (i < got.size() ? got[i].Str() : "nothing") +
           ", expected " + (i < want.size() ? want[i].Str() : "nothing");
  }
  return "";
}

class RecordingLogger : public Logger {
 public:
  explicit RecordingLogger(Events* events) : events_(events) {}
  void LogExchangeState(const OhlcTick& tick, const Account& a) override {
    Event e;
    e.kind = Event::kTick;
    e.tick = tick;
    e.base = a.base_balance;
    e.quote = a.quote_balance;
    e.fee = a.total_fee;
    events_->push_back(e);
  }
  void LogExchangeState(const OhlcTick& tick, const Account& a, const Order& order) override {
    Event e;
    e.kind = Event::kOrder;
    e.tick = tick;
    e.base = a.base_balance;
    e.quote = a.quote_balance;
    e.fee = a.total_fee;
    e.order = order;
    events_->push_back(e);
  }
  void LogTraderState(absl::string_view state) override {
    Event e;
    e.kind = Event::kState;
    e.state = std::string(state);
    events_->push_back(e);
  }

 private:
  Events* events_;
};

// ------------------------------------------------------ scripted trader ----

// Orders to be emitted on the i-th tick (of the history). Some of the amounts
// are set to the balance at the time of the emission.
struct ScriptedOrder {
  Order order;
  bool whole_balance = false;
};
struct Script {
  // By timestamp of the tick.
  std::map<int64_t, std::vector<ScriptedOrder>> orders;

  void Emit(int64_t timestamp, float base, float quote, std::vector<Order>* out) const {
    auto it = orders.find(timestamp);
    if (it == orders.end()) return;
    // Nothing is specified beyond the range of floats.
    if (base > 1e25f || quote > 1e25f) return;
    for (const ScriptedOrder& so : it->second) {
      Order o = so.order;
      if (so.whole_balance) {
        if (o.side() == Order::SELL) {
          if (!(base > 0)) continue;
          o.set_base_amount(base);
        } else {
          if (!(quote > 0)) continue;
          o.set_quote_amount(quote);
        }
      }
      out->push_back(o);
    }
  }
};

class ScriptTrader : public Trader {
 public:
  ScriptTrader(const Script* script, Events* events, int* updates)
      : script_(script), events_(events), updates_(updates) {}
  void Update(const OhlcTick& tick, const std::vector<float>& signals, float base, float quote,
              std::vector<Order>& orders) override {
    if (events_ != nullptr) {
      Event e;
      e.kind = Event::kUpdate;
      e.tick = tick;
      e.signals = signals;
      e.base = base;
      e.quote = quote;
      events_->push_back(e);
    }
    if (updates_ != nullptr) ++*updates_;
    if (!orders.empty()) throw pbt::Failure{"the trader got a non-empty vector of orders"};
    ++count_;
    script_->Emit(tick.timestamp_sec(), base, quote, &orders);
  }
  std::string GetInternalState() const override { return "update " + std::to_string(count_); }

 private:
  const Script* script_;
  Events* events_;
  int* updates_;
  int count_ = 0;
};

class ScriptEmitter : public TraderEmitter {
 public:
  ScriptEmitter(std::string name, const Script* script, Events* events, int* created)
      : name_(std::move(name)), script_(script), events_(events), created_(created) {}
  std::string GetName() const override { return name_; }
  std::unique_ptr<Trader> NewTrader() const override {
    if (created_ != nullptr) ++*created_;
    return std::unique_ptr<Trader>(new ScriptTrader(script_, events_, nullptr));
  }

 private:
  std::string name_;
  const Script* script_;
  Events* events_;
  int* created_;
};

// Records the inputs of another trader.
class SpyTrader : public Trader {
 public:
  SpyTrader(std::unique_ptr<Trader> trader, Events* events) : trader_(std::move(trader)), events_(events) {}
  void Update(const OhlcTick& tick, const std::vector<float>& signals, float base, float quote,
              std::vector<Order>& orders) override {
    Event e;
    e.kind = Event::kUpdate;
    e.tick = tick;
    e.signals = signals;
    e.base = base;
    e.quote = quote;
    events_->push_back(e);
    trader_->Update(tick, signals, base, quote, orders);
    for (const Order& o : orders) {
      Event d;
      d.kind = Event::kState;
      d.state = "emitted " + Str(o);
      events_->push_back(d);
    }
  }
  std::string GetInternalState() const override { return trader_->GetInternalState(); }

 private:
  std::unique_ptr<Trader> trader_;
  Events* events_;
};

// ----------------------------------------------------------- generators ----

struct HistoryOptions {
  int min_ticks = 0;
  int max_ticks = 60;
  int huge_ticks = 0;  // Rare number of ticks.
  int64_t start = 1483228800;  // 2017-01-01
  int64_t step = 300;
  int64_t long_gap = 86400;  // Unit of rare long gaps.
  bool zero_volume = true;
  bool walk = false;
  int giant = 0;  // Rarity of extremely long histories among the long ones.
};

inline double GenVolume(pbt::Source& s, const Env& env) {
  const double v = GenBaseAmount(s, env, s.Bool());
  return v > 0 ? v : (env.exact ? env.b_scale : env.base_scale);
}

inline OhlcHistory GenOhlcHistory(pbt::Source& s, const Env& env, const HistoryOptions& opt) {
  OhlcHistory h;
  const int n = s.SizeOrHuge(opt.min_ticks, opt.max_ticks, opt.huge_ticks > 0 ? opt.huge_ticks : 12 * opt.max_ticks, 256, opt.giant);
  int64_t ts = opt.start;
  double price = env.exact ? 0 : env.price_scale;
  // Rate of zero volume ticks.
  const int zero_rate = opt.zero_volume ? s.Pick({1, 0, 3, 7}) : 0;
  const int gap_rate = s.Pick({0, 1, 3});
  // Rarely there is a very long run of ticks without volume.
  const int quiet_at = zero_rate > 0 && n > 1 && s.Chance(1, 512) ? s.Draw(n - 1) : -1;
  for (int i = 0; i < n; ++i) {
    if (quiet_at >= 0 && i == quiet_at + 1) {
      OhlcTick quiet = h.back();
      quiet.set_open(quiet.close());
      quiet.set_high(quiet.close());
      quiet.set_low(quiet.close());
      quiet.set_volume(0);
      for (int k = s.Int(20, 1500); k > 0; --k) {
        quiet.set_timestamp_sec(ts);
        h.push_back(quiet);
        ts += opt.step;
      }
    }
    OhlcTick t;
    if (opt.walk && !env.exact) {
      const double open = s.Chance(1, 8) ? price * (0.98 + 0.04 * s.Unit(10)) : price;
      const double close = std::max(env.price_scale * 0.01, open * (0.95 + 0.1 * s.Unit(12)));
      const double high = std::max(open, close) * (1 + (s.Bool() ? 0 : 0.05 * s.Unit(8)));
      const double low = std::min(open, close) * (1 - (s.Bool() ? 0 : 0.05 * s.Unit(8)));
      t.set_timestamp_sec(ts);
      t.set_open(open);
      t.set_close(close);
      t.set_high(high);
      t.set_low(low);
      price = close;
    } else {
      t = GenTick(s, env, ts);
    }
    t.set_volume(GenVolume(s, env));
    if (zero_rate > 0 && s.Chance(zero_rate, 10)) {
      t.set_volume(0);
      if (s.Chance(1, 16)) t.clear_volume();
      // Usually (but not necessarily) a flat tick.
      if (!h.empty() && s.Chance(3, 4)) {
        const float c = h.back().close();
        t.set_open(c);
        t.set_high(c);
        t.set_low(c);
        t.set_close(c);
        price = c;
      }
    }
    h.push_back(t);
    ts += opt.step;
    if (gap_rate > 0 && s.Chance(gap_rate, 16)) {
      ts += s.Chance(1, 256) ? opt.long_gap * s.Int(1, 3000) : opt.step * s.Int(1, 40);
    }
  }
  return h;
}

// Orders emitted on the ticks, aimed at the tick that follows.
inline Script GenScript(pbt::Source& s, const Env& env, const OhlcHistory& h, int max_orders = 4) {
  Script script;
  // Rarely there are many orders on each tick.
  if (s.Chance(1, 64)) max_orders = s.Int(max_orders, 24);
  // Even more rarely there is a single tick with a lot of orders.
  const size_t crowded = s.Chance(1, 128) && h.size() > 1 ? s.Draw(h.size() - 1) : h.size();
  for (size_t i = 0; i < h.size(); ++i) {
    int n = 0;
    switch (s.Draw(4)) {
      case 0: break;
      case 1: n = 1; break;
      case 2: n = 1; break;
      default: n = s.Int(1, max_orders);
    }
    if (i == crowded) n = s.Int(25, 300);
    std::vector<ScriptedOrder> orders;
    const OhlcTick& next = h[std::min(i + 1 + (s.Chance(1, 4) ? s.Draw(4) : 0), h.size() - 1)];
    for (int k = 0; k < n; ++k) {
      ScriptedOrder so;
      so.order = GenOrder(s, env, next, nullptr);
      so.whole_balance = s.Chance(1, 5);
      orders.push_back(so);
      // The same order might be emitted several times.
      if (s.Chance(1, 10)) orders.push_back(so);
    }
    if (!orders.empty()) script.orders[h[i].timestamp_sec()] = orders;
  }
  return script;
}

inline SideHistory GenSideHistory(pbt::Source& s, int64_t from, int64_t to, int64_t step, int max_records) {
  SideHistory h;
  const int n = s.SizeOrHuge(1, max_records, 12 * max_records);
  const int signals = s.Chance(1, 64) ? s.Int(1, 40) : s.Int(1, 4);
  int64_t ts = from + s.Int(-3, 10) * step + (s.Bool() ? 0 : s.Int(-2, 2));
  if (ts < 1) ts = 1;
  const int64_t span = std::max<int64_t>(1, (to - from) / n);
  for (int i = 0; i < n; ++i) {
    SideInputRecord r;
    r.set_timestamp_sec(ts);
    for (int k = 0; k < signals; ++k) r.add_signal(i * 16 + k + s.Draw(4) / 4.0);
    h.push_back(r);
    switch (s.Draw(4)) {
      case 0: ts += step; break;
      case 1: ts += s.Int(1, 5); break;
      case 2: ts += step * s.Int(1, 4); break;
      default: ts += s.Int(1, 2 * span);
    }
  }
  return h;
}

inline std::string Str(const OhlcHistory& h) {
  std::string s;
  for (const OhlcTick& t : h) s += "  " + model::Str(t) + "\n";
  return s;
}
inline std::string Str(const SideHistory& h) {
  std::ostringstream os;
  os.precision(9);
  for (const auto& r : h) {
    os << "  side(ts=" << r.timestamp_sec();
    for (float x : r.signal()) os << "," << x;
    os << ")\n";
  }
  return os.str();
}
inline std::string Str(const Script& script) {
  std::string s;
  for (const auto& kv : script.orders) {
    s += "  emit on " + std::to_string(kv.first) + ":";
    for (const auto& o : kv.second) s += " " + model::Str(o.order) + (o.whole_balance ? " (whole balance);" : ";");
    s += "\n";
  }
  return s;
}

// Sometimes with balances that are not multiples of the units (which the first
// order rounds).
inline AccountConfig GenAnyConfig(pbt::Source& s, const Env& env) {
  AccountConfig c = GenAccountConfig(s, env);
  if (s.Chance(1, 8)) {
    if (s.Bool()) c.set_start_base_balance(model::GenBaseAmount(s, env, false));
    if (s.Bool()) c.set_start_quote_balance(model::GenQuoteAmount(s, env, false));
  }
  return c;
}

// Account that has some value and units, so that the built-in traders can run.
inline AccountConfig GenFundedConfig(pbt::Source& s, const Env& env) {
  AccountConfig c = GenAnyConfig(s, env);
  if (!(c.start_base_balance() > 0) && !(c.start_quote_balance() > 0)) {
    c.set_start_quote_balance(env.exact ? 64 * env.q_scale() : Float(env.base_scale * env.price_scale));
  }
  return c;
}

inline Env GenUnitEnv(pbt::Source& s, int exact_weight, int real_weight) {
  Env env = GenEnv(s, exact_weight, real_weight);
  if (env.qu == 0) env.qu = env.exact ? 0.125 * env.q_scale() : Float(0.01 * env.price_scale * env.base_scale / 1000);
  if (env.bu == 0) env.bu = env.exact ? 0.125 * env.b_scale : Float(env.base_scale / 100000);
  return env;
}

// Stops trading before the balances get beyond the range of floats (in long wild
// histories), for which nothing is specified.
class ContentTrader : public Trader {
 public:
  explicit ContentTrader(std::unique_ptr<Trader> trader) : trader_(std::move(trader)) {}
  void Update(const OhlcTick& tick, const std::vector<float>& signals, float base, float quote,
              std::vector<Order>& orders) override {
    const size_t size = orders.size();
    trader_->Update(tick, signals, base, quote, orders);
    if (base > 1e25f || quote > 1e25f || base * tick.close() > 1e25f) orders.resize(size);
  }
  std::string GetInternalState() const override { return trader_->GetInternalState(); }

 private:
  std::unique_ptr<Trader> trader_;
};

class ContentEmitter : public TraderEmitter {
 public:
  explicit ContentEmitter(TraderEmitter* emitter) : emitter_(emitter) {}
  std::string GetName() const override { return emitter_->GetName(); }
  std::unique_ptr<Trader> NewTrader() const override {
    return std::unique_ptr<Trader>(new ContentTrader(emitter_->NewTrader()));
  }

 private:
  std::unique_ptr<TraderEmitter> emitter_;
};

// Emitter of one of the built-in traders.
inline std::unique_ptr<TraderEmitter> GenBuiltIn(pbt::Source& s) {
  if (s.Bool()) {
    trader::RebalancingTraderConfig c;
    c.set_alpha(s.Param({0.7, 0.5, 0.3, 0.1, 0.9}, 0.02, 0.98));
    c.set_epsilon(s.Param({0.05, 0.01, 0.1, 0.2}, 0.001, 0.5));
    return std::unique_ptr<TraderEmitter>(new ContentEmitter(new trader::RebalancingTraderEmitter(c)));
  }
  trader::StopTraderConfig c;
  c.set_stop_order_margin(s.Param({0.1, 0.05, 0.15, 0.2, 0.01}, 0.002, 0.5));
  c.set_stop_order_move_margin(s.Param({0.1, 0.05, 0.15, 0.2, 0.01}, 0.002, 0.5));
  c.set_stop_order_increase_per_day(s.Param({0.01, 0.05, 0.1, 0.9}, 0.001, 0.99));
  c.set_stop_order_decrease_per_day(s.Param({0.1, 0.05, 0.01, 0.9}, 0.001, 0.99));
  return std::unique_ptr<TraderEmitter>(new ContentEmitter(new trader::StopTraderEmitter(c)));
}

// Reference: signals (with age) for the given time, by linear search.
inline std::vector<float> ReferenceSignals(const SideHistory* side, int64_t timestamp) {
  std::vector<float> out;
  if (side == nullptr) return out;
  const SideInputRecord* best = nullptr;
  for (const auto& r : *side) {
    if (r.timestamp_sec() <= timestamp) best = &r;
  }
  if (best == nullptr) return out;
  for (float x : best->signal()) out.push_back(x);
  out.push_back(static_cast<float>(timestamp - best->timestamp_sec()));
  return out;
}

}  // namespace sim

#endif  // VERIF_HARNESS_SIM_H
