// C11: evaluation windows.
#include "harness/calendar.h"
#include "harness/sim.h"
#include "util/time.h"

namespace {
using namespace sim;  // NOLINT

// Buys and sells alternately, so that balances leave their starting values.
class AlternatingTrader : public Trader {
 public:
  explicit AlternatingTrader(std::vector<Events>* runs) : runs_(runs), index_(runs->size()) {
    runs->emplace_back();
  }
  void Update(const OhlcTick& tick, const std::vector<float>& signals, float base, float quote,
              std::vector<Order>& orders) override {
    Event e;
    e.kind = Event::kUpdate;
    e.tick = tick;
    e.base = base;
    e.quote = quote;
    runs_->at(index_).push_back(e);
    Order o;
    o.set_type(Order::MARKET);
    o.set_side(++count_ % 2 == 1 ? Order::BUY : Order::SELL);
    o.set_base_amount(0.5);
    orders.push_back(o);
  }
  std::string GetInternalState() const override { return std::to_string(count_); }

 private:
  std::vector<Events>* runs_;
  size_t index_;
  int count_ = 0;
};
class Emitter : public TraderEmitter {
 public:
  explicit Emitter(std::vector<Events>* runs) : runs_(runs) {}
  std::string GetName() const override { return "alternating"; }
  std::unique_ptr<Trader> NewTrader() const override {
    return std::unique_ptr<Trader>(new AlternatingTrader(runs_));
  }

 private:
  std::vector<Events>* runs_;
};

void Run(pbt::Case& c) {
  auto& s = c.s;
  pbt::GenZone(s);
  cal::Civil start_civil;
  start_civil.y = s.Bool() ? 2017 : s.Chance(1, 8) ? s.Int(2037, 4000) : s.Int(1971, 2036);
  start_civil.m = s.Int(1, 12);
  start_civil.d = s.Bool() ? 1 : s.Int(1, 28);
  start_civil.sec = s.Bool() ? 0 : s.Draw(86400);
  // Months after the 28th: where the days of a month end is the library's
  // definition (AddMonthsToTimestampSec), which windows have to follow.
  const bool late = s.Chance(1, 6);
  if (late) start_civil.d = std::min<int>(s.Int(29, 31), cal::DaysIn(start_civil.y, start_civil.m));
  const int64_t start = cal::ToUnix(start_civil);
  const auto add_months = [late](int64_t from, int months) {
    return late ? trader::AddMonthsToTimestampSec(from, months) : cal::AddMonths(from, months);
  };
  const int period = s.Pick({1, 0, 2, 3, 6, 12, 13, -1, -12, 24, 60});
  // End time.
  const int months = s.Chance(1, 1000) ? s.Int(300, 2500) : s.Bool() ? s.SizeOrHuge(0, 30, 300) : std::max(period, 0) + s.Size(0, 30);
  int64_t end = add_months(start, months);
  switch (s.Draw(6)) {
    case 0: break;
    case 1: end += 1; break;
    case 2: end -= 1; break;
    case 3: end += s.Draw(40 * 86400); break;
    case 4:
      if (s.Bool()) end = add_months(start, -s.Int(0, 3)) - s.Draw(3); break;
    default: break;
  }
  if (end < 1) end = 1;
  // Ticks around the boundaries and anywhere.
  std::set<int64_t> times;
  const int n = s.Bool() ? s.SizeOrHuge(0, 40, 400) : s.Int(1, 40);
  for (int i = 0; i < n; ++i) {
    int64_t ts = 0;
    switch (s.Draw(5)) {
      case 0: ts = add_months(start, s.Int(-1, months + 2)) + s.Int(-1, 1); break;
      case 1: ts = end + s.Int(-1, 1); break;
      case 2: ts = start + s.Int(-1, 1); break;
      default: ts = add_months(start, s.Int(-1, months + 1)) + s.Draw(28 * 86400);
    }
    if (ts > 0) times.insert(ts);
  }
  OhlcHistory h;
  for (int64_t ts : times) {
    OhlcTick t;
    t.set_timestamp_sec(ts);
    const double p = 1 + s.Draw(16);
    t.set_open(p);
    t.set_close(p);
    t.set_high(p);
    t.set_low(p);
    t.set_volume(s.Chance(1, 10) ? 0 : 1);
    h.push_back(t);
  }
  AccountConfig config;
  config.set_start_base_balance(4);
  config.set_start_quote_balance(1024);
  config.set_base_unit(0.125);
  config.set_quote_unit(0.125);
  config.set_market_liquidity(1);
  EvaluationConfig eval;
  eval.set_start_timestamp_sec(start);
  eval.set_end_timestamp_sec(end);
  eval.set_evaluation_period_months(period);
  eval.set_fast_eval(s.Bool());
  PBT_DESC(c, "start " << start << " end " << end << " months " << period << " history:\n" << Str(h));

  // Reference.
  struct Window {
    int64_t from, to;
    std::vector<const OhlcTick*> ticks;
  };
  std::vector<Window> want;
  int skipped = 0, candidates = 0;
  auto add = [&](int64_t from, int64_t to) {
    Window w{from, to, {}};
    for (const OhlcTick& t : h) {
      if (t.timestamp_sec() >= from && t.timestamp_sec() < to) w.ticks.push_back(&t);
    }
    ++candidates;
    if (w.ticks.empty()) {
      ++skipped;
    } else {
      want.push_back(w);
    }
  };
  if (period <= 0) {
    add(start, end);
  } else {
    for (int k = 0;; ++k) {
      const int64_t from = add_months(start, k);
      const int64_t to = add_months(from, period);
      if (to > end) break;
      add(from, to);
    }
  }

  std::vector<Events> runs;
  Events log;
  RecordingLogger logger(&log);
  const Emitter emitter(&runs);
  const EvaluationResult r = trader::EvaluateTrader(config, eval, h, nullptr, emitter, &logger);
  PBT_DESC(c, "result: " << r.ShortDebugString() << "\n");
  PBT_CHECK(r.period_size() == static_cast<int>(want.size()),
            "evaluated " << r.period_size() << " periods instead of " << want.size());
  // A trader that was never updated does not matter (it may be created for a
  // period without ticks and thrown away).
  runs.erase(std::remove_if(runs.begin(), runs.end(), [](const Events& e) { return e.empty(); }), runs.end());
  for (size_t i = 0; i < want.size(); ++i) {
    const auto& ticks = want[i].ticks;
    if (std::any_of(ticks.begin(), ticks.end(), [](const OhlcTick* t) { return t->volume() != 0; })) continue;
    runs.insert(runs.begin() + std::min(i, runs.size()), Events());
  }
  PBT_CHECK(runs.size() == want.size(),
            "updated " << runs.size() << " different traders for " << want.size() << " periods");
  size_t next = 0;
  for (size_t i = 0; i < want.size(); ++i) {
    const Window& w = want[i];
    const auto& p = r.period(i);
    PBT_CHECK(p.start_timestamp_sec() == w.from && p.end_timestamp_sec() == w.to,
              "period " << i << " is [" << p.start_timestamp_sec() << ", " << p.end_timestamp_sec()
                        << ") instead of [" << w.from << ", " << w.to << ")");
    PBT_CHECK(p.result().start_base_balance() == config.start_base_balance() &&
                  p.result().start_quote_balance() == config.start_quote_balance(),
              "starting balances of the period " << i);
    PBT_CHECK(p.result().start_price() == w.ticks.front()->close() &&
                  p.result().end_price() == w.ticks.back()->close(),
              "prices of the period " << i);
    size_t update = 0;
    bool first = true;
    for (const OhlcTick* t : w.ticks) {
      while (next < log.size() && log[next].kind != Event::kTick) ++next;
      PBT_CHECK(next < log.size() && SameTick(log[next].tick, *t),
                "tick " << Str(*t) << " of the period " << i << " was not executed in order");
      if (first) {
        PBT_CHECK(log[next].base == config.start_base_balance() &&
                      log[next].quote == config.start_quote_balance() && log[next].fee == 0,
                  "the period " << i << " does not start with the starting balances");
      }
      first = false;
      ++next;
      if (t->volume() == 0) continue;
      PBT_CHECK(update < runs[i].size() && SameTick(runs[i][update].tick, *t),
                "trader of the period " << i << " was not updated by " << Str(*t));
      ++update;
    }
    PBT_CHECK(update == runs[i].size(), "trader of the period " << i << " got other ticks");
  }
  while (next < log.size() && log[next].kind != Event::kTick) ++next;
  PBT_CHECK(next == log.size(), "ticks outside of the periods were executed");
  c.nontrivial = !want.empty();
  c.LabelIf(period <= 0, "single window");
  c.LabelIf(want.size() >= 3, "at least 3 periods");
  c.LabelIf(skipped > 0 && !want.empty(), "some windows are empty");
  c.LabelIf(want.empty(), "no period");
  c.LabelIf(late && want.size() >= 2, "several periods, start after the 28th");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C11", "Evaluation periods are the documented calendar windows",
    "Random start (any day and second), end (exactly at, just off and far from the window ends, "
    "also before the start), period in months (also zero and negative), and ticks around the window "
    "borders with holes; periods, executed ticks and fresh traders compared with an independent "
    "calendar model; up to 2500 months. Non-trivial: at least one evaluated period.",
    180000, 15000000, Run, 20, {"Start and end times are positive; windows that start after the 28th of a month are placed by the "
     "library's own addition of months (checked by C23 up to the 28th)."}};
