// C28: policy of the stop trader.
#include <cstdio>

#include "harness/sim.h"
#include "traders/trader_factory.h"

namespace {
using namespace sim;  // NOLINT

struct Params {
  double margin, move, inc, dec;
};

std::string NameOf(const Params& p) {
  char buffer[200];
  snprintf(buffer, sizeof(buffer), "stop-trader[%.3f|%.3f|%.3f|%.3f]", p.margin, p.move, p.inc, p.dec);
  return buffer;
}

struct Update {
  int64_t ts;
  float price;
  OhlcTick tick;
  float base, quote;
};

constexpr double kTol = 1.5e-6;

// Compares the trader with the policy, one step at a time: the last stop price
// that the trader has used is what the next one is computed from.
void Follow(pbt::Case& c, trader::Trader* t, const Params& p, const std::vector<Update>& updates,
            trader::Trader* other = nullptr) {
  bool first = true;
  bool last_long = false;
  int64_t last_ts = 0;
  double stop = 0;
  for (size_t i = 0; i < updates.size(); ++i) {
    const Update& u = updates[i];
    std::vector<Order> orders;
    if (other != nullptr && i % 8 != 7) {
      // Another trader sees the same tick, with balances of its own.
      std::vector<Order> other_orders;
      other->Update(u.tick, {}, i % 3 == 0 ? u.quote / u.tick.close() : u.base, i % 3 == 0 ? u.base * u.tick.close() : u.quote,
                    other_orders);
    }
    t->Update(u.tick, {}, u.base, u.quote, orders);
    std::ostringstream at;
    at.precision(9);
    at << "update " << i << " (" << Str(u.tick) << " base=" << u.base << " quote=" << u.quote << "): ";
    PBT_CHECK(orders.size() == 1, at.str() << orders.size() << " orders");
    const Order& o = orders[0];
    PBT_CHECK(o.has_type() && o.has_side() && o.type() == Order::STOP, at.str() << Str(o));
    const bool is_long = o.side() == Order::SELL;
    const double value = double(u.base) * u.price;
    const double diff = value - u.quote;
    if (iv::Few(value) || std::abs(diff) > 1e-6 * value) {
      PBT_CHECK(is_long == (diff >= 0), at.str() << "base value " << value << " but " << Str(o));
      if (diff == 0) c.Label("base and quote of the same value");
    } else {
      c.Label("ambiguous mode");
    }
    if (is_long) {
      PBT_CHECK(o.oneof_amount_case() == Order::kBaseAmount && o.base_amount() == u.base,
                at.str() << Str(o) << " does not sell the whole base balance");
    } else {
      PBT_CHECK(o.oneof_amount_case() == Order::kQuoteAmount && o.quote_amount() == u.quote,
                at.str() << Str(o) << " does not buy for the whole quote balance");
    }
    double want;
    const char* why;
    if (first || is_long != last_long || u.ts - last_ts >= 3600) {
      want = is_long ? (1 - p.margin) * u.price : (1 + p.margin) * u.price;
      why = "the margin from the price";
      c.Label(first ? "first stop" : is_long != last_long ? "mode changes" : "gaps of an hour or more");
    } else {
      const double days = double(u.ts - last_ts) / 86400;
      if (is_long) {
        const double threshold = (1 - p.move) * u.price;
        const double moved = std::min(threshold, stop * std::pow(1 + p.inc, days));
        want = std::max(stop, moved);
        why = "trailing up";
        c.LabelIf(moved > stop * (1 + 4 * kTol), "stops moved up");
        c.LabelIf(moved > stop * (1 + 4 * kTol) && moved == threshold, "stops moved to the move margin");
      } else {
        const double threshold = (1 + p.move) * u.price;
        const double moved = std::max(threshold, stop * std::pow(1 - p.dec, days));
        want = std::min(stop, moved);
        why = "trailing down";
        c.LabelIf(moved < stop * (1 - 4 * kTol), "stops moved down");
        c.LabelIf(moved < stop * (1 - 4 * kTol) && moved == threshold, "stops moved to the move margin");
      }
      c.LabelIf(want == stop, "stops kept");
    }
    // The weight of the margin close to 1 suffers from cancellation.
    const double tol = kTol * std::max(std::abs(want), is_long ? double(u.price) * 0.1 : 0);
    PBT_CHECK(o.has_price() && std::abs(o.price() - want) <= tol,
              at.str() << "stop price " << o.price() << " instead of " << want << " (" << why << ", last stop " << stop
                       << ", " << u.ts - last_ts << " s ago)");
    char state[300];
    snprintf(state, sizeof(state), "%lld,%.3f,%.3f,%.3f,%s,%.3f", static_cast<long long>(u.ts), u.base, u.quote,
             u.price, is_long ? "LONG" : "CASH", o.price());
    PBT_CHECK(t->GetInternalState() == state,
              at.str() << "state " << t->GetInternalState() << " instead of " << state);
    first = false;
    last_long = is_long;
    last_ts = u.ts;
    stop = o.price();
  }
}

float Share(pbt::Source& s) {
  return s.Bool() ? s.Pick({0.1f, 0.05f, 0.15f, 0.2f, 0.01f, 0.0f, 0.5f, 0.9f}) : static_cast<float>(s.Draw(999) / 1000.0);
}

std::vector<Update> GenUpdates(pbt::Source& s, int max) {
  std::vector<Update> updates;
  const double scale = std::pow(10.0, s.Chance(1, 16) ? s.Int(-7, 8) : s.Int(-2, 5));
  int64_t ts = s.Chance(1, 8) ? pbt::GenEpoch(s) : s.Pick<int64_t>({1483228800, 1, 3599, 3600});
  const int64_t step = s.Pick({300, 60, 1, 900, 1800, 3599, 3600});
  double price = scale;
  bool invested = s.Bool();
  double wealth = std::pow(10.0, s.Int(-3, 4));
  const int n = s.SizeOrHuge(1, max, 20 * max, 1024, 32);
  const double drift = s.Pick({0.0, 0.02, -0.02, 0.2, -0.15});
  for (int i = 0; i < n; ++i) {
    Update u;
    u.ts = ts;
    if (s.Chance(1, 12)) {
      price = s.Chance(1, 2) ? scale : price * (0.25 + 2 * s.Unit(8));
    } else {
      price *= 1 + drift + 0.04 * (s.Unit(12) - 0.5);
    }
    price = std::min(std::max(price, scale * 1e-3), scale * 1e3);
    u.price = static_cast<float>(price);
    u.tick.set_timestamp_sec(ts);
    u.tick.set_close(u.price);
    u.tick.set_open(u.price * (s.Bool() ? 1 : 1.02));
    u.tick.set_high(u.price * (s.Bool() ? 1.02 : 1.5));
    u.tick.set_low(u.price * (s.Bool() ? 1 : 0.5));
    u.tick.set_volume(s.Draw(1000));
    if (s.Chance(1, 20)) invested = !invested;
    switch (s.Weighted({20, 2, 1})) {
      case 0: {  // All of it in one currency (or almost all).
        const double rest = s.Bool() ? 0 : 0.001 * s.Draw(600);
        u.base = wealth * (invested ? 1 : rest) / (s.Bool() ? scale : price);
        u.quote = wealth * (invested ? rest : 1);
        break;
      }
      case 1: {  // A tie, or almost.
        const float p = std::ldexp(1.0, s.Int(-4, 10)) * (1 + 2 * s.Draw(2));
        u.price = p;
        u.tick.set_close(p);
        u.base = s.Int(1, 1000) / 8.0f;
        u.quote = u.base * p;
        if (s.Chance(1, 3)) u.quote = std::nextafter(u.quote, s.Bool() ? 0.0f : 1e30f);
        price = p;
        break;
      }
      default:
        u.base = wealth * s.Unit(10) / scale;
        u.quote = wealth * s.Unit(10);
    }
    if (i > 0 && s.Chance(1, 6)) {
      // A part of the previous update repeats.
      const Update& last = updates.back();
      const int same = s.Int(1, 7);
      if (same & 1) u.tick.set_close(u.price = last.price);
      if (same & 2) u.base = last.base;
      if (same & 4) u.quote = last.quote;
    }
    if (!(u.base > 0) && !(u.quote > 0)) u.quote = wealth;
    updates.push_back(u);
    ts += s.Chance(7, 8) ? step : s.Pick<int64_t>({1, 3600, 3599, 3601, 7200, 86400, 200000, 2, 1000, 400ll * 86400, 3000000000});
  }
  return updates;
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  if (s.Chance(1, 40)) {
    // Batches, and the traders of the factory.
    std::vector<std::unique_ptr<TraderEmitter>> batch;
    std::map<std::string, Params> want;
    if (s.Chance(1, 4)) {
      batch = trader::GetBatchOfTraders("stop");
      batch.push_back(trader::GetTrader("stop"));
      std::set<std::string> names;
      for (const auto& e : batch) {
        Params p;
        char tail[8] = "";
        const std::string name = e->GetName();
        PBT_CHECK(sscanf(name.c_str(), "stop-trader[%lf|%lf|%lf|%lf%1s", &p.margin, &p.move, &p.inc, &p.dec, tail) == 5,
                  "name " << name);
        want[name] = p;
        if (names.size() + 1 < batch.size()) PBT_CHECK(names.insert(name).second, "twice in the batch: " << name);
      }
      c.Label("batch of the factory");
    } else {
      std::vector<float> v[4];
      for (int k = 0; k < 4; ++k) {
        std::set<float> values;
        const int n = s.Int(1, 3);
        while (static_cast<int>(values.size()) < n) values.insert((s.Draw(900) + values.size()) / 1000.0f);
        v[k].assign(values.begin(), values.end());
        if (s.Bool()) std::reverse(v[k].begin(), v[k].end());
      }
      batch = trader::StopTraderEmitter::GetBatchOfTraders(v[0], v[1], v[2], v[3]);
      for (float a : v[0]) {
        for (float b : v[1]) {
          for (float i : v[2]) {
            for (float d : v[3]) {
              Params p{a, b, i, d};
              want[NameOf(p)] = p;
            }
          }
        }
      }
      PBT_CHECK(batch.size() == want.size(), batch.size() << " traders instead of " << want.size());
      std::set<std::string> names;
      for (const auto& e : batch) {
        PBT_CHECK(want.count(e->GetName()) == 1, "unexpected trader " << e->GetName());
        PBT_CHECK(names.insert(e->GetName()).second, "twice in the batch: " << e->GetName());
      }
      c.Label("batch of random parameters");
    }
    const std::vector<Update> updates = GenUpdates(s, 8);
    for (int k = 0; k < 6; ++k) {
      const TraderEmitter& e = *batch[s.Draw(batch.size())];
      PBT_DESC(c, e.GetName() << "\n");
      Follow(c, e.NewTrader().get(), want[e.GetName()], updates);
    }
    c.nontrivial = updates.size() > 1;
    return;
  }
  trader::StopTraderConfig config;
  config.set_stop_order_margin(Share(s));
  config.set_stop_order_move_margin(Share(s));
  config.set_stop_order_increase_per_day(s.Chance(1, 4) ? s.Pick({2.0f, 10.0f, 0.0f}) : Share(s));
  config.set_stop_order_decrease_per_day(Share(s));
  const Params p{config.stop_order_margin(), config.stop_order_move_margin(), config.stop_order_increase_per_day(),
                 config.stop_order_decrease_per_day()};
  const std::vector<Update> updates = GenUpdates(s, 60);
  PBT_DESC(c, NameOf(p) << "\n");
  for (const Update& u : updates) PBT_DESC(c, "  " << Str(u.tick) << " base=" << u.base << " quote=" << u.quote << "\n");
  trader::StopTraderEmitter emitter(config);
  PBT_CHECK(emitter.GetName() == NameOf(p), "name " << emitter.GetName() << " instead of " << NameOf(p));
  std::unique_ptr<trader::Trader> other;
  if (s.Chance(1, 6)) {
    if (s.Bool()) config.set_stop_order_margin(Share(s));
    if (s.Bool()) config.set_stop_order_move_margin(Share(s));
    if (s.Bool()) config.set_stop_order_increase_per_day(Share(s));
    if (s.Bool()) config.set_stop_order_decrease_per_day(Share(s));
    other = trader::StopTraderEmitter(config).NewTrader();
    c.Label("with another trader");
  }
  Follow(c, emitter.NewTrader().get(), p, updates, other.get());
  if (s.Chance(1, 4)) {  // A second trader starts anew.
    Follow(c, emitter.NewTrader().get(), p, GenUpdates(s, 5));
    c.Label("second trader of the emitter");
  }
  c.nontrivial = c.labels.count("stops moved up") > 0 || c.labels.count("stops moved down") > 0;
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C28", "The stop trader trails its stop by the documented policy",
    "Random parameters (also zero and extreme ones), price histories with drifts, jumps and gaps around an hour, and "
    "balances (all in one currency, mixed, ties); every emitted order, stop price and state is compared with the policy "
    "in double precision, computed from the previous stop price of the trader; batches of random parameters and of the "
    "factory. Non-trivial: the stop was moved at least once.",
    350000, 15000000, Run, 20,
    {"Margins and the daily decrease are in [0, 1), the daily increase is not negative, prices and the portfolio value "
     "are positive, and times increase.",
     "Modes are not decided when the base value is within the rounding error of the quote balance."}};
