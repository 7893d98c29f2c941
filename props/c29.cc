// C29: policy of the rebalancing trader.
#include <cstdio>

#include "harness/sim.h"
#include "traders/trader_factory.h"

namespace {
using namespace sim;  // NOLINT

struct Params {
  double alpha, epsilon;
};

std::string NameOf(const Params& p) {
  char buffer[100];
  snprintf(buffer, sizeof(buffer), "rebalancing-trader[%.3f|%.3f]", p.alpha, p.epsilon);
  return buffer;
}

struct Update {
  OhlcTick tick;
  float base, quote;
};

void Limit(pbt::Case& c, const Order* o, bool sell, const Params& p, const Update& u, const std::string& at) {
  const double b = u.base, q = u.quote, price = u.tick.close();
  const double border = p.alpha * (sell ? 1 + p.epsilon : 1 - p.epsilon);
  const char* what = sell ? "limit sell" : "limit buy";
  const double rest = 1 - border;
  if (std::abs(rest) < 1e-5 || (sell && p.alpha > 0 && std::abs(p.epsilon) < 1e-9)) {
    c.Label("border at the whole portfolio");
    return;
  }
  // Price at which the share of the base currency is at the border.
  const double want_price = border * q / (rest * b);
  const double tol = 2e-6 * (1 + 1 / std::abs(rest));
  const double best = sell ? price : price / 100, worst = sell ? 100 * price : price;
  bool expected = rest > 0 && want_price > best && want_price < worst;
  const bool unclear = std::abs(want_price - best) <= tol * best || std::abs(want_price - worst) <= tol * worst ||
                       std::abs(b - 1e-6) < 1e-11 || std::abs(q - 1e-6) < 1e-11;
  if (!(b > 1e-6) || !(q > 1e-6)) expected = false;
  if (unclear) {
    c.Label("ambiguous limit orders");
  } else {
    PBT_CHECK((o != nullptr) == expected,
              at << (o ? "unexpected " : "missing ") << what << " order at " << want_price);
  }
  if (o == nullptr) return;
  c.Label(sell ? "limit sell orders" : "limit buy orders");
  PBT_CHECK(o->type() == Order::LIMIT && o->oneof_amount_case() == Order::kBaseAmount && o->has_price(), at << Str(*o));
  PBT_CHECK(std::abs(o->price() - want_price) <= tol * want_price,
            at << what << " price " << o->price() << " instead of " << want_price);
  if (sell) {
    PBT_CHECK(o->price() > u.tick.close(), at << what << " at " << o->price() << " is not above the price");
  } else {
    PBT_CHECK(o->price() < u.tick.close(), at << what << " at " << o->price() << " is not below the price");
  }
  // Share after the execution at the limit price.
  const double amount = o->base_amount();
  const double nb = sell ? b - amount : b + amount;
  const double nq = sell ? q + amount * want_price : q - amount * want_price;
  PBT_CHECK(amount > 0, at << what << " amount " << amount);
  const double share = nb * want_price / (nb * want_price + nq);
  PBT_CHECK(std::abs(share - p.alpha) < 1e-5, at << what << " of " << amount << " at " << o->price()
                                                 << " brings the share to " << share << " instead of " << p.alpha);
  const double want = sell ? b * p.epsilon / (1 + p.epsilon) : b * p.epsilon / (1 - p.epsilon);
  PBT_CHECK(std::abs(amount - want) <= 2e-6 * want * (1 + 1 / (1 - p.epsilon)),
            at << what << " amount " << amount << " instead of " << want);
  PBT_CHECK(nb >= 0 && nq >= -1e-5 * q, at << Str(*o) << " exceeds the balance");
}

void Follow(pbt::Case& c, trader::Trader* t, const Params& p, const std::vector<Update>& updates,
            trader::Trader* other = nullptr) {
  for (size_t i = 0; i < updates.size(); ++i) {
    const Update& u = updates[i];
    std::vector<Order> orders;
    if (other != nullptr && i % 8 != 7) {
      // Another trader sees the same tick, with balances of its own.
      std::vector<Order> other_orders;
      other->Update(u.tick, {}, i % 3 == 0 ? u.quote / u.tick.close() : u.base, i % 3 == 0 ? u.base * u.tick.close() : u.quote,
                    other_orders);
    }
    t->Update(u.tick, {}, u.base, u.quote, orders);
    std::ostringstream os;
    os.precision(9);
    os << "update " << i << " (" << Str(u.tick) << " base=" << u.base << " quote=" << u.quote << "): ";
    const std::string at = os.str();
    std::string all;
    for (const Order& o : orders) all += Str(o) + "; ";
    for (const Order& o : orders) PBT_CHECK(o.has_type() && o.has_side(), at << "order without type or side: " << all);
    const double price = u.tick.close();
    const double value = double(u.base) * price + u.quote;
    const double beta = double(u.base) * price / value;
    const double up = p.alpha * (1 + p.epsilon), down = p.alpha * (1 - p.epsilon);
    int market = 0;
    for (const Order& o : orders) market += o.type() == Order::MARKET;
    const bool near_up = std::abs(beta - up) < 1e-6 * up, near_down = std::abs(beta - down) < 1e-6 * down;
    c.LabelIf(near_up || near_down, "share at the border");
    const Order::Side side = beta > p.alpha ? Order::SELL : Order::BUY;
    if (!near_up && !near_down) {
      PBT_CHECK((market > 0) == (beta > up || beta < down),
                at << "share " << beta << " and band " << down << " - " << up << " but " << all);
    }
    if (market > 0) {
      PBT_CHECK(orders.size() == 1, at << all);
      const Order& o = orders[0];
      PBT_CHECK(o.side() == side && o.oneof_amount_case() == Order::kBaseAmount, at << Str(o) << ", share " << beta);
      const double amount = o.base_amount();
      // The value of the order restores the share at the current price.
      const double new_base = o.side() == Order::SELL ? u.base - amount : u.base + amount;
      const double new_quote = o.side() == Order::SELL ? u.quote + amount * price : u.quote - amount * price;
      PBT_CHECK(amount > -2e-6 * value / price, at << Str(o));
      PBT_CHECK(std::abs(new_base * price / value - p.alpha) < 2e-6, at << Str(o) << " brings the share to "
                                                                       << new_base * price / value);
      PBT_CHECK(new_base * price > -2e-6 * value && new_quote > -2e-6 * value, at << Str(o) << " exceeds the balance");
      c.Label(o.side() == Order::SELL ? "market sell orders" : "market buy orders");
    } else if (!near_up && !near_down) {
      const Order* sell = nullptr;
      const Order* buy = nullptr;
      for (const Order& o : orders) {
        const Order*& slot = o.side() == Order::SELL ? sell : buy;
        PBT_CHECK(slot == nullptr, at << all);
        slot = &o;
      }
      if (u.base > 0 && u.quote > 0) {
        Limit(c, sell, true, p, u, at);
        Limit(c, buy, false, p, u, at);
      } else {
        PBT_CHECK(orders.empty(), at << all);
        c.Label("no orders");
      }
    }
    char state[300];
    snprintf(state, sizeof(state), "%lld,%.3f,%.3f,%.3f", static_cast<long long>(u.tick.timestamp_sec()), u.base,
             u.quote, u.tick.close());
    PBT_CHECK(t->GetInternalState() == state, at << "state " << t->GetInternalState() << " instead of " << state);
  }
}

std::vector<Update> GenUpdates(pbt::Source& s, const Params& p, int max) {
  std::vector<Update> updates;
  const double scale = std::pow(10.0, s.Chance(1, 16) ? s.Int(-7, 8) : s.Int(-3, 5));
  const double wealth = std::pow(10.0, s.Int(-4, 6));
  int64_t ts = pbt::GenEpoch(s);
  const int n = s.SizeOrHuge(1, max, 40 * max, 2048, 24);
  for (int i = 0; i < n; ++i) {
    Update u;
    const float price = s.Chance(1, 4) ? std::ldexp(1.0, s.Int(-6, 16)) : scale * (0.5 + s.Unit(14));
    u.tick.set_timestamp_sec(ts);
    u.tick.set_close(price);
    u.tick.set_open(price * (s.Bool() ? 1 : 1.03));
    u.tick.set_high(price * 1.1);
    u.tick.set_low(price * 0.9);
    u.tick.set_volume(s.Draw(100));
    double share;
    switch (s.Weighted({6, 2, 1, 1, 1})) {
      case 0: share = p.alpha * (1 + 1.5 * p.epsilon * (2 * s.Unit(12) - 1)); break;
      case 1: share = s.Unit(12); break;
      case 2: share = p.alpha * (1 + (s.Bool() ? 1 : -1) * p.epsilon * (1 + 1e-4 * (s.Unit(8) - 0.5))); break;
      case 3: share = p.alpha; break;
      default: share = s.Pick({0.0, 1.0, 1e-7, 1 - 1e-7, 1e-5, 0.999}); break;
    }
    share = std::min(std::max(share, 0.0), 1.0);
    u.base = wealth * share / price;
    u.quote = wealth * (1 - share);
    if (!(u.base > 0) && !(u.quote > 0)) u.quote = wealth;
    // A part of the previous update often repeats.
    if (i > 0 && s.Chance(1, 3)) {
      const Update& last = updates.back();
      // Small changes of the balances keep the share inside of the band.
      const float factor = s.Pick({1.0f, 1.0f, 0.99f, 1.01f, 0.9999f, 1.5f});
      const int same = s.Int(1, 7);
      if (same & 1) u.tick.set_close(last.tick.close());
      if (same & 2) u.base = last.base * ((same & 4) ? 1 : factor);
      if (same & 4) u.quote = last.quote * ((same & 2) ? factor : 1);
      if (!(u.base > 0) && !(u.quote > 0)) u.quote = wealth;
    }
    updates.push_back(u);
    ts += s.Pick({300, 60, 3600, 1, 86400, 100000000});
  }
  return updates;
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  if (s.Chance(1, 40)) {
    std::vector<std::unique_ptr<TraderEmitter>> batch;
    std::map<std::string, Params> want;
    std::set<std::string> names;
    if (s.Chance(1, 4)) {
      batch = trader::GetBatchOfTraders("rebalancing");
      for (const auto& e : batch) PBT_CHECK(names.insert(e->GetName()).second, "twice in the batch: " << e->GetName());
      batch.push_back(trader::GetTrader("rebalancing"));
      for (const auto& e : batch) {
        Params p;
        char tail[8] = "";
        const std::string name = e->GetName();
        PBT_CHECK(sscanf(name.c_str(), "rebalancing-trader[%lf|%lf%1s", &p.alpha, &p.epsilon, tail) == 3, "name " << name);
        want[name] = p;
      }
      c.Label("batch of the factory");
    } else {
      std::vector<float> v[2];
      for (int k = 0; k < 2; ++k) {
        std::set<float> values;
        const int n = s.Int(1, 5);
        while (static_cast<int>(values.size()) < n) values.insert((s.Int(1, 900) + values.size()) / 1000.0f);
        v[k].assign(values.begin(), values.end());
        if (s.Bool()) std::reverse(v[k].begin(), v[k].end());
      }
      batch = trader::RebalancingTraderEmitter::GetBatchOfTraders(v[0], v[1]);
      for (float a : v[0]) {
        for (float e : v[1]) want[NameOf({a, e})] = Params{a, e};
      }
      PBT_CHECK(batch.size() == want.size(), batch.size() << " traders instead of " << want.size());
      for (const auto& e : batch) {
        PBT_CHECK(want.count(e->GetName()) == 1, "unexpected trader " << e->GetName());
        PBT_CHECK(names.insert(e->GetName()).second, "twice in the batch: " << e->GetName());
      }
      c.Label("batch of random parameters");
    }
    for (int k = 0; k < 6; ++k) {
      const TraderEmitter& e = *batch[s.Draw(batch.size())];
      Params p = want[e.GetName()];
      // The names have three decimals.
      p.alpha = static_cast<float>(p.alpha);
      p.epsilon = static_cast<float>(p.epsilon);
      PBT_DESC(c, e.GetName() << "\n");
      Follow(c, e.NewTrader().get(), p, GenUpdates(s, p, 6));
    }
    c.nontrivial = true;
    return;
  }
  trader::RebalancingTraderConfig config;
  config.set_alpha(s.Bool() ? s.Pick({0.7f, 0.5f, 0.3f, 0.1f, 0.9f, 1.0f, 0.0f, 0.01f, 0.99f}) : s.Unit(10));
  config.set_epsilon(s.Bool() ? s.Pick({0.05f, 0.01f, 0.1f, 0.2f, 0.5f, 0.9f}) : (1 + s.Draw(1000)) / 1002.0f);
  const Params p{config.alpha(), config.epsilon()};
  const std::vector<Update> updates = GenUpdates(s, p, 24);
  PBT_DESC(c, NameOf(p) << "\n");
  for (const Update& u : updates) PBT_DESC(c, "  " << Str(u.tick) << " base=" << u.base << " quote=" << u.quote << "\n");
  trader::RebalancingTraderEmitter emitter(config);
  PBT_CHECK(emitter.GetName() == NameOf(p), "name " << emitter.GetName() << " instead of " << NameOf(p));
  std::unique_ptr<trader::Trader> other;
  if (s.Chance(1, 6)) {
    if (s.Bool()) config.set_alpha(s.Unit(10));
    if (s.Bool()) config.set_epsilon((1 + s.Draw(1000)) / 1002.0f);
    other = trader::RebalancingTraderEmitter(config).NewTrader();
    c.Label("with another trader");
  }
  Follow(c, emitter.NewTrader().get(), p, updates, other.get());
  int kinds = 0;
  for (const auto& kv : c.labels) kinds += kv.first.find("orders") != std::string::npos && kv.first[0] != 'n' && kv.first[0] != 'a';
  c.nontrivial = kinds > 0;
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C29", "The rebalancing trader keeps the configured allocation by its policy",
    "Random alpha (0 to 1) and epsilon, prices and balances of many scales with shares inside, outside and at the "
    "borders of the band; every emitted order is judged by the share it restores and by the price at which the share "
    "reaches the border, in double precision; batches of random parameters and of the factory. Non-trivial: at least "
    "one order was emitted.",
    400000, 20000000, Run, 20,
    {"0 < epsilon < 1, prices and the portfolio value are positive, and times increase.",
     "Nothing is decided within the rounding error of the borders of the band and of the price range of limit orders."}};
