// C15: resampling.
#include "base/history.h"
#include "harness/account_model.h"

namespace {
using namespace model;  // NOLINT
using trader::OhlcHistory;
using trader::PriceHistory;
using trader::PriceRecord;

void Run(pbt::Case& c) {
  auto& s = c.s;
  const bool exact = !s.Chance(1, 4);
  const int rate = s.Chance(1, 16) ? static_cast<int>(s.Int(1, 100000)) : s.Pick({300, 1, 2, 60, 3600, 7, 86400, 77, 900, 14400, 604800, 1209600, 2592000, 31536000});
  PriceHistory h;
  const int n = s.SizeOrHuge(0, 80, 3000, 1024, 256);
  int64_t ts = s.Chance(1, 6) ? pbt::GenEpoch(s) : s.Pick<int64_t>({1483228800, 0, 1, 299, 300});
  if (s.Bool()) ts += s.Draw(2 * rate);
  // Very rarely there is one extremely long gap.
  const int64_t long_at = s.Chance(1, 1 << 15) && n > 1 ? s.Draw(n - 1) : -1;
  for (int i = 0; i < n; ++i) {
    PriceRecord r;
    r.set_timestamp_sec(ts);
    r.set_price(exact ? (1 + s.Draw(64)) / 4.0 : 1000 * (0.5 + s.Unit(14)));
    r.set_volume(s.Chance(1, 8) ? 0 : exact ? s.Draw(64) / 8.0 : s.Unit(14));
    h.push_back(r);
    if (i == long_at) ts += (int64_t{1} << s.Int(11, 19)) * rate + s.Int(0, 4000 * int64_t{rate});
    switch (s.Draw(7)) {
      case 0: ts += rate; break;
      case 1: break;
      case 2: ts += 1; break;
      case 3: ts += s.Int(1, rate); break;
      case 4: ts = (ts / rate + 1) * rate - s.Draw(2); ts = std::max(ts, h.back().timestamp_sec()); break;
      case 5: ts += (s.Chance(1, 100) ? s.Int(1, 3000) : s.Int(1, 4)) * rate + s.Draw(rate); break;
      default: ts += std::max(1, rate / 4);
    }
  }
  for (const auto& r : h) PBT_DESC(c, r.ShortDebugString() << "\n");
  PBT_DESC(c, "rate " << rate << "\n");
  // A part of the history sometimes.
  size_t from = 0, to = h.size();
  if (s.Chance(1, 4)) {
    from = s.Draw(h.size() + 1);
    to = from + s.Draw(h.size() - from + 1);
  }
  const OhlcHistory got = trader::Resample(h.begin() + from, h.begin() + to, rate);
  if (from == to) {
    PBT_CHECK(got.empty(), "ticks from an empty history");
    return;
  }
  std::map<int64_t, std::vector<PriceRecord>> groups;
  double total = 0;
  for (size_t i = from; i < to; ++i) {
    groups[h[i].timestamp_sec() / rate].push_back(h[i]);
    total += h[i].volume();
  }
  const int64_t first = groups.begin()->first, last = groups.rbegin()->first;
  PBT_CHECK(static_cast<int64_t>(got.size()) == last - first + 1,
            got.size() << " ticks instead of " << last - first + 1);
  double sum = 0;
  float close = 0;
  int fillers = 0;
  for (size_t i = 0; i < got.size(); ++i) {
    const OhlcTick& t = got[i];
    const int64_t k = first + i;
    PBT_CHECK(t.timestamp_sec() == k * rate, "timestamp of tick " << i << " is " << t.timestamp_sec() << " instead of " << k * rate);
    auto it = groups.find(k);
    if (it == groups.end()) {
      ++fillers;
      PBT_CHECK(t.open() == close && t.high() == close && t.low() == close && t.close() == close && t.volume() == 0,
                "tick of a period without records after the price " << close << ": " << Str(t));
    } else {
      const auto& g = it->second;
      float high = g[0].price(), low = g[0].price();
      double volume = 0;
      for (const auto& r : g) {
        high = std::max(high, r.price());
        low = std::min(low, r.price());
        volume += r.volume();
      }
      PBT_CHECK(t.open() == g.front().price() && t.close() == g.back().price() && t.high() == high && t.low() == low,
                "prices of " << Str(t) << " instead of open=" << g.front().price() << " high=" << high << " low=" << low
                             << " close=" << g.back().price());
      PBT_CHECK(std::abs(t.volume() - volume) <= (exact ? 0 : (1e-5 + 1.2e-7 * g.size()) * volume), "volume of " << Str(t) << " instead of " << volume);
    }
    PBT_CHECK(t.low() <= t.open() && t.low() <= t.close() && t.open() <= t.high() && t.close() <= t.high(),
              "inconsistent tick " << Str(t));
    sum += t.volume();
    close = t.close();
  }
  PBT_CHECK(std::abs(sum - total) <= (exact ? 0 : (1e-4 + 1.2e-7 * (to - from)) * total), "total volume " << sum << " instead of " << total);
  c.nontrivial = got.size() >= 2 && groups.size() < to - from;
  c.LabelIf(fillers > 0, "with periods without records");
  c.LabelIf(fillers > 100000, "more than 100000 periods without records");
  c.LabelIf(exact, "exact volumes");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C15", "Resampling conserves volume and forms exact, gapless OHLC ticks",
    "Random price histories (several records per second and period, records at the first and last "
    "second of a period, gaps of several periods, parts of a history) and sampling periods; compared "
    "with grouping of the records by period. Non-trivial: at least two ticks and a period with more "
    "than one record.",
    4000000, 40000000, Run, 20, {"Timestamps are non-negative and non-decreasing."}};
