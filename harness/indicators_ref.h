// Generator of tick streams and reference aggregation to periods.
#ifndef VERIF_HARNESS_INDICATORS_REF_H
#define VERIF_HARNESS_INDICATORS_REF_H

#include <deque>
#include <vector>

#include "harness/account_model.h"

namespace ind {

using model::Env;
using trader::OhlcTick;

struct Stream {
  int64_t period = 300;
  bool exact = true;
  std::vector<OhlcTick> ticks;
};

// Period of another instance that sees the same ticks.
inline int OtherPeriod(pbt::Source& s, const Stream& st) {
  switch (s.Draw(5)) {
    case 0: return 2 * st.period;
    case 1: return std::max<int64_t>(1, st.period / 2);
    case 2: return st.period;
    case 3: return st.period + 1;
    default: return 12 * st.period;
  }
}
// Tick for another instance: the same one, or at another price.
inline OhlcTick Other(const OhlcTick& tick, bool scaled) {
  OhlcTick t = tick;
  if (scaled) {
    t.set_open(3 * t.open());
    t.set_high(3 * t.high());
    t.set_low(3 * t.low());
    t.set_close(3 * t.close());
    t.set_volume(t.volume() + 1);
  }
  return t;
}

// Prices are few-bit numbers (exact regime) or a random walk.
// With jumps, prices of very different scales follow each other sometimes.
// Whether the comparison after the given step (of so many) is left out: extremely long
// sequences are compared near their ends and at some places between.
inline bool Skipped(size_t step, size_t steps) {
  return steps > 5000 && step >= 200 && step + 100 < steps && step % 4096 > 2;
}

inline Stream GenStream(pbt::Source& s, int max_ticks, bool with_jumps = false) {
  Stream st;
  st.period = s.Chance(1, 16) ? static_cast<int>(s.Int(1, 100000)) : s.Pick({300, 60, 3600, 86400, 7, 900, 14400, 604800, 2592000});
  st.exact = s.Weighted({2, 1}) == 0;
  const bool huge = s.Chance(1, 2048);
  const int n = huge ? (s.Chance(1, 24) ? s.Pick({65536, 32768, 65535, 70000}) + s.Int(0, 3) : s.Int(1, 500)) : s.Bool() ? s.Size(1, max_ticks) : s.Size(std::min(6, max_ticks), max_ticks);
  int64_t ts = s.Chance(1, 8) ? pbt::GenEpoch(s) : s.Pick<int64_t>({1483228800, 0, 1, 86400 * 365});
  if (s.Bool()) ts += s.Draw(3 * st.period);
  const double scale = st.exact ? 1 : s.Chance(1, 8) ? s.Pick({1e-4, 1e-5, 1e7, 1e-7}) : s.Pick({1000.0, 1.0, 0.01, 50000.0});
  double price = scale;
  const bool jumps = with_jumps && s.Chance(1, 8);
  double factor = 1;
  const int flat = s.Pick({0, 0, 0, 3, 9, 10});
  const int fraction = s.Pick({1, 2, 4, 8});
  for (int i = 0; i < n; ++i) {
    OhlcTick t;
    double o, h, l, c;
    if (s.Chance(flat, 10)) {
      o = h = l = c = price;
    } else if (st.exact) {
      double p[4];
      for (double& x : p) x = (1 + s.Draw(64)) / 4.0;
      o = s.Bool() ? price : p[0];
      c = p[1];
      h = std::max(std::max(o, c), s.Bool() ? p[2] : 0);
      l = std::min(std::min(o, c), s.Bool() ? p[3] : 1e9);
    } else {
      o = s.Bool() ? price : price * (0.9 + 0.2 * s.Unit(10));
      c = o * (0.9 + 0.2 * s.Unit(12));
      h = std::max(o, c) * (1 + (s.Bool() ? 0 : 0.1 * s.Unit(8)));
      l = std::min(o, c) * (1 - (s.Bool() ? 0 : 0.1 * s.Unit(8)));
      if (c < scale * 0.01 || c > scale * 100) o = c = h = l = scale;
    }
    if (jumps && s.Chance(1, 4)) {
      // A tick of another scale.
      const double f = std::ldexp(1.0, s.Int(-14, 14));
      if (factor * f > 1e-5 && factor * f < 1e5) {
        factor *= f;
        o *= f; h *= f; l *= f; c *= f;
      }
      st.exact = false;
    }
    t.set_timestamp_sec(ts);
    t.set_open(o);
    t.set_high(h);
    t.set_low(l);
    t.set_close(c);
    t.set_volume(s.Chance(1, 8) ? 0 : (1 + s.Draw(32)) / 4.0);
    price = t.close();
    st.ticks.push_back(t);
    switch (s.Draw(8)) {
      case 0: ts += st.period; break;
      case 1: ts += s.Int(1, 3) * st.period; break;
      case 2: ts += s.Int(1, st.period); break;
      case 3: ts += s.Chance(1, 4) ? (s.Chance(1, 64) ? (s.Chance(1, 64) ? s.Int(600, 70000) : s.Int(3, 600)) : s.Int(3, 40)) * st.period + s.Draw(st.period) : st.period; break;
      default: ts += std::max<int64_t>(1, st.period / fraction);
    }
  }
  return st;
}

struct PeriodTick {
  int64_t k = 0;
  float open = 0, high = 0, low = 0, close = 0;
  double volume = 0;
};

// All period ticks so far, including the fillers.
class Aggregate {
 public:
  explicit Aggregate(int64_t period) : period_(period) {}
  void Add(const OhlcTick& t) {
    const int64_t k = t.timestamp_sec() / period_;
    if (!all.empty()) {
      while (all.back().k + 1 < k) {
        PeriodTick f;
        f.k = all.back().k + 1;
        f.open = f.high = f.low = f.close = all.back().close;
        all.push_back(f);
        ++fillers;
      }
    }
    if (all.empty() || all.back().k < k) {
      PeriodTick p;
      p.k = k;
      p.open = t.open();
      p.high = t.high();
      p.low = t.low();
      p.close = t.close();
      p.volume = t.volume();
      all.push_back(p);
    } else {
      PeriodTick& p = all.back();
      p.high = std::max(p.high, t.high());
      p.low = std::min(p.low, t.low());
      p.close = t.close();
      p.volume += t.volume();
      ++updates;
    }
  }
  int n() const { return static_cast<int>(all.size()); }
  double MaxPrice() const {
    double m = 0;
    for (const auto& p : all) m = std::max<double>(m, p.high);
    return m;
  }
  std::vector<PeriodTick> all;
  int fillers = 0;
  int updates = 0;

 private:
  int64_t period_;
};

inline std::string Str(const Stream& st) {
  std::string s = "period " + std::to_string(st.period) + "\n";
  for (const auto& t : st.ticks) s += "  " + model::Str(t) + "\n";
  return s;
}

}  // namespace ind

#endif  // VERIF_HARNESS_INDICATORS_REF_H
