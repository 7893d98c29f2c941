// C25: RSI and stochastic oscillators.
#include "harness/indicators_ref.h"
#include "indicators/relative_strength_index.h"
#include "indicators/stochastic_oscillator.h"

namespace {
using namespace ind;  // NOLINT

void InRange(double x, const char* what) {
  PBT_CHECK(x >= -1e-2 && x <= 100 + 1e-2, what << " is " << x);
}
void Near(double got, double want, double tol, const char* what, int n) {
  PBT_CHECK(std::isfinite(got) && std::abs(got - want) <= tol,
            what << " over " << n << " periods is " << got << " instead of " << want << " (tolerance " << tol << ")");
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  const Stream st = GenStream(s, 80);
  const int rsi_n = s.Length({14, 1, 2, 3, 5});
  const int so_n = s.Length({14, 1, 2, 3, 5, 4});
  PBT_DESC(c, Str(st) << "RSI " << rsi_n << " stochastic " << so_n << "\n");
  trader::RelativeStrengthIndex rsi(rsi_n, st.period);
  trader::StochasticOscillator so(so_n, st.period);
  PBT_CHECK(rsi.GetNumOhlcTicks() == 0 && so.GetNumOhlcTicks() == 0, "periods before the first tick");
  Aggregate ref(st.period);
  const double eps = 1.2e-7;
  int ambiguous = 0, fifty = 0;
  bool flat = true;
  // Other indicators, of other lengths and periods, see the same ticks.
  const bool company = s.Chance(1, 6);
  const int64_t other_period = company ? OtherPeriod(s, st) : st.period;
  const bool scaled = company && s.Bool();
  trader::RelativeStrengthIndex rsi2(company ? s.Length({4, 1, 2}) : 1, other_period);
  trader::StochasticOscillator so2(company ? s.Length({4, 1, 2}) : 1, other_period);
  c.LabelIf(company, "with other indicators");
  size_t step = 0;
  for (const OhlcTick& tick : st.ticks) {
    ++step;
    if (company && ref.n() % 50 < 40) {
      const OhlcTick other = Other(tick, scaled);
      rsi2.Update(other);
      so2.Update(other);
    }
    rsi.Update(tick);
    so.Update(tick);
    ref.Add(tick);
    const int n = ref.n();
    if (tick.open() != st.ticks[0].open() || tick.high() != tick.low() || tick.high() != tick.open()) flat = false;
    if (Skipped(step, st.ticks.size())) continue;
    // Relative strength index.
    double up = 0, down = 0, largest = 0;
    for (int i = 0; i < n; ++i) {
      const double prev = i == 0 ? ref.all[0].open : ref.all[i - 1].close;
      const double change = ref.all[i].close - prev;
      largest = std::max(largest, std::abs(change));
      const double w = 1.0 / std::min(i + 1, rsi_n);
      up = i == 0 ? std::max(change, 0.0) : w * std::max(change, 0.0) + (1 - w) * up;
      down = i == 0 ? std::max(-change, 0.0) : w * std::max(-change, 0.0) + (1 - w) * down;
    }
    const double tol = 4 * eps * largest * (2 + std::min(n, rsi_n));
    PBT_CHECK(rsi.GetNumOhlcTicks() == n, "RSI over " << rsi.GetNumOhlcTicks() << " periods instead of " << n);
    Near(rsi.GetUpwardChangeModifiedMovingAverage(), up, tol, "upward average", n);
    Near(rsi.GetDownwardChangeModifiedMovingAverage(), down, tol, "downward average", n);
    const double got = rsi.GetRelativeStrengthIndex();
    InRange(got, "RSI");
    const double both = std::max(up, down);
    if (both < 1e-6 - tol) {
      PBT_CHECK(got == 50, "RSI of a flat price is " << got);
      ++fifty;
    } else if (both > 1e-6 + tol) {
      const double want = 100 * up / (up + down);
      Near(got, want, 1e-3 + 100 * 2 * tol / (up + down), "RSI", n);
    } else {
      ++ambiguous;
    }
    // Stochastic oscillators.
    std::vector<double> k, fast;
    double slow = 0;
    bool unclear = false;
    for (int i = 0; i < n; ++i) {
      double low = 1e300, high = -1e300;
      for (int j = std::max(0, i - so_n + 1); j <= i; ++j) {
        low = std::min<double>(low, ref.all[j].low);
        high = std::max<double>(high, ref.all[j].high);
      }
      const double span = high - low;
      if (span > 0.99e-6 && span < 1.01e-6 && i + 5 >= n) unclear = true;
      k.push_back(span < 1e-6 ? 50 : 100 * (ref.all[i].close - low) / span);
      double sum = 0;
      for (int j = std::max(0, i - 2); j <= i; ++j) sum += k[j];
      fast.push_back(sum / std::min(i + 1, 3));
      if (i == n - 1) {
        PBT_CHECK(so.GetLow() == static_cast<float>(low), "low is " << so.GetLow() << " instead of " << low);
        PBT_CHECK(so.GetHigh() == static_cast<float>(high), "high is " << so.GetHigh() << " instead of " << high);
        sum = 0;
        for (int j = std::max(0, i - 2); j <= i; ++j) sum += fast[j];
        slow = sum / std::min(i + 1, 3);
      }
    }
    PBT_CHECK(so.GetNumOhlcTicks() == n, "oscillator over " << so.GetNumOhlcTicks() << " periods instead of " << n);
    InRange(so.GetK(), "K");
    InRange(so.GetFastD(), "fast D");
    InRange(so.GetSlowD(), "slow D");
    if (!unclear) {
      const double tol_d = 2e-4 + 5e-5 * n;
      Near(so.GetK(), k.back(), 2e-4, "K", n);
      Near(so.GetFastD(), fast.back(), tol_d, "fast D", n);
      Near(so.GetSlowD(), slow, 2 * tol_d, "slow D", n);
    } else {
      ++ambiguous;
    }
    if (flat) PBT_CHECK(got == 50 && so.GetK() == 50, "flat price gives " << got << " and " << so.GetK());
  }
  c.nontrivial = ref.n() >= 3 && !flat;
  c.Label("periods", ref.n());
  c.Label("periods without ticks", ref.fillers);
  c.Label("provisional updates", ref.updates);
  c.Label("values close to the thresholds", ambiguous);
  c.Label("RSI of no moves", fifty);
  c.LabelIf(flat, "flat price");
  c.LabelIf(ref.n() > so_n, "window overflows");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C25", "RSI and the stochastic oscillators equal their definitions and stay in range",
    "Random tick streams (several ticks per period, gaps of up to 40 periods, flat and moving prices of several "
    "scales) and random lengths; after every tick the averages, the index, the lowest and highest price and the "
    "oscillators are compared with their definitions over the periods in double precision. Non-trivial: at least "
    "three periods and not a flat price.",
    500000, 8000000, Run, 20,
    {"Moves (spans) below 1e-6 count as flat. Values within the rounding error of this threshold are checked for the "
     "range only. The range is checked up to the rounding error (0.01)."}};
