// C24: moving averages and MACD.
#include "harness/indicators_ref.h"
#include "indicators/exponential_moving_average.h"
#include "indicators/moving_average_convergence_divergence.h"
#include "indicators/simple_moving_average.h"

namespace {
using namespace ind;  // NOLINT

// Exponential moving average of a series by its recurrence.
double Ema(const std::vector<double>& x, double weight) {
  double ema = 0;
  for (size_t i = 0; i < x.size(); ++i) ema = i == 0 ? x[i] : weight * x[i] + (1 - weight) * ema;
  return ema;
}
std::vector<double> EmaSeries(const std::vector<double>& x, double weight) {
  std::vector<double> out;
  for (size_t i = 0; i < x.size(); ++i) out.push_back(i == 0 ? x[i] : weight * x[i] + (1 - weight) * out.back());
  return out;
}

void Near(double got, double want, double tol, const std::string& what, int n) {
  PBT_CHECK(std::isfinite(got) && std::abs(got - want) <= tol,
            what << " over " << n << " periods is " << got << " instead of " << want << " (tolerance " << tol << ")");
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  const Stream st = GenStream(s, 80, true);
  const int sma_n = s.Length({3, 1, 2, 5, 10, 50});
  int ema_n = s.Length({10, 1, 3, 7, 50, 200});
  float smoothing = s.Param({2.0, 1.0, 1.5}, 0.0625, 2.0);
  // The weight itself can be given as well.
  if (s.Chance(1, 16)) {
    ema_n = 0;
    smoothing = std::min(smoothing, 1.0f);
  }
  const int fast_n = s.Length({12, 1, 2, 3, 7}), slow_n = s.Length({26, 3, 5, 50}), signal_n = s.Length({9, 1, 3, 20});
  PBT_DESC(c, Str(st) << "SMA " << sma_n << " EMA " << smoothing << "/" << ema_n << " MACD " << fast_n << " " << slow_n
                      << " " << signal_n << "\n");
  trader::SimpleMovingAverage sma(sma_n, st.period);
  trader::ExponentialMovingAverage ema(smoothing, ema_n, st.period);
  trader::MovingAverageConvergenceDivergence macd(fast_n, slow_n, signal_n, st.period);
  PBT_CHECK(sma.GetSimpleMovingAverage() == 0 && sma.GetNumOhlcTicks() == 0, "SMA before the first tick");
  PBT_CHECK(ema.GetExponentialMovingAverage() == 0 && ema.GetNumOhlcTicks() == 0, "EMA before the first tick");
  PBT_CHECK(macd.GetMACDSeries() == 0 && macd.GetMACDSignal() == 0 && macd.GetDivergence() == 0 &&
                macd.GetFastExponentialMovingAverage() == 0 && macd.GetSlowExponentialMovingAverage() == 0 &&
                macd.GetNumOhlcTicks() == 0,
            "MACD before the first tick");
  Aggregate ref(st.period);
  const double eps = 1.2e-7;
  // Other indicators, of other lengths and periods, see the same ticks.
  const bool company = s.Chance(1, 6);
  const int64_t other_period = company ? OtherPeriod(s, st) : st.period;
  const bool scaled = company && s.Bool();
  trader::SimpleMovingAverage sma2(company ? s.Length({4, 1, 2}) : 1, other_period);
  trader::ExponentialMovingAverage ema2(company ? s.Pick({2.0f, 1.0f, 0.5f}) : 1, company ? s.Length({5, 1, 2}) : 1, other_period);
  trader::MovingAverageConvergenceDivergence macd2(company ? s.Length({5, 12}) : 1, company ? s.Length({6, 26}) : 1,
                                                   company ? s.Length({4, 9}) : 1, other_period);
  c.LabelIf(company, "with other indicators");
  int t = 0;
  for (const OhlcTick& tick : st.ticks) {
    if (company && t % 50 < 40) {
      const OhlcTick other = Other(tick, scaled);
      sma2.Update(other);
      ema2.Update(other);
      macd2.Update(other);
    }
    sma.Update(tick);
    ema.Update(tick);
    macd.Update(tick);
    ref.Add(tick);
    ++t;
    if (Skipped(t, st.ticks.size())) continue;
    const int n = ref.n();
    std::vector<double> closes;
    for (const PeriodTick& p : ref.all) closes.push_back(p.close);
    const double price = ref.MaxPrice();
    // Simple moving average.
    const int m = std::min(n, sma_n);
    double sum = 0;
    for (int i = n - m; i < n; ++i) sum += closes[i];
    PBT_CHECK(sma.GetNumOhlcTicks() == m, "SMA over " << sma.GetNumOhlcTicks() << " periods instead of " << m);
    Near(sma.GetSimpleMovingAverage(), sum / m, st.exact ? eps * price : 2 * eps * price * (n + t + 4), "SMA", n);
    // Exponential moving averages.
    auto tol = [&](double w) { return 4 * eps * price * (1 + std::min<double>(n, 1 / w)); };
    const double w = static_cast<double>(smoothing) / (1 + ema_n);
    PBT_CHECK(ema.GetNumOhlcTicks() == n, "EMA over " << ema.GetNumOhlcTicks() << " periods instead of " << n);
    Near(ema.GetExponentialMovingAverage(), Ema(closes, w), tol(w), "EMA", n);
    const double wf = 2.0 / (1 + fast_n), ws = 2.0 / (1 + slow_n), wm = 2.0 / (1 + signal_n);
    const std::vector<double> fast = EmaSeries(closes, wf), slow = EmaSeries(closes, ws);
    std::vector<double> line;
    for (int i = 0; i < n; ++i) line.push_back(fast[i] - slow[i]);
    const double signal = Ema(line, wm);
    PBT_CHECK(macd.GetNumOhlcTicks() == n, "MACD over " << macd.GetNumOhlcTicks() << " periods instead of " << n);
    Near(macd.GetFastExponentialMovingAverage(), fast.back(), tol(wf), "fast EMA", n);
    Near(macd.GetSlowExponentialMovingAverage(), slow.back(), tol(ws), "slow EMA", n);
    const double tol_line = tol(wf) + tol(ws) + eps * price;
    Near(macd.GetMACDSeries(), line.back(), tol_line, "MACD line", n);
    Near(macd.GetMACDSignal(), signal, tol_line + tol(wm), "MACD signal", n);
    Near(macd.GetDivergence(), line.back() - signal, 2 * tol_line + tol(wm), "MACD histogram", n);
  }
  c.nontrivial = ref.n() >= 3;
  c.Label("periods", ref.n());
  c.Label("periods without ticks", ref.fillers);
  c.Label("provisional updates", ref.updates);
  c.LabelIf(ref.n() > sma_n, "window overflows");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C24", "Moving averages and MACD equal their definitions over any tick stream",
    "Random tick streams (several ticks per period, gaps of up to 40 periods, flat and moving prices of several "
    "scales) and random lengths; after every tick all the values are compared with the definitions over the period "
    "closes in double precision. Non-trivial: at least three periods.",
    300000, 8000000, Run, 20,
    {"Single precision tolerance: 1.2e-7 times the largest price times the effective number of summands."}};
