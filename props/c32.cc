// C32: aggregation invariance of the indicators.
#include "harness/indicators_ref.h"
#include "indicators/exponential_moving_average.h"
#include "indicators/last_n_ohlc_ticks.h"
#include "indicators/moving_average_convergence_divergence.h"
#include "indicators/relative_strength_index.h"
#include "indicators/simple_moving_average.h"
#include "indicators/stochastic_oscillator.h"
#include "indicators/volatility.h"

namespace {
using namespace ind;  // NOLINT

struct Params {
  int64_t period;
  int sma, ema, fast, slow, signal, rsi, so, window;
  float base, quote;
};

struct Indicators {
  explicit Indicators(const Params& p)
      : params(p),
        last(p.sma, p.period),
        sma(p.sma, p.period),
        ema(2.0f, p.ema, p.period),
        macd(p.fast, p.slow, p.signal, p.period),
        rsi(p.rsi, p.period),
        so(p.so, p.period),
        vol(p.window, p.period) {}
  void Update(const OhlcTick& t) {
    last.Update(t);
    sma.Update(t);
    ema.Update(t);
    macd.Update(t);
    rsi.Update(t);
    so.Update(t);
    vol.Update(t, params.base, params.quote);
  }
  std::vector<std::pair<const char*, double>> Values() const {
    std::vector<std::pair<const char*, double>> v = {
        {"SMA", sma.GetSimpleMovingAverage()},
        {"EMA", ema.GetExponentialMovingAverage()},
        {"fast EMA", macd.GetFastExponentialMovingAverage()},
        {"slow EMA", macd.GetSlowExponentialMovingAverage()},
        {"MACD line", macd.GetMACDSeries()},
        {"MACD signal", macd.GetMACDSignal()},
        {"MACD histogram", macd.GetDivergence()},
        {"upward average", rsi.GetUpwardChangeModifiedMovingAverage()},
        {"downward average", rsi.GetDownwardChangeModifiedMovingAverage()},
        {"RSI", rsi.GetRelativeStrengthIndex()},
        {"stochastic low", so.GetLow()},
        {"stochastic high", so.GetHigh()},
        {"stochastic K", so.GetK()},
        {"fast D", so.GetFastD()},
        {"slow D", so.GetSlowD()},
        {"volatility", vol.GetVolatility()},
        {"SMA periods", sma.GetNumOhlcTicks()},
        {"EMA periods", ema.GetNumOhlcTicks()},
        {"MACD periods", macd.GetNumOhlcTicks()},
        {"RSI periods", rsi.GetNumOhlcTicks()},
        {"stochastic periods", so.GetNumOhlcTicks()},
        {"volatility periods", vol.GetNumOhlcTicks()},
    };
    for (const OhlcTick& t : last.GetLastNOhlcTicks()) {
      v.push_back({"kept time", t.timestamp_sec()});
      v.push_back({"kept open", t.open()});
      v.push_back({"kept high", t.high()});
      v.push_back({"kept low", t.low()});
      v.push_back({"kept close", t.close()});
      v.push_back({"kept volume", t.volume()});
    }
    return v;
  }
  Params params;
  trader::LastNOhlcTicks last;
  trader::SimpleMovingAverage sma;
  trader::ExponentialMovingAverage ema;
  trader::MovingAverageConvergenceDivergence macd;
  trader::RelativeStrengthIndex rsi;
  trader::StochasticOscillator so;
  trader::Volatility vol;
};

void Compare(const Indicators& a, const Indicators& b, int ticks, double price, const std::string& what) {
  const auto x = a.Values(), y = b.Values();
  PBT_CHECK(x.size() == y.size(), what << ": number of kept ticks");
  for (size_t i = 0; i < x.size(); ++i) {
    double tol = 1e-6 * std::abs(y[i].second);
    // Sums of prices depend on the order of the additions.
    if (i == 0) tol = 2.4e-7 * price * (ticks + 4);
    if (std::string(x[i].first) == "kept volume") tol = 1e-5 * std::abs(y[i].second);
    if (std::string(x[i].first) == "kept time") tol = 0;
    PBT_CHECK(std::abs(x[i].second - y[i].second) <= tol,
              what << ": " << x[i].first << " is " << x[i].second << " instead of " << y[i].second);
  }
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  pbt::GenZone(s);
  Stream st = GenStream(s, 80);
  // Fine ticks on a grid.
  st.period = s.Pick({3600, 300, 60, 86400});
  const int64_t fine = st.period / s.Pick({12, 6, 4, 60, 2});
  // The coarse tick is a multiple of the fine one and divides the period.
  std::vector<int64_t> choices;
  for (int64_t m = 1; m * fine <= st.period; ++m) {
    if (st.period % (m * fine) == 0) choices.push_back(m * fine);
  }
  const int64_t coarse = choices[choices.size() - 1 - s.Draw(choices.size())];
  int64_t ts = (pbt::GenEpoch(s) / st.period) * st.period + s.Draw(st.period / fine) * fine;
  for (OhlcTick& t : st.ticks) {
    t.set_timestamp_sec(ts);
    switch (s.Draw(8)) {
      case 0: ts += fine * s.Int(2, 5); break;
      case 1: ts += s.Chance(1, 3) ? st.period * s.Int(1, 5) + fine * s.Draw(st.period / fine) : fine; break;
      default: ts += fine;
    }
  }
  Params p;
  p.period = st.period;
  p.sma = s.Length({3, 1, 2, 10});
  p.ema = s.Length({10, 1, 3});
  p.fast = s.Length({12, 2, 3});
  p.slow = s.Length({26, 5});
  p.signal = s.Length({9, 3});
  p.rsi = s.Length({14, 1, 2, 3});
  p.so = s.Length({14, 1, 2, 3});
  p.window = s.Length({0, 1, 2, 5});
  p.base = s.Pick({1.0f, 0.0f, 0.5f});
  p.quote = s.Pick({0.0f, 1000.0f, 1.0f}) + (p.base == 0 ? 1.0f : 0.0f);
  PBT_DESC(c, Str(st) << "fine " << fine << " coarse " << coarse << " sma=" << p.sma << " ema=" << p.ema << " macd=" << p.fast
                      << "," << p.slow << "," << p.signal << " rsi=" << p.rsi << " so=" << p.so << " volatility=" << p.window
                      << " base=" << p.base << " quote=" << p.quote << "\n");
  const bool insertion = s.Chance(1, 3);
  Indicators a(p), b(p);
  Aggregate ref(st.period);
  int ticks = 0;
  if (!insertion) {
    int merged = 0;
    for (size_t i = 0; i < st.ticks.size();) {
      // One coarse tick.
      const int64_t k = st.ticks[i].timestamp_sec() / coarse;
      OhlcTick t = st.ticks[i];
      t.set_timestamp_sec(k * coarse);
      size_t j = i;
      for (; j < st.ticks.size() && st.ticks[j].timestamp_sec() / coarse == k; ++j) {
        const OhlcTick& f = st.ticks[j];
        a.Update(f);
        ref.Add(f);
        ++ticks;
        if (j == i) continue;
        ++merged;
        t.set_high(std::max(t.high(), f.high()));
        t.set_low(std::min(t.low(), f.low()));
        t.set_close(f.close());
        t.set_volume(t.volume() + f.volume());
      }
      b.Update(t);
      Compare(a, b, ticks, ref.MaxPrice(), "fine and coarse ticks up to " + std::to_string((k + 1) * coarse));
      i = j;
    }
    c.nontrivial = merged > 0 && ref.n() >= 2;
    c.Label("merged ticks", merged);
    c.Label("aggregation");
  } else {
    int inserted = 0;
    for (size_t i = 0; i < st.ticks.size(); ++i) {
      a.Update(st.ticks[i]);
      b.Update(st.ticks[i]);
      ref.Add(st.ticks[i]);
      ticks += 2;
      Compare(a, b, ticks, ref.MaxPrice(), "with and without inserted ticks after the tick " + std::to_string(i));
      if (i + 1 == st.ticks.size()) break;
      // Into the rest of the period (when it has no other ticks), and into
      // the periods without ticks.
      const int64_t k = st.ticks[i].timestamp_sec() / st.period, next = st.ticks[i + 1].timestamp_sec() / st.period;
      if (k == next) continue;
      std::vector<int64_t> times;
      for (int64_t t = st.ticks[i].timestamp_sec() + fine; t < next * st.period; t += fine) times.push_back(t);
      for (int64_t t : times) {
        if (!s.Chance(1, times.size() > 20 ? 10 : 2)) continue;
        OhlcTick z;
        z.set_timestamp_sec(t);
        const float close = st.ticks[i].close();
        z.set_open(close);
        z.set_high(close);
        z.set_low(close);
        z.set_close(close);
        z.set_volume(0);
        a.Update(z);
        ++inserted;
        ++ticks;
      }
    }
    c.nontrivial = inserted > 0 && ref.n() >= 2;
    c.Label("inserted ticks", inserted);
    c.Label("insertion");
  }
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C32", "Indicators depend only on the aggregated periods, not on the tick size",
    "Metamorphic: random fine tick streams on a grid with gaps, fed to all the indicators (SMA, EMA, MACD, RSI, "
    "stochastic, volatility, period ticks), compared after every coarse tick with indicators that got the aggregated "
    "ticks; or with zero-volume ticks at the last price inserted into gaps. Non-trivial: some ticks were merged "
    "(inserted) over at least two periods.",
    300000, 6000000, Run, 20, {"The balances of the volatility indicator are constant."}};
