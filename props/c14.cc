// C14: volatility.
#include "harness/sim.h"
#include "indicators/volatility.h"

namespace {
using namespace sim;  // NOLINT

// Portfolio values at the ends of periods (double precision).
struct Reference {
  explicit Reference(int64_t period, int window = 0) : period(period), window(window) {}
  void Update(const OhlcTick& t, double base, double quote) {
    const int64_t k = t.timestamp_sec() / period;
    if (values.empty()) {
      values.push_back(base * t.open() + quote);
      values.push_back(base * t.close() + quote);
    } else {
      // Periods without ticks are valued at the previous close.
      for (int64_t j = last + 1; j < k; ++j) {
        Finish();
        values.push_back(base * close + quote);
      }
      if (k > last) {
        Finish();
        values.push_back(base * t.close() + quote);
      } else {
        values.back() = base * t.close() + quote;
      }
    }
    last = k;
    close = t.close();
  }
  // The last value is final: bounds the rounding errors of the sums of the returns
  // (and of their squares) that are maintained in single precision.
  void Finish() {
    const size_t n = values.size() - 1;
    auto ret = [&](size_t i) { return std::log(values[i - 1] / values[i]); };
    const double x = ret(n);
    sum += x;
    sum2 += x * x;
    error += std::abs(sum) + std::abs(x);
    error2 += sum2 + x * x;
    if (window > 0 && n >= static_cast<size_t>(window)) {
      const double y = ret(n + 1 - window);
      sum -= y;
      sum2 = std::max(0.0, sum2 - y * y);
      error += std::abs(sum) + std::abs(y);
      error2 += sum2 + y * y;
    }
  }
  // Variance of the last returns (all for zero), and its tolerance.
  double Variance(double* tolerance) const {
    double largest = 0;
    // The last value might have changed.
    r.resize(std::max<size_t>(1, values.size()) - 1);
    for (size_t i = fresh; i < values.size(); ++i) r[i - 1] = std::log(values[i - 1] / values[i]);
    fresh = std::max<size_t>(1, r.size());
    for (double x : r) largest = std::max(largest, std::abs(x));
    size_t from = window > 0 && r.size() > static_cast<size_t>(window) ? r.size() - window : 0;
    double mean = 0;
    for (size_t i = from; i < r.size(); ++i) mean += r[i];
    const double n = r.size() - from;
    *tolerance = 1e-6 * largest + 1e-12 + 2e-6 * largest * largest;
    if (n == 0) return 0;
    mean /= n;
    // Each rounding has a relative error of 2^-24 (with some reserve).
    const double e = 2.5e-7 * error / n, e2 = 2.5e-7 * error2 / n;
    *tolerance += e2 + 2 * std::abs(mean) * e + e * e;
    double var = 0;
    for (size_t i = from; i < r.size(); ++i) var += (r[i] - mean) * (r[i] - mean);
    return var / n;
  }
  int64_t period;
  int window;
  double sum = 0, sum2 = 0, error = 0, error2 = 0;
  int64_t last = 0;
  double close = 0;
  std::vector<double> values;
  // Returns and the first index of values that might have a new return.
  mutable std::vector<double> r;
  mutable size_t fresh = 1;
};

// Single precision computation has rounding errors of the sums (and an error of the
// logarithm of each return).
void Check(double volatility, double scale, const Reference& ref, const std::string& what) {
  PBT_CHECK(!std::isnan(volatility), what << " is NaN");
  PBT_CHECK(volatility >= 0 && std::isfinite(volatility), what << " is " << volatility);
  double tol = 0;
  const double want = ref.Variance(&tol);
  const double got = (volatility / scale) * (volatility / scale);
  PBT_CHECK(std::abs(got - want) <= tol, what << " is " << volatility / scale << " instead of " << std::sqrt(want)
                                              << " over " << ref.values.size() - 1 << " periods");
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  const bool indicator = s.Bool();
  const Env env = GenUnitEnv(s, 1, 2);
  HistoryOptions opt;
  opt.min_ticks = 1;
  opt.max_ticks = 60;
  opt.giant = 32;
  opt.start = pbt::GenEpoch(s);
  opt.walk = true;
  const int64_t period = indicator ? s.Pick({86400, 3600, 600}) : 86400;
  opt.step = s.Pick({period, period / 2, period / 4, period / 12, 2 * period});
  opt.zero_volume = s.Bool();
  opt.long_gap = period;
  OhlcHistory h = GenOhlcHistory(s, env, opt);
  const bool constant = s.Chance(1, 10);
  if (constant) {
    const float p = GenPrice(s, env);
    for (OhlcTick& t : h) {
      t.set_open(p);
      t.set_close(p);
      t.set_high(p);
      t.set_low(p);
    }
  }
  if (indicator) {
    const int window = s.Length({0, 1, 2, 3, 5, 20, 100});
    trader::Volatility v(window, period);
    Reference ref(period, window);
    PBT_CHECK(v.GetVolatility() == 0 && v.GetNumOhlcTicks() == 0, "initial volatility " << v.GetVolatility());
    const bool trading = s.Bool();
    double base = 1, quote = 0;
    size_t step = 0;
    for (const OhlcTick& t : h) {
      // Extremely long histories are compared near their ends and at some places between.
      ++step;
      const bool skipped = h.size() > 5000 && step >= 200 && step + 50 < h.size() && step % 4096 > 1;
      if (trading && s.Chance(1, 3)) {
        base = s.Draw(5) * 0.25;
        quote = FewBits((s.Draw(5) + (base == 0)) * 0.25 * t.close(), 10);
      }
      v.Update(t, base, quote);
      ref.Update(t, Float(base), Float(quote));
      PBT_DESC(c, Str(t) << " base=" << base << " quote=" << quote << " volatility=" << v.GetVolatility() << "\n");
      PBT_CHECK(v.GetNumOhlcTicks() == static_cast<int>(ref.values.size()) - 1,
                "number of periods " << v.GetNumOhlcTicks() << " instead of " << ref.values.size() - 1);
      if (!skipped) Check(v.GetVolatility(), 1, ref, "volatility");
    }
    c.nontrivial = ref.values.size() >= 3 && v.GetVolatility() > 0;
    c.Label("indicator");
    c.LabelIf(window > 0 && static_cast<int>(ref.values.size()) - 1 > window, "window overflows");
    c.LabelIf(trading, "with changing balances");
  } else {
    const AccountConfig config = GenFundedConfig(s, env);
    const Script script = GenScript(s, env, h, 2);
    Events events;
    ScriptTrader trader(&script, &events, nullptr);
    const ExecutionResult r =
        trader::ExecuteTrader(config, h.begin(), h.end(), nullptr, /*fast_eval=*/false, trader, nullptr);
    PBT_DESC(c, "history:\n" << Str(h) << "script:\n" << Str(script) << "events:\n" << Str(events)
                             << "result: " << r.ShortDebugString() << "\n");
    Reference base(period), portfolio(period);
    bool positive = true;
    for (const Event& e : events) {
      base.Update(e.tick, 1, 0);
      portfolio.Update(e.tick, e.base, e.quote);
      if (!(e.base * e.tick.close() + e.quote > 0)) positive = false;
    }
    if (events.empty()) {
      PBT_CHECK(r.base_volatility() == 0 && r.trader_volatility() == 0, "volatility without any update");
      return;
    }
    const double scale = std::sqrt(365.0);
    Check(r.base_volatility(), scale, base, "base volatility");
    if (positive) Check(r.trader_volatility(), scale, portfolio, "trader volatility");
    c.nontrivial = r.base_volatility() > 0;
    c.Label("execution");
    c.LabelIf(r.total_executed_orders() > 0, "with executed orders");
  }
  c.LabelIf(constant, "constant price");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C14", "Volatility is the standard deviation of logarithmic portfolio returns",
    "Random ticks (several per period, gaps of many periods, constant prices) and balances, fed to the "
    "indicator with random windows, or executed by a scripted trader; compared with the standard "
    "deviation computed directly in double precision (tolerance: a bound of the rounding errors of sums in single "
    "precision). Non-trivial: a positive volatility over at least two periods.",
    800000, 15000000, Run, 20,
    {"Portfolio values are positive. Periods without ticks are valued by the previous closing price and the balances "
     "of the update that follows."}};
