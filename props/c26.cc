// C26: sliding windows and the EMA helper.
#include <deque>

#include "harness/pbt.h"
#include "indicators/util.h"

namespace {

struct Op {
  bool update = false;
  float value = 0;
  float weight = 0;
};

void Short(pbt::Case& c) {
  auto& s = c.s;
  const bool exact = s.Bool();
  const bool huge = s.Chance(1, 512), enormous = huge && s.Chance(1, 16);
  const int window = enormous ? s.Pick({0, 1000, 2000, 600, 1440, 3000})
                     : huge   ? s.Pick({0, 100, 300, 64, 257})
                              : s.Length({3, 0, 1, 2, 5, 8, 20});
  const int n = enormous ? s.Int(500, 4000) : huge ? s.Int(1, 1000) : s.Size(1, 80);
  const double scale = exact ? 0.25 : s.Pick({1.0, 1e-3, 1000.0, 1e5});
  const int equal = s.Pick({0, 0, 5, 10});
  std::vector<Op> ops;
  for (int i = 0; i < n; ++i) {
    Op op;
    op.update = i > 0 && s.Chance(1, 3);
    op.weight = static_cast<float>(s.Param({0.5, 1.0, 0.25, 0.1, 0.0, 0.9}, 0, 1));
    if (!ops.empty() && s.Chance(equal, 10)) {
      op.value = ops[s.Draw(ops.size())].value;
    } else {
      op.value = exact ? scale * s.Int(-32, 32) : scale * (s.Bool() ? s.Unit(20) : 2 * s.Unit(24) - 1);
    }
    ops.push_back(op);
    PBT_DESC(c, (op.update ? "update " : "add ") << op.value << " weight " << op.weight << "\n");
  }
  PBT_DESC(c, "window " << window << "\n");
  trader::SlidingWindowMeanAndVariance mean(window);
  const int positive_window = std::max(window, 1);
  trader::SlidingWindowMinimum minimum(positive_window);
  trader::SlidingWindowMaximum maximum(positive_window);
  trader::ExponentialMovingAverageHelper ema;
  PBT_CHECK(mean.GetMean() == 0 && mean.GetVariance() == 0 && mean.GetNumValues() == 0 && mean.GetWindowSize() == 0 &&
                ema.GetExponentialMovingAverage() == 0 && ema.GetNumValues() == 0 && minimum.GetNumValues() == 0 &&
                maximum.GetNumValues() == 0,
            "values before the first one");
  // Final values, each with the weight of its last update.
  std::vector<double> v;
  double ema_prev = 0, ema_now = 0;
  double largest = 0;
  int updates = 0;
  for (const Op& op : ops) {
    if (op.update) {
      mean.UpdateCurrentValue(op.value);
      minimum.UpdateCurrentValue(op.value);
      maximum.UpdateCurrentValue(op.value);
      ema.UpdateCurrentValue(op.value, op.weight);
      v.back() = op.value;
      ++updates;
    } else {
      mean.AddNewValue(op.value);
      minimum.AddNewValue(op.value);
      maximum.AddNewValue(op.value);
      ema.AddNewValue(op.value, op.weight);
      v.push_back(op.value);
      ema_prev = ema_now;
    }
    const int total = static_cast<int>(v.size());
    ema_now = total == 1 ? op.value : static_cast<double>(op.weight) * op.value + (1 - static_cast<double>(op.weight)) * ema_prev;
    largest = std::max(largest, std::abs(static_cast<double>(op.value)));
    const int m = window == 0 ? total : std::min(total, window);
    double sum = 0, sum2 = 0;
    for (int i = total - m; i < total; ++i) sum += v[i];
    const double avg = sum / m;
    for (int i = total - m; i < total; ++i) sum2 += (v[i] - avg) * (v[i] - avg);
    const double var = sum2 / m;
    const double eps = 1.2e-7;
    const double drift = exact ? 1 : total + 4;
    PBT_CHECK(mean.GetNumValues() == total, "number of values " << mean.GetNumValues() << " instead of " << total);
    PBT_CHECK(mean.GetWindowSize() == m, "window of " << mean.GetWindowSize() << " values instead of " << m);
    PBT_CHECK(std::abs(mean.GetMean() - avg) <= 2 * eps * largest * drift,
              "mean " << mean.GetMean() << " instead of " << avg << " after " << total << " values");
    const double got_var = mean.GetVariance();
    PBT_CHECK(!std::isnan(got_var) && got_var >= 0, "variance " << got_var);
    PBT_CHECK(std::abs(got_var - var) <= 4 * eps * largest * largest * drift,
              "variance " << got_var << " instead of " << var << " after " << total << " values");
    PBT_CHECK(std::abs(mean.GetStandardDeviation() - std::sqrt(got_var)) <= 1e-6 * std::sqrt(got_var),
              "standard deviation " << mean.GetStandardDeviation() << " for the variance " << got_var);
    const int w = std::min(total, positive_window);
    double low = v[total - 1], high = v[total - 1];
    for (int i = total - w; i < total; ++i) {
      low = std::min(low, v[i]);
      high = std::max(high, v[i]);
    }
    PBT_CHECK(minimum.GetSlidingWindowMinimum() == low,
              "minimum " << minimum.GetSlidingWindowMinimum() << " instead of " << low << " after " << total << " values");
    PBT_CHECK(maximum.GetSlidingWindowMaximum() == high,
              "maximum " << maximum.GetSlidingWindowMaximum() << " instead of " << high << " after " << total << " values");
    PBT_CHECK(minimum.GetNumValues() == total && maximum.GetNumValues() == total && minimum.GetWindowSize() == w &&
                  maximum.GetWindowSize() == w,
              "sizes of the minimum and maximum after " << total << " values");
    PBT_CHECK(ema.GetNumValues() == total, "number of values of the EMA");
    PBT_CHECK(std::abs(ema.GetExponentialMovingAverage() - ema_now) <= 8 * eps * largest * std::min(total + 1, 40) + 1e-30,
              "EMA " << ema.GetExponentialMovingAverage() << " instead of " << ema_now << " after " << total << " values");
  }
  // Updates equal having added the final values only.
  trader::SlidingWindowMeanAndVariance mean2(window);
  trader::SlidingWindowMinimum minimum2(positive_window);
  trader::SlidingWindowMaximum maximum2(positive_window);
  trader::ExponentialMovingAverageHelper ema2;
  for (size_t i = 0; i < ops.size(); ++i) {
    if (i + 1 < ops.size() && ops[i + 1].update) continue;
    mean2.AddNewValue(ops[i].value);
    minimum2.AddNewValue(ops[i].value);
    maximum2.AddNewValue(ops[i].value);
    ema2.AddNewValue(ops[i].value, ops[i].weight);
  }
  auto same = [&](double a, double b, const char* what) {
    PBT_CHECK(std::abs(a - b) <= 1e-6 * std::max(1.0, largest) * std::max(1.0, largest) * v.size(), what << " with updates " << a << ", with the final values only " << b);
  };
  same(mean.GetMean(), mean2.GetMean(), "mean");
  same(mean.GetVariance(), mean2.GetVariance(), "variance");
  PBT_CHECK(minimum.GetSlidingWindowMinimum() == minimum2.GetSlidingWindowMinimum(), "minimum with updates");
  PBT_CHECK(maximum.GetSlidingWindowMaximum() == maximum2.GetSlidingWindowMaximum(), "maximum with updates");
  same(ema.GetExponentialMovingAverage(), ema2.GetExponentialMovingAverage(), "EMA");
  c.nontrivial = v.size() >= 3;
  c.LabelIf(updates > 0, "with updates");
  c.LabelIf(static_cast<int>(v.size()) > window && window > 0, "window overflows");
  c.LabelIf(window == 0, "without a window");
}

// Long sequences around the sizes at which positions of a smaller type wrap around. The values follow from a seed.
void Long(pbt::Case& c) {
  auto& s = c.s;
  const int n = s.Pick({70000, 33000, 66000, 40000}) + s.Int(0, 100);
  const uint64_t range = s.Pick({10, 1 << 20, 2});
  const int trend = s.Pick({0, 0, 1, -1});
  const bool small = trend == 0 && range <= 10;
  const int window = small && s.Chance(1, 8) ? s.Int(2, 200) : s.Int(1, 12);
  uint64_t x = s.Draw(1 << 30);
  trader::SlidingWindowMeanAndVariance mean(window);
  trader::SlidingWindowMinimum minimum(window);
  trader::SlidingWindowMaximum maximum(window);
  std::vector<float> v;
  v.reserve(n);
  PBT_DESC(c, n << " values for the window " << window << ", range " << range << ", trend " << trend << ", seed " << x);
  for (int i = 0; i < n; ++i) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    // Integers below 2^20, which are exact (and so are their sums).
    v.push_back(trend == 0 ? static_cast<int>((x >> 33) % range)
                           : (trend > 0 ? i : n - i) * 4 + static_cast<int>((x >> 33) % 4));
    mean.AddNewValue(v[i]);
    minimum.AddNewValue(v[i]);
    maximum.AddNewValue(v[i]);
    const int w = std::min(i + 1, window);
    const float low = *std::min_element(v.end() - w, v.end()), high = *std::max_element(v.end() - w, v.end());
    PBT_CHECK(minimum.GetSlidingWindowMinimum() == low,
              "minimum " << minimum.GetSlidingWindowMinimum() << " instead of " << low << " after " << i + 1 << " values");
    PBT_CHECK(maximum.GetSlidingWindowMaximum() == high,
              "maximum " << maximum.GetSlidingWindowMaximum() << " instead of " << high << " after " << i + 1 << " values");
    PBT_CHECK(mean.GetNumValues() == i + 1 && minimum.GetNumValues() == i + 1 && maximum.GetNumValues() == i + 1,
              "number of values after " << i + 1);
    PBT_CHECK(mean.GetWindowSize() == w && minimum.GetWindowSize() == w && maximum.GetWindowSize() == w,
              "window size after " << i + 1 << " values");
    double sum = 0;
    for (int k = i + 1 - w; k <= i; ++k) sum += v[k];
    // The sums (and the sums of squares of small numbers) are exact.
    const double avg = sum / w;
    PBT_CHECK(std::abs(mean.GetMean() - avg) <= 1e-6 * (small ? 10 : 1 << 20),
              "mean " << mean.GetMean() << " instead of " << avg << " after " << i + 1 << " values");
    if (!small) continue;
    double var = 0;
    for (int k = i + 1 - w; k <= i; ++k) var += (v[k] - avg) * (v[k] - avg);
    PBT_CHECK(std::abs(mean.GetVariance() - var / w) <= 1e-6 * 100,
              "variance " << mean.GetVariance() << " instead of " << var / w << " after " << i + 1 << " values");
  }
  c.nontrivial = true;
  c.Label("long sequence");
}

void Run(pbt::Case& c) {
  if (c.s.Chance(1, 1 << 16)) {
    Long(c);
  } else {
    Short(c);
  }
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C26", "Sliding-window and EMA helpers equal direct computation over the window",
    "Random sequences of up to 80 (rarely 70000) additions and updates (exactly representable values, which make sums exact, and "
    "random values of several scales, with repeated values) for windows of up to 3000 values; after every operation all the "
    "values are compared with the direct computation in double precision, and at the end with helpers that got the "
    "final values only. Non-trivial: at least three values.",
    2500000, 20000000, Run, 20,
    {"Single precision tolerance relative to the largest value so far (its square for the variance)."}};
