// C16: outlier removal.
#include "base/history.h"
#include "harness/account_model.h"

namespace {
using namespace model;  // NOLINT
using trader::PriceHistory;
using trader::PriceRecord;

void Run(pbt::Case& c) {
  auto& s = c.s;
  const bool exact = s.Bool();
  const float dev = exact ? s.Param({0.0, 1.0, 0.5, 0.25, 0.125, 3.0}, 0, 8, 64) : s.Param({0.05, 0.01, 0.1, 0.3}, 0.001, 3);
  const int n = s.SizeOrHuge(0, 60, 2000, 1024, 64);
  PriceHistory h;
  int64_t ts = pbt::GenEpoch(s);
  double level = exact ? 64 : 1000;
  int burst = 0;
  double burst_price = 0;
  for (int i = 0; i < n; ++i) {
    PriceRecord r;
    r.set_timestamp_sec(ts);
    double price = level;
    if (burst > 0 && !s.Chance(1, 4)) {
      // Persistent (or interleaved) jump.
      --burst;
      price = burst_price;
    } else {
      switch (s.Draw(8)) {
        case 0: break;
        case 1:
          if (exact) {
            level = price = level * (1 + dev) * s.Pick({1.0, 2.0, 0.5});
          } else {
            price = level * (1 + dev) * (0.8 + 0.4 * s.Unit(10));
          }
          break;
        case 2: price = level / (1 + dev) * (exact ? 1 : 0.8 + 0.4 * s.Unit(10)); break;
        case 3: price = level * s.Pick({4.0, 10.0, 0.1, 0.25, 2.0, 0.5}); break;
        case 4:
          burst = s.Int(1, 6);
          price = burst_price = level * s.Pick({4.0, 2.0, 0.5, 0.25, 1.6, 0.7});
          break;
        case 5:
          level *= exact ? 1 : 0.97 + 0.06 * s.Unit(10);
          price = level;
          break;
        case 6: price = exact ? level + s.Draw(9) - 4 : level * (0.9 + 0.2 * s.Unit(10)); break;
        default: price = s.Chance(1, 2) ? s.Pick({0.0, -1.0, 1e-3}) : level;
      }
    }
    if (exact) price = FewBits(price, 12);
    if (level < 1 || level > 1e5) level = exact ? 64 : 1000;
    r.set_price(price);
    r.set_volume(s.Chance(1, 20) ? -1 : s.Chance(1, 4) ? 0 : 1 + s.Draw(4));
    h.push_back(r);
    switch (s.Draw(6)) {
      case 0: ts += 60; break;
      case 1: break;
      case 2: ts += s.Pick({1, 30, 59, 61}); break;
      case 3: ts += 60 * s.Pick({4, 9, 16, 2}); break;
      case 4: ts += s.Chance(1, 10) ? s.Pick<int64_t>({86400, 60 * 1600, 7 * 86400, 400 * 86400, 4000000000}) : s.Int(0, 1000); break;
      default: ts += 10;
    }
    if (level > 1e6) level = 64;
  }
  for (size_t i = 0; i < h.size(); ++i) PBT_DESC(c, i << ": " << h[i].ShortDebugString() << "\n");
  PBT_DESC(c, "deviation " << dev << "\n");
  std::vector<size_t> outliers;
  if (s.Chance(1, 8)) outliers = {};
  const PriceHistory got = trader::RemoveOutliers(h.begin(), h.end(), dev, &outliers);
  PBT_DESC(c, "outliers:");
  for (size_t i : outliers) PBT_DESC(c, " " << i);
  // The kept records and the reported indices are complementary.
  std::vector<bool> removed(h.size(), false);
  for (size_t k = 0; k < outliers.size(); ++k) {
    PBT_CHECK(outliers[k] < h.size(), "index of an outlier is out of range: " << outliers[k]);
    PBT_CHECK(k == 0 || outliers[k - 1] < outliers[k], "indices of outliers are not increasing");
    removed[outliers[k]] = true;
  }
  size_t next = 0;
  for (size_t i = 0; i < h.size(); ++i) {
    if (removed[i]) continue;
    PBT_CHECK(next < got.size() && got[next].SerializeAsString() == h[i].SerializeAsString(),
              "record " << i << " was neither kept nor reported as an outlier");
    ++next;
  }
  PBT_CHECK(next == got.size(), "the clean history has additional records");
  // The rule. Where the float comparison is ambiguous, the decision is adopted.
  auto valid = [&](size_t i) { return h[i].price() > 0 && h[i].volume() >= 0; };
  const PriceRecord* prev = nullptr;
  int jumps = 0, confirmed = 0, ambiguous = 0;
  for (size_t i = 0; i < h.size(); ++i) {
    Tri want = Tri::kNo;
    std::ostringstream why;
    if (!valid(i)) {
      want = Tri::kYes;
      why << "invalid record";
    } else if (prev != nullptr) {
      const Iv ref(prev->price());
      const double minutes = std::max(1.0, (h[i].timestamp_sec() - prev->timestamp_sec()) / 60.0);
      const double root = std::sqrt(minutes);
      const Iv rooted = root == std::floor(root) ? Iv(root) : Iv(root * (1 - 1e-6), root * (1 + 1e-6));
      const Iv factor = (Iv(1) + Iv(dev)) * rooted;
      const Iv up = ref * factor, down = ref / factor;
      const Iv price(h[i].price());
      const Tri is_up = Lt(up, price), is_down = Lt(price, down);
      auto confirm = [&](Iv limit, bool above) {
        const Iv middle = Iv(Float(0.8)) * limit + Iv(Float(0.2)) * ref;
        const Iv mid(middle.lo * (1 - 1e-6), middle.hi * (1 + 1e-6));
        int lo = 0, hi = 0, seen = 0;
        for (size_t j = i + 1; j < h.size() && seen < 10; ++j) {
          if (!valid(j)) continue;
          ++seen;
          const Iv p(h[j].price());
          const Tri t = above ? Lt(mid, p) : Lt(p, mid);
          if (t == Tri::kYes) ++lo;
          if (t != Tri::kNo) ++hi;
        }
        return std::make_pair(lo, hi);
      };
      if (is_up != Tri::kNo || is_down != Tri::kNo) {
        const bool above = is_up != Tri::kNo;
        const auto n_confirm = confirm(above ? up : down, above);
        const Tri jumped = above ? is_up : is_down;
        why << "jump from " << prev->price() << " over " << (above ? up : down) << " confirmed by " << n_confirm.first;
        if (n_confirm.first >= 3) {
          want = Tri::kNo;
          ++confirmed;
        } else if (n_confirm.second < 3) {
          want = jumped;
        } else {
          want = Tri::kMaybe;
        }
        if (jumped == Tri::kMaybe && want != Tri::kNo) want = Tri::kMaybe;
        ++jumps;
      } else {
        why << "price within [" << down << ", " << up << "]";
      }
    }
    if (want == Tri::kMaybe) ++ambiguous;
    PBT_CHECK(want == Tri::kMaybe || removed[i] == (want == Tri::kYes),
              "record " << i << " was " << (removed[i] ? "removed" : "kept") << ": " << why.str());
    if (!removed[i]) prev = &h[i];
  }
  // Without the output of the indices.
  const PriceHistory again = trader::RemoveOutliers(h.begin(), h.end(), dev, nullptr);
  PBT_CHECK(again.size() == got.size(), "the result depends on the output of the indices");
  c.nontrivial = jumps > 0;
  c.Label("confirmed jumps", confirmed);
  c.Label("jumps", jumps);
  c.Label("ambiguous records", ambiguous);
  c.Label("removed records", outliers.size());
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C16", "Outlier removal keeps exactly the records its rule accepts, in order",
    "Random price histories with spikes, bursts of 1-6 records, prices at and around the limit, "
    "invalid records, and random time steps; every record is judged by an independent implementation "
    "of the rule with interval arithmetic (ambiguous comparisons within 1e-6 adopt the decision). "
    "Non-trivial: at least one jump beyond the limit.",
    1000000, 30000000, Run, 20, {"Timestamps are non-decreasing; the deviation is non-negative."}};
