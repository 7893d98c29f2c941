// C18: history subsets.
#include "base/base.h"
#include "harness/pbt.h"

namespace {
void Fill(pbt::Source& s, trader::OhlcTick* r) {
  r->set_close(s.Draw(100));
  r->set_volume(s.Draw(3));
}
void Fill(pbt::Source& s, trader::PriceRecord* r) {
  r->set_price(s.Draw(100));
  r->set_volume(s.Draw(3));
}
void Fill(pbt::Source& s, trader::SideInputRecord* r) {
  for (int i = s.Draw(3); i > 0; --i) r->add_signal(s.Draw(100));
}

template <typename T>
void CheckSubset(pbt::Case& c, const std::vector<T>& h, int64_t start, int64_t end) {
  PBT_DESC(c, "timestamps");
  for (const T& r : h) PBT_DESC(c, " " << r.timestamp_sec());
  PBT_DESC(c, " start " << start << " end " << end << "\n");
  const auto range = trader::HistorySubset(h, start, end);
  const std::vector<T> copy = trader::HistorySubsetCopy(h, start, end);
  std::vector<size_t> want;
  for (size_t i = 0; i < h.size(); ++i) {
    const int64_t t = h[i].timestamp_sec();
    if ((start <= 0 || t >= start) && (end <= 0 || t < end)) want.push_back(i);
  }
  const int64_t got = range.second - range.first;
  PBT_CHECK(range.first >= h.begin() && range.second <= h.end() && got >= 0,
            "range of " << got << " records from " << range.first - h.begin());
  PBT_CHECK(got == static_cast<int64_t>(want.size()), got << " records instead of " << want.size() << " in [" << start << ", " << end << ")");
  for (size_t k = 0; k < want.size(); ++k) {
    PBT_CHECK(range.first - h.begin() + k == want[k], "record " << k << " of the range");
  }
  PBT_CHECK(copy.size() == want.size(), "copy has " << copy.size() << " records instead of " << want.size());
  for (size_t k = 0; k < want.size(); ++k) {
    PBT_CHECK(copy[k].SerializeAsString() == h[want[k]].SerializeAsString(), "record " << k << " of the copy");
  }
  c.nontrivial |= !want.empty() && want.size() < h.size();
}

template <typename T>
void Check(pbt::Case& c) {
  auto& s = c.s;
  std::vector<T> h;
  int n = s.SizeOrHuge(0, 60, 2000, 2048);
  // Rarely around the sizes at which a counter of a smaller type wraps around.
  const bool wrap = s.Chance(1, 1 << 17);
  if (wrap) n = s.Pick({65536, 32768, 65535, 66000}) + s.Int(0, 2);
  int64_t ts = s.Bool() ? s.Pick<int64_t>({1, 1000, 1483228800, 0, -3}) : pbt::GenEpoch(s);
  const bool filled = s.Chance(1, 4);
  for (int i = 0; i < n; ++i) {
    T r;
    r.set_timestamp_sec(ts);
    if (filled) Fill(s, &r);
    h.push_back(r);
    ts += wrap ? i & 1 : s.Pick({1, 0, 2, 300}) * (s.Chance(1, 8) ? (s.Chance(1, 32) ? s.Draw(1ll << 32) : s.Draw(20)) : 1);
  }
  auto time = [&]() -> int64_t {
    switch (s.Draw(6)) {
      case 0: return 0;
      case 1: return -static_cast<int64_t>(s.Draw(3));
      case 2: return ts + s.Draw(10);
      case 3: return 1 + s.Draw(3);
      default:
        return h.empty() ? 5 : h[s.Draw(h.size())].timestamp_sec() + s.Int(-1, 1);
    }
  };
  const int64_t start = time(), end = time();
  CheckSubset(c, h, start, end);
  if (s.Chance(1, 8) && !h.empty()) {
    // The same vector with other contents.
    int64_t shift = s.Int(-400, 400);
    const size_t from = s.Draw(h.size());
    if (from > 0) shift = std::max(shift, h[from - 1].timestamp_sec() - h[from].timestamp_sec());
    for (size_t i = from; i < h.size(); ++i) h[i].set_timestamp_sec(h[i].timestamp_sec() + shift);
    CheckSubset(c, h, start, end);
    c.Label("changed in place");
  }
  c.LabelIf(start > 0 && end > 0 && end < start, "inverted range");
  c.LabelIf(start <= 0, "from the beginning");
  c.LabelIf(end <= 0, "to the end");
}

void Run(pbt::Case& c) {
  switch (c.s.Draw(3)) {
    case 0: Check<trader::OhlcTick>(c); break;
    case 1: Check<trader::PriceRecord>(c); break;
    default: Check<trader::SideInputRecord>(c);
  }
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C18", "History subsets are exactly the half-open time range",
    "Random sorted histories of each type with equal timestamps; times at, just before and just after "
    "records, zero, negative and inverted; compared with a linear filter. Non-trivial: a proper "
    "non-empty subset.",
    5000000, 60000000, Run, 20, {"Timestamps are positive and non-decreasing."}};
