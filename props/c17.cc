// C17: gap and outlier reports.
#include "base/history.h"
#include "harness/pbt.h"

namespace {
using trader::HistoryGap;
using trader::PriceHistory;
using trader::PriceRecord;

std::string Str(const std::vector<HistoryGap>& gaps) {
  std::ostringstream os;
  for (const auto& g : gaps) os << "(" << g.first << "," << g.second << ") ";
  return os.str();
}

void Gaps(pbt::Case& c) {
  auto& s = c.s;
  PriceHistory h;
  const int n = s.SizeOrHuge(0, 40, s.Bool() ? 600 : 4000, 256, 1024);
  int64_t ts = s.Chance(1, 4) ? pbt::GenEpoch(s) + 7200 : 1000 + s.Draw(100);
  const int64_t first = ts;
  for (int i = 0; i < n; ++i) {
    PriceRecord r;
    r.set_timestamp_sec(ts);
    r.set_price(1);
    h.push_back(r);
    switch (s.Draw(4)) {
      case 0: ts += 1; break;
      case 1: ts += s.Draw(4); break;
      case 2: ts += s.Draw(100); break;
      default: ts += s.Chance(1, 64) ? s.Pick<int64_t>({10, 2147483647, 4294967296ll, 4294967306ll, 3000000000ll}) : s.Pick({10, 20, 0});
    }
  }
  const int64_t start = s.Bool() ? (s.Chance(1, 8) ? 1 + s.Draw(first) : first - s.Draw(60)) : s.Pick({0, 0, -5});
  const int64_t last = h.empty() ? first : h.back().timestamp_sec();
  const int64_t end = s.Bool() ? (s.Chance(1, 8) ? last + s.Draw(1ll << 34) : last + s.Draw(60)) : s.Pick({0, 0, -5});
  const size_t top_n = s.Bool() ? s.Draw(6) : h.size() > 100 ? s.Draw(h.size() + 10) : s.Chance(1, 8) ? s.Draw(500) : s.Draw(50);
  std::vector<HistoryGap> all;
  if (!h.empty()) {
    if (start > 0) all.push_back({start, first});
    for (size_t i = 1; i < h.size(); ++i) all.push_back({h[i - 1].timestamp_sec(), h[i].timestamp_sec()});
    if (end > 0) all.push_back({last, end});
  }
  const std::vector<HistoryGap> got = trader::GetPriceHistoryGaps(h.begin(), h.end(), start, end, top_n);
  PBT_DESC(c, "all gaps " << Str(all) << " top " << top_n << " start " << start << " end " << end << " -> " << Str(got));
  PBT_CHECK(got.size() == std::min(top_n, all.size()),
            got.size() << " gaps instead of " << std::min(top_n, all.size()) << ": " << Str(got));
  // Each is a gap of the history (as a multiset), in chronological order.
  std::map<HistoryGap, int> rest;
  for (const auto& g : all) ++rest[g];
  std::vector<int64_t> lengths, got_lengths;
  for (const auto& g : all) lengths.push_back(g.second - g.first);
  for (size_t i = 0; i < got.size(); ++i) {
    PBT_CHECK(rest[got[i]]-- > 0, "(" << got[i].first << "," << got[i].second << ") is not a gap of the history");
    got_lengths.push_back(got[i].second - got[i].first);
    PBT_CHECK(i == 0 || got[i - 1].second <= got[i].first || got[i - 1] == got[i] ,
              "gaps are not in chronological order: " << Str(got));
  }
  std::sort(lengths.rbegin(), lengths.rend());
  lengths.resize(got.size());
  std::sort(got_lengths.rbegin(), got_lengths.rend());
  PBT_CHECK(lengths == got_lengths, "the gaps are not the longest ones: " << Str(got) << "of " << Str(all));
  c.nontrivial = !got.empty() && got.size() < all.size();
  c.Label("gaps");
  c.LabelIf(start > 0, "with start");
  c.LabelIf(end > 0, "with end");
}

void Outliers(pbt::Case& c) {
  auto& s = c.s;
  const size_t size = 1 + s.SizeOrHuge(0, 60, 1000, 256, 1024);
  std::vector<size_t> outliers;
  const int rate = s.Int(0, 8);
  for (size_t i = 0; i < size; ++i) {
    if (s.Chance(rate, 10)) outliers.push_back(i);
  }
  // Sometimes (nearly) unlimited contexts.
  auto gen_context = [&]() -> size_t {
    if (!s.Chance(1, 16)) return s.Size(0, 20);
    return s.Pick<size_t>({size, size - 1, size + 1, size_t{0x7fffffff}, size_t{0xffffffff}, SIZE_MAX, SIZE_MAX - 1,
                           size_t{1} << 63, size / 2});
  };
  const size_t left = gen_context(), right = gen_context();
  // The same with limited sums.
  const size_t left_limited = std::min(left, size), right_limited = std::min(right, size);
  const size_t last_n = s.Bool() ? 0 : s.Draw(outliers.size() + 3);
  const std::map<size_t, bool> got = trader::GetOutlierIndicesWithContext(outliers, size, left, right, last_n);
  std::ostringstream os;
  os << "outliers";
  for (size_t i : outliers) os << " " << i;
  os << " of " << size << " left " << left << " right " << right << " last " << last_n << " ->";
  for (const auto& kv : got) os << " " << kv.first << (kv.second ? "*" : "");
  PBT_DESC(c, os.str());
  const size_t skip = last_n == 0 || outliers.size() <= last_n ? 0 : outliers.size() - last_n;
  const std::vector<size_t> listed(outliers.begin() + skip, outliers.end());
  size_t count = 0;
  for (size_t i = 0; i < size; ++i) {
    bool in = false, is = false;
    for (size_t j : listed) {
      if (i == j) is = true;
      if (i + left_limited >= j && i <= j + right_limited) in = true;
    }
    auto it = got.find(i);
    PBT_CHECK((it != got.end()) == in, "index " << i << (in ? " is missing: " : " should not be listed: ") << os.str());
    if (in) {
      ++count;
      PBT_CHECK(it->second == is, "index " << i << " is marked wrongly: " << os.str());
    }
  }
  PBT_CHECK(count == got.size(), "indices out of the history: " << os.str());
  c.nontrivial = !listed.empty() && (left > 0 || right > 0);
  c.LabelIf(left > size || right > size, "context wider than the history");
  c.Label("outlier context");
  c.LabelIf(skip > 0, "only the last outliers");
}

void Run(pbt::Case& c) {
  if (c.s.Bool()) {
    Gaps(c);
  } else {
    Outliers(c);
  }
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C17", "Gap and outlier reports list the right places",
    "Random price histories (equal timestamps, ties of lengths), start and end times and numbers of "
    "gaps, checked by a validity predicate (true gaps, longest lengths, order, count); random outlier "
    "sets and contexts compared with the definition. Non-trivial: some but not all of the gaps "
    "reported, or a listed outlier with a context.",
    4000000, 60000000, Run, 20,
    {"The start (end) time is not after the first (before the last) record. Among gaps of equal length any may be reported."}};
