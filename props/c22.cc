// C22: conversion pipeline.
#include "base/history.h"
#include "harness/cli.h"
#include "harness/codec.h"
#include "harness/convert_main.h"
#include "util/proto.h"
#include "util/time.h"

#include <cmath>
#include <set>

namespace {
using trader::OhlcHistory;
using trader::OhlcTick;
using trader::PriceHistory;
using trader::PriceRecord;

PriceHistory GenPrices(pbt::Source& s, int max_records) {
  PriceHistory h;
  const int n = s.Chance(1, 4096) ? s.Pick({65536, 32768, 65535, 70000}) + s.Int(0, 3)
                : s.Bool()        ? s.Size(0, max_records)
                                  : s.Int(5, max_records / 2);
  int64_t ts = s.Chance(1, 8) ? std::min<int64_t>(pbt::GenEpoch(s), 250000000000) : s.Pick<int64_t>({1483228800, 1483228801, 1483228800 + 86399, 1500000000, 1483228800 - 3600, 1609459200 - 3600});
  double level = s.Pick({1000.0, 1.0, 0.01, 40000.0});
  const double scale = level;
  const bool outliers = s.Chance(3, 4);
  int burst = 0;
  double factor = 1;
  for (int i = 0; i < n; ++i) {
    PriceRecord r;
    r.set_timestamp_sec(ts);
    level *= 0.98 + 0.04 * s.Unit(10);
    if (level < scale / 20 || level > scale * 20) level = scale;
    double price = level;
    if (burst > 0) {
      price *= factor;
      --burst;
    } else if (outliers && s.Chance(1, 6)) {
      burst = s.Int(0, 4);
      factor = s.Pick({2.0, 0.5, 10.0, 0.1, 1.2, 0.8});
      price *= factor;
    }
    r.set_price(price);
    r.set_volume(s.Chance(1, 5) ? 0 : s.Draw(100) / 8.0);
    h.push_back(r);
    switch (s.Draw(6)) {
      case 0: ts += 60; break;
      case 1: ts += s.Draw(3); break;
      case 2: ts += s.Int(1, 59); break;
      case 3: ts += s.Int(60, 600); break;
      case 4: ts += 300; break;
      default:
        ts += n > 5000            ? s.Int(1, 600)
              : s.Chance(1, 1024) ? s.Int(86400, 3000 * 3600)
              : s.Chance(1, 4)    ? s.Int(1, 86400)
                                  : 30;
    }
  }
  return h;
}

std::string Time(int64_t t) {
  return t == INT64_MAX ? "9999-12-31" : absl::FormatTime("%Y-%m-%d %H:%M:%S", absl::FromUnixSeconds(t), absl::UTCTimeZone());
}

struct Flags {
  std::string in_csv, in_proto, out_price, out_ohlc;
  int64_t start, end;
  double deviation;
  int sampling, top_n, last_n;
  bool compress;
  uint64_t omitted = 0;  // Flags that are not given when they have the default.
  std::vector<std::string> Args() const {
    std::ostringstream dev;
    dev.precision(17);
    dev << deviation;
    const std::vector<std::pair<std::string, std::string>> all = {
        {"--input_price_history_csv_file=" + in_csv, "--input_price_history_csv_file="},
        {"--input_price_history_delimited_proto_file=" + in_proto, "--input_price_history_delimited_proto_file="},
        {"--output_price_history_delimited_proto_file=" + out_price, "--output_price_history_delimited_proto_file="},
        {"--input_ohlc_history_csv_file=", "--input_ohlc_history_csv_file="},
        {"--input_ohlc_history_delimited_proto_file=", "--input_ohlc_history_delimited_proto_file="},
        {"--output_ohlc_history_delimited_proto_file=" + out_ohlc, "--output_ohlc_history_delimited_proto_file="},
        {"--input_side_history_csv_file=", "--input_side_history_csv_file="},
        {"--output_side_history_delimited_proto_file=", "--output_side_history_delimited_proto_file="},
        {"--start_time=" + Time(start), "--start_time=" + Time(1483228800)},
        {"--end_time=" + Time(end), "--end_time=" + Time(1609459200)},
        {"--max_price_deviation_per_min=" + dev.str(), "--max_price_deviation_per_min=0.050000000000000003"},
        {"--sampling_rate_sec=" + std::to_string(sampling), "--sampling_rate_sec=300"},
        {"--top_n_gaps=" + std::to_string(top_n), "--top_n_gaps=50"},
        {"--last_n_outliers=" + std::to_string(last_n), "--last_n_outliers=20"},
        {std::string("--compress=") + (compress ? "true" : "false"), "--compress=true"}};
    std::vector<std::string> args;
    for (size_t i = 0; i < all.size(); ++i) {
      if (all[i].first != all[i].second || (omitted >> i & 1) == 0) args.push_back(all[i].first);
    }
    return args;
  }
};

template <typename T>
std::vector<T> ReadFile(const std::string& path, bool compress) {
  std::vector<T> v;
  if (cli::Exists(path)) {
    const absl::Status status = trader::ReadDelimitedMessagesFromFile<T>(path, v);
    PBT_CHECK(status.ok(), "reading the output: " << status.message());
    // The size shows whether the file was compressed.
    size_t bytes = 0;
    for (const T& m : v) bytes += 1 + m.ByteSizeLong();
    if (!compress) {
      PBT_CHECK(cli::FileSize(path) >= bytes, "compressed output " << path);
    } else if (v.size() >= 20) {
      std::ostringstream os;
      if (trader::WriteDelimitedMessagesToOStream(v.begin(), v.end(), os, true).ok() && os.str().size() < bytes * 3 / 4) {
        PBT_CHECK(cli::FileSize(path) < bytes, "output is not compressed: " << path);
      }
    }
  }
  return v;
}

template <typename T>
void CheckSame(const std::vector<T>& got, const std::vector<T>& want, const std::string& what) {
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    PBT_CHECK(got[i].SerializeAsString() == want[i].SerializeAsString(),
              what << ": record " << i << " is " << got[i].ShortDebugString() << " instead of "
                   << want[i].ShortDebugString());
  }
  PBT_CHECK(got.size() == want.size(), what << ": " << got.size() << " records instead of " << want.size());
}

cli::Result RunTool(pbt::Case& c, const Flags& f, bool exec) {
  const cli::Result r = exec ? cli::Exec("VERIF_BIN_CONVERT", f.Args()) : cli::Call(ConvertMain, f.Args());
  for (const std::string& a : f.Args()) {
    if (a.back() != '=') PBT_DESC(c, a << " ");
  }
  PBT_DESC(c, "\n" << r.Str() << "\n");
  PBT_CHECK(r.status == 0 && !r.crashed, "the converter failed: " << r.Str());
  return r;
}

// The printed gaps and outliers.
void CheckReports(const cli::Result& r, const PriceHistory& h, const Flags& f, bool ohlc) {
  std::vector<trader::HistoryGap> gaps;
  std::vector<std::pair<int64_t, bool>> outliers;
  // The printed records around the outliers, and the ones before which
  // something was left out.
  std::vector<std::pair<double, double>> printed;
  std::set<size_t> omitted;
  bool omission = false;
  std::istringstream in(r.out);
  std::string line;
  auto check_date = [&](const char* date, long long time) {
    PBT_CHECK(date == trader::FormatTimeUTC(absl::FromUnixSeconds(time)), "date in the report: " << line);
  };
  while (std::getline(in, line)) {
    long long a, b;
    char date[64], date_b[64];
    int used = 0;
    if (line.find_first_not_of(' ') != std::string::npos && line.substr(line.find_first_not_of(' ')) == "...") omission = true;
    if (std::sscanf(line.c_str(), "%lld [%63[^]]] - %lld [%63[^]]]: %n", &a, date, &b, date_b, &used) == 4 && used > 0) {
      check_date(date, a);
      check_date(date_b, b);
      gaps.push_back({a, b});
      long long hours, minutes, seconds;
      PBT_CHECK(std::sscanf(line.c_str() + used, "%lld:%lld:%lld", &hours, &minutes, &seconds) == 3 && minutes < 60 &&
                    seconds < 60 && hours * 3600 + minutes * 60 + seconds == b - a,
                "length of the gap: " << line);
    } else if (line.compare(0, 2, " x") == 0 || line.compare(0, 2, "  ") == 0) {
      double price, volume;
      if (std::sscanf(line.c_str() + 2, "%lld [%63[^]]]: %lf [%lf]", &a, date, &price, &volume) == 4) {
        check_date(date, a);
        if (omission) omitted.insert(outliers.size());
        omission = false;
        printed.push_back({price, volume});
        outliers.push_back({a, line[1] == 'x'});
      }
    }
  }
  const std::vector<trader::HistoryGap> want =
      h.empty() ? std::vector<trader::HistoryGap>()
                : trader::GetPriceHistoryGaps(h.begin(), h.end(), 0, 0, f.top_n);
  PBT_CHECK(gaps == want, gaps.size() << " printed gaps instead of " << want.size() << " (or others):\n" << r.out);
  std::vector<std::pair<int64_t, bool>> want_outliers;
  std::vector<size_t> records;
  if (ohlc) {
    std::vector<size_t> indices;
    trader::RemoveOutliers(h.begin(), h.end(), f.deviation, &indices);
    for (const auto& kv : trader::GetOutlierIndicesWithContext(indices, h.size(), 5, 5, f.last_n)) {
      want_outliers.push_back({h[kv.first].timestamp_sec(), kv.second});
      records.push_back(kv.first);
    }
  }
  PBT_CHECK(outliers == want_outliers, outliers.size() << " printed records around outliers instead of "
                                                      << want_outliers.size() << " (or others):\n" << r.out);
  for (size_t i = 0; i < records.size(); ++i) {
    const PriceRecord& record = h[records[i]];
    PBT_CHECK(std::abs(printed[i].first - record.price()) <= 0.0050001 + 1e-6 * record.price() &&
                  std::abs(printed[i].second - record.volume()) <= 0.000050001 + 1e-6 * record.volume(),
              "the report shows other numbers for the record " << record.ShortDebugString() << ":\n" << r.out);
    PBT_CHECK(i == 0 || omitted.count(i) == (records[i] != records[i - 1] + 1),
              "the report shows an omission at a wrong place, before the record " << record.ShortDebugString() << ":\n"
                                                                                  << r.out);
  }
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  pbt::GenZone(s);
  const std::string dir = pbt::ScratchDir();
  const std::string csv = dir + "/prices.csv", proto = dir + "/prices.dpb", ohlc = dir + "/ohlc.dpb";
  const PriceHistory all = GenPrices(s, s.Chance(1, 256) ? 5000 : s.Chance(1, 32) ? 800 : 150);
  std::string content;
  for (const PriceRecord& r : all) {
    char line[128];
    std::snprintf(line, sizeof(line), "%lld,%.9g,%.9g\n", static_cast<long long>(r.timestamp_sec()), r.price(), r.volume());
    content += line;
  }
  cli::WriteFile(csv, content);
  PBT_DESC(c, content);
  Flags f;
  auto bound = [&](bool low) -> int64_t {
    if (s.Chance(1, 6)) return low ? 1483228800 : 1609459200;
    if (s.Weighted({2, 1}) == 0 || all.empty()) return low ? 0 : INT64_MAX;
    return all[s.Draw(all.size())].timestamp_sec() + s.Int(-1, 1);
  };
  f.start = bound(true);
  f.end = bound(false);
  if (f.start > f.end) std::swap(f.start, f.end);
  // The end at (or before) the beginning of the epoch means that there is no limit.
  f.end = std::max<int64_t>(f.end, 1);
  f.deviation = s.Param({0.05, 0.01, 0.2, 0.5, 0.1}, 0, 2);
  f.sampling = s.Chance(1, 8) ? s.Int(1, 100000) : s.Pick({300, 60, 3600, 900, 7});
  f.top_n = s.Chance(1, 8) ? s.Int(0, 30) : s.Pick({50, 0, 1, 3});
  f.last_n = s.Chance(1, 8) ? s.Int(0, 30) : s.Pick({20, 0, 1, 3});
  if (all.size() > 200 && s.Bool()) {
    // More than what fits in a byte (or in two).
    f.top_n = s.Pick({300, 256, 257, 1000, 65536});
    f.last_n = s.Pick({300, 256, 257, 1000, 65536});
    c.Label("large reports");
  }
  f.compress = s.Bool();
  if (s.Bool()) f.omitted = s.Bool() ? 0x7fff : s.Draw(0x8000);
  c.LabelIf(f.omitted != 0, "default flags not given");
  // Expected results.
  PriceHistory h;
  for (const PriceRecord& r : all) {
    if (r.timestamp_sec() >= f.start && r.timestamp_sec() < f.end) h.push_back(r);
  }
  std::vector<size_t> indices;
  const PriceHistory clean = trader::RemoveOutliers(h.begin(), h.end(), f.deviation, &indices);
  const OhlcHistory want = trader::Resample(clean.begin(), clean.end(), f.sampling);
  const bool exec = s.Chance(1, 300);
  auto reset = [&]() {
    ::unlink(proto.c_str());
    ::unlink(ohlc.c_str());
  };
  // Directly, possibly with both outputs at once.
  reset();
  Flags direct = f;
  direct.in_csv = csv;
  direct.out_ohlc = ohlc;
  const bool both = s.Bool();
  if (both) direct.out_price = proto;
  cli::Result r = RunTool(c, direct, exec);
  CheckSame(ReadFile<OhlcTick>(ohlc, f.compress), want, "OHLC history converted directly");
  if (both) CheckSame(ReadFile<PriceRecord>(proto, f.compress), h, "price history of both");
  CheckReports(r, h, f, /*ohlc=*/true);
  // Through the price history file, perhaps with the time range applied only
  // in one of the steps.
  reset();
  Flags first = f, second = f;
  first.in_csv = csv;
  first.out_price = proto;
  first.compress = s.Bool();
  second.in_proto = proto;
  second.out_ohlc = ohlc;
  second.compress = s.Bool();
  const int range = s.Weighted({2, 1, 1});
  if (range == 1) {
    first.start = 0;
    first.end = INT64_MAX;
  } else if (range == 2) {
    second.start = 0;
    second.end = INT64_MAX;
  }
  r = RunTool(c, first, exec);
  CheckSame(ReadFile<PriceRecord>(proto, first.compress), range == 1 ? all : h, "price history");
  CheckReports(r, range == 1 ? all : h, first, /*ohlc=*/false);
  if (cli::Exists(proto)) {
    r = RunTool(c, second, exec);
    CheckSame(ReadFile<OhlcTick>(ohlc, second.compress), want, "OHLC history converted through the price history file");
    CheckReports(r, h, f, /*ohlc=*/true);
  }
  reset();
  ::unlink(csv.c_str());
  c.nontrivial = want.size() >= 2;
  c.LabelIf(!indices.empty(), "with outliers");
  c.LabelIf(h.size() < all.size(), "part of the records in the time range");
  c.LabelIf(h.empty(), "nothing in the time range");
  c.LabelIf(exec, "as a program");
  c.LabelIf(both, "both outputs at once");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C22", "Conversion pipeline: every route gives the same cleaned OHLC history",
    "Random price files (random walk with outliers, bursts and gaps, up to 150 records) converted to an OHLC history "
    "directly and through an intermediate price history file with random time ranges, deviations, sampling rates and "
    "compression of each step, and compared with the library functions applied to the records in the range; the "
    "printed gap and outlier reports are parsed back, sizes of files show the compression, and flags with default values "
    "are left out in half of the cases. In process, one of 300 by the program. Non-trivial: at least "
    "two OHLC ticks.",
    14000, 600000, Run, 20, {"RemoveOutliers, Resample and the reports themselves are decided by C15, C16 and C17."}};
