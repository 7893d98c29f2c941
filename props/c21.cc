// C21: import of CSV (and protobuf) files.
#include <algorithm>

#include "harness/calendar.h"
#include "harness/cli.h"
#include "harness/codec.h"
#include "harness/convert_main.h"
#include "util/proto.h"

namespace {
using trader::OhlcTick;
using trader::PriceRecord;
using trader::SideInputRecord;

enum Kind { kPrice, kOhlc, kSide };

struct Row {
  int64_t ts = 0;
  std::vector<float> values;
};

// Classification of a line by an independent strict parser.
enum LineClass { kStrict, kBad, kUnknown };

bool StrictNumber(const std::string& f, bool integer) {
  size_t i = 0;
  if (i < f.size() && f[i] == '-') ++i;
  size_t digits = 0;
  while (i < f.size() && isdigit(static_cast<unsigned char>(f[i]))) {
    ++i;
    ++digits;
  }
  if (digits == 0 || digits > 18) return false;
  if (integer) return i == f.size();
  if (i < f.size() && f[i] == '.') {
    ++i;
    while (i < f.size() && isdigit(static_cast<unsigned char>(f[i]))) ++i;
  }
  if (i < f.size() && (f[i] == 'e' || f[i] == 'E')) {
    ++i;
    if (i < f.size() && (f[i] == '-' || f[i] == '+')) ++i;
    size_t e = 0;
    while (i < f.size() && isdigit(static_cast<unsigned char>(f[i]))) {
      ++i;
      ++e;
    }
    if (e == 0 || e > 4) return false;
  }
  return i == f.size();
}

std::vector<std::string> SplitFields(const std::string& line) {
  std::vector<std::string> fields(1);
  for (char ch : line) {
    if (ch == ',') {
      fields.emplace_back();
    } else {
      fields.back().push_back(ch);
    }
  }
  return fields;
}

LineClass Classify(Kind kind, const std::string& line, Row* row) {
  const std::vector<std::string> fields = SplitFields(line);
  // Minimum: unknown.
  row->ts = StrictNumber(fields[0], true) ? std::strtoll(line.c_str(), nullptr, 10) : INT64_MIN;
  const size_t needed = kind == kPrice ? 3 : kind == kOhlc ? 6 : 2;
  // Definitely does not have all the numbers.
  if (kind != kSide) {
    if (fields.size() < needed) return kBad;
    for (size_t i = 0; i < needed; ++i) {
      size_t k = 0;
      while (k < fields[i].size() && isspace(static_cast<unsigned char>(fields[i][k]))) ++k;
      if (k == fields[i].size()) return kBad;
      const char ch = fields[i][k];
      if (!isdigit(static_cast<unsigned char>(ch)) && std::string("+-.nNiI").find(ch) == std::string::npos) return kBad;
    }
  } else {
    for (char ch : line) {
      if (std::string("0123456789+-.eE,xXabcdefABCDEFnNiIpPtTyY").find(ch) == std::string::npos &&
          !isspace(static_cast<unsigned char>(ch))) {
        return kBad;
      }
    }
    if (line.find_first_of("0123456789") == std::string::npos) return kBad;
    // A signal (or time) that consists of signs only is not a number.
    for (const std::string& f : fields) {
      bool signs = false, other = false;
      for (char ch : f) {
        if (std::string("+-.eE").find(ch) != std::string::npos) {
          signs = true;
        } else if (!isspace(static_cast<unsigned char>(ch))) {
          other = true;
        }
      }
      if (signs && !other) return kBad;
    }
  }
  if (kind != kSide ? fields.size() != needed : fields.size() < needed) return kUnknown;
  if (!StrictNumber(fields[0], true)) return kUnknown;
  row->ts = std::strtoll(fields[0].c_str(), nullptr, 10);
  row->values.clear();
  for (size_t i = 1; i < fields.size(); ++i) {
    if (kind != kSide && (fields[i] == "nan" || fields[i] == "-nan" || fields[i] == "inf" || fields[i] == "-inf")) {
      row->values.push_back(std::numeric_limits<float>::quiet_NaN());
      continue;
    }
    if (!StrictNumber(fields[i], false)) return kUnknown;
    const float value = std::strtof(fields[i].c_str(), nullptr);
    // Values that do not fit are a matter of taste.
    if (!std::isfinite(value) || (value != 0 && std::abs(value) < 1e-37f)) return kUnknown;
    row->values.push_back(value);
  }
  return kStrict;
}

bool ValidValues(Kind kind, const std::vector<float>& v) {
  auto positive = [](float x) { return x > 0 && std::isfinite(x); };
  if (kind == kPrice) return positive(v[0]) && v[1] >= 0 && std::isfinite(v[1]);
  if (kind == kOhlc) {
    // open, high, low, close, volume.
    for (int i = 0; i < 4; ++i) {
      if (!positive(v[i])) return false;
    }
    return v[2] <= v[0] && v[2] <= v[3] && v[0] <= v[1] && v[3] <= v[1] && v[4] >= 0 && std::isfinite(v[4]);
  }
  return !v.empty();
}

enum Verdict { kMustSucceed, kMustFail, kEither };

// What has to happen with the rows (from the file, or from the messages).
struct Expectation {
  Verdict verdict = kMustSucceed;
  std::vector<Row> rows;
  std::string why;
  void Fail(const std::string& reason) {
    if (verdict == kMustSucceed) {
      verdict = kMustFail;
      why = reason;
    }
  }
  void Unknown() {
    if (verdict == kMustSucceed) verdict = kEither;
  }
};

struct Line {
  LineClass cls = kStrict;
  Row row;
};

Expectation Expect(Kind kind, const std::vector<Line>& lines, int64_t start, int64_t end) {
  Expectation e;
  bool after_end = false;
  size_t signals = 0;
  int64_t last = 0;
  bool skipped_late = false;
  for (size_t i = 0; i < lines.size() && e.verdict == kMustSucceed; ++i) {
    const Line& line = lines[i];
    const std::string where = " on the line " + std::to_string(i + 1);
    if (line.cls == kUnknown) {
      e.Unknown();
      break;
    }
    if (line.cls == kBad) {
      // The rows after the end of the time range need not be read, and the
      // signals are not needed out of the time range.
      const int64_t ts = line.row.ts;
      const bool unknown_time = ts == INT64_MIN && (start > 0 || end > 0);
      if (after_end || (kind == kSide && (unknown_time || (start > 0 && ts < start) || (end > 0 && ts >= end)))) {
        e.Unknown();
      } else {
        e.Fail("missing numbers" + where);
      }
      break;
    }
    const Row& row = line.row;
    const bool in_range = (start <= 0 || row.ts >= start) && (end <= 0 || row.ts < end);
    if (after_end) {
      // Nothing but later rows is expected here.
      if (row.ts < last || !ValidValues(kind, row.values)) e.Unknown();
      last = std::max(last, row.ts);
      continue;
    }
    if (!in_range) {
      if (end > 0 && row.ts >= end) after_end = true;
      // Rows out of the time range need not be checked.
      if (!ValidValues(kind, row.values) || row.ts < last) e.Unknown();
      if (kind == kSide && signals != 0 && row.values.size() != signals) e.Unknown();
      last = std::max(last, row.ts);
      continue;
    }
    if (row.ts <= 0) e.Fail("time that is not positive" + where);
    if (!e.rows.empty() && row.ts < e.rows.back().ts) e.Fail("goes back in time" + where);
    if (kind == kSide && !e.rows.empty() && row.ts == e.rows.back().ts) e.Fail("repeats a time" + where);
    if (!ValidValues(kind, row.values)) e.Fail("invalid values" + where);
    if (kind == kSide) {
      if (signals == 0) signals = row.values.size();
      if (row.values.size() != signals) e.Fail("number of signals" + where);
    }
    last = std::max(last, row.ts);
    e.rows.push_back(row);
  }
  return e;
}

std::string FormatTime(pbt::Source& s, int64_t t) {
  const cal::Civil c = cal::FromUnix(t);
  char buf[64];
  if (c.sec == 0 && s.Bool()) {
    std::snprintf(buf, sizeof(buf), "%04d-%02d-%02d", static_cast<int>(c.y), c.m, c.d);
  } else {
    std::snprintf(buf, sizeof(buf), "%04d-%02d-%02d %02d:%02d:%02d", static_cast<int>(c.y), c.m, c.d,
                  static_cast<int>(c.sec / 3600), static_cast<int>(c.sec / 60 % 60), static_cast<int>(c.sec % 60));
  }
  return buf;
}

std::string Number(pbt::Source& s, double x) {
  char buf[64];
  switch (s.Weighted({4, 2, 2, 1, 1})) {
    case 0: std::snprintf(buf, sizeof(buf), "%g", x); break;
    case 1: std::snprintf(buf, sizeof(buf), "%.9g", x); break;
    case 2: std::snprintf(buf, sizeof(buf), "%.2f", x); break;
    case 3: std::snprintf(buf, sizeof(buf), "%.17e", x); break;
    default: std::snprintf(buf, sizeof(buf), "%.20f", x);
  }
  std::string out = buf;
  if (s.Chance(1, 64) && out.find('e') == std::string::npos) {
    // Unusually many digits.
    if (out.find('.') == std::string::npos) out += '.';
    out += std::string(s.Chance(1, 8) ? s.Int(1, 10000) : s.Int(1, 600), '0');
  }
  return out;
}

Row GenRow(pbt::Source& s, Kind kind, int64_t ts, int signals) {
  Row r;
  r.ts = ts;
  auto price = [&]() { return s.Bool() ? 1 + s.Draw(100) : s.Pick({1000.0, 1e-5, 1e6, 1.0}) * (0.5 + s.Unit(16)); };
  auto volume = [&]() { return s.Chance(1, 4) ? 0 : s.Bool() ? s.Draw(20) : 100 * s.Unit(20); };
  switch (kind) {
    case kPrice:
      r.values = {static_cast<float>(price()), static_cast<float>(volume())};
      break;
    case kOhlc: {
      float p[4];
      for (float& x : p) x = price();
      if (s.Chance(1, 4)) p[1] = p[0];
      const float high = *std::max_element(p, p + (s.Bool() ? 4 : 2));
      const float low = *std::min_element(p, p + (s.Bool() ? 4 : 2));
      r.values = {p[0], high, low, p[1], static_cast<float>(volume())};
      break;
    }
    case kSide:
      for (int i = 0; i < signals; ++i) r.values.push_back(s.Bool() ? s.Draw(100) : -10 + 20 * s.Unit(16));
  }
  return r;
}

std::string LineOf(pbt::Source& s, const Row& r, bool plain) {
  std::string line = std::to_string(r.ts);
  // Few digits might make a small price zero.
  const int style = plain ? 0 : s.Draw(2);
  for (float v : r.values) {
    char buf[64];
    if (style == 0) {
      std::snprintf(buf, sizeof(buf), "%.9g", v);
      line += std::string(",") + buf;
    } else {
      line += "," + Number(s, v);
    }
  }
  return line;
}

std::vector<std::string> SplitLines(const std::string& content) {
  std::vector<std::string> lines;
  std::string line;
  for (char ch : content) {
    if (ch == '\n') {
      lines.push_back(line);
      line.clear();
    } else {
      line.push_back(ch);
    }
  }
  if (!line.empty()) lines.push_back(line);
  return lines;
}

Row ToRow(const PriceRecord& r) { return {r.timestamp_sec(), {r.price(), r.volume()}}; }
Row ToRow(const OhlcTick& r) { return {r.timestamp_sec(), {r.open(), r.high(), r.low(), r.close(), r.volume()}}; }
Row ToRow(const SideInputRecord& r) { return {r.timestamp_sec(), {r.signal().begin(), r.signal().end()}}; }

template <typename T>
bool ReadRows(const std::string& path, std::vector<Row>* rows) {
  std::vector<T> messages;
  if (!trader::ReadDelimitedMessagesFromFile<T>(path, messages).ok()) return false;
  for (const T& m : messages) rows->push_back(ToRow(m));
  return true;
}
bool ReadRows(Kind kind, const std::string& path, std::vector<Row>* rows) {
  switch (kind) {
    case kPrice: return ReadRows<PriceRecord>(path, rows);
    case kOhlc: return ReadRows<OhlcTick>(path, rows);
    default: return ReadRows<SideInputRecord>(path, rows);
  }
}

std::string Str(const Row& r) {
  std::ostringstream os;
  os.precision(9);
  os << r.ts;
  for (float v : r.values) os << "," << v;
  return os.str();
}

void WriteMessages(Kind kind, const std::vector<Row>& rows, const std::string& path, bool compress) {
  absl::Status status;
  if (kind == kPrice) {
    std::vector<PriceRecord> v;
    for (const Row& r : rows) {
      v.emplace_back();
      v.back().set_timestamp_sec(r.ts);
      v.back().set_price(r.values[0]);
      v.back().set_volume(r.values[1]);
    }
    status = trader::WriteDelimitedMessagesToFile(v.begin(), v.end(), path, compress);
  } else {
    std::vector<OhlcTick> v;
    for (const Row& r : rows) {
      v.emplace_back();
      v.back().set_timestamp_sec(r.ts);
      v.back().set_open(r.values[0]);
      v.back().set_high(r.values[1]);
      v.back().set_low(r.values[2]);
      v.back().set_close(r.values[3]);
      v.back().set_volume(r.values[4]);
    }
    status = trader::WriteDelimitedMessagesToFile(v.begin(), v.end(), path, compress);
  }
  PBT_CHECK(status.ok(), "cannot write the input of the case: " << status.message());
}

float Invalid(pbt::Source& s) {
  return s.Pick({0.0f, -1.0f, -0.0f, std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity(),
                 -std::numeric_limits<float>::infinity(), -1e-10f});
}
// Makes the values invalid (or at least probably).
void Spoil(pbt::Source& s, Kind kind, Row* r) {
  if (kind == kPrice) {
    if (s.Bool()) {
      r->values[0] = Invalid(s);
    } else {
      r->values[1] = s.Pick({-1.0f, -1e-10f, std::numeric_limits<float>::quiet_NaN(),
                             std::numeric_limits<float>::infinity()});
    }
  } else if (kind == kOhlc) {
    switch (s.Draw(4)) {
      case 0: r->values[s.Draw(4)] = Invalid(s); break;
      case 1: r->values[4] = s.Pick({-1.0f, std::numeric_limits<float>::quiet_NaN(),
                                     std::numeric_limits<float>::infinity()}); break;
      case 2: std::swap(r->values[1], r->values[s.Pick({2, 0, 3})]); break;
      default: std::swap(r->values[2], r->values[s.Pick({0, 3, 1})]);
    }
  } else if (r->values.empty() || s.Bool()) {
    r->values.push_back(s.Draw(5));
  } else {
    r->values.pop_back();
  }
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  pbt::GenZone(s);
  const Kind kind = static_cast<Kind>(s.Draw(3));
  const bool from_proto = kind != kSide && s.Chance(1, 5);
  const std::string dir = pbt::ScratchDir();
  const std::string input = dir + "/input", output = dir + "/output";
  ::unlink(output.c_str());
  // Rows.
  const int n = s.SizeOrHuge(0, 30, 2500, 512, 4);
  const int signals = s.Int(1, 4);
  int64_t ts = s.Chance(1, 6) ? std::min<int64_t>(pbt::GenEpoch(s), 250000000000) : s.Pick<int64_t>({1483228800, 1500000000, 1000, 1});
  std::vector<Row> rows;
  for (int i = 0; i < n; ++i) {
    rows.push_back(GenRow(s, kind, ts, signals));
    switch (s.Draw(4)) {
      case 0: ts += 60; break;
      case 1: ts += kind == kSide ? 1 : 0; break;
      case 2: ts += s.Int(1, 300); break;
      default: ts += s.Int(1, 86400 * 3);
    }
  }
  // Time range: around the rows, everything, or something else.
  auto bound = [&](bool low) -> int64_t {
    switch (s.Weighted({3, 3, 1})) {
      case 0: return low ? 0 : (s.Bool() ? 0 : 253402300799);  // Year 9999.
      case 1: return rows.empty() ? 1000 : std::max<int64_t>(0, rows[s.Draw(rows.size())].ts + s.Int(-1, 1));
      default: return low ? 1483228800 : 1609459200;
    }
  };
  const bool giant = rows.size() > 30000;
  int64_t start = bound(true), end = bound(false);
  if (giant && s.Chance(7, 8)) {
    start = 0;
    end = 0;
  }
  if (end > 0 && start > end && s.Chance(9, 10)) std::swap(start, end);
  // Defects.
  const int defects = giant ? s.Int(0, 1) : s.Weighted({3, 4, 2}) == 0 ? 0 : s.Int(1, 2);
  bool damaged = false;
  for (int i = 0; i < defects && !rows.empty(); ++i) {
    // The defects are mostly late in extremely long files.
    const size_t k = giant && s.Chance(3, 4) ? rows.size() - 1 - s.Draw(rows.size() - 32700) : s.Draw(rows.size());
    switch (giant ? s.Pick({1, 0, 1, 1, 2}) : s.Draw(3)) {
      case 0: Spoil(s, kind, &rows[k]); break;
      case 1: rows[k].ts = s.Pick<int64_t>({rows[k].ts - 1, rows[k].ts - 100000, 0, -5, rows[0].ts}); break;
      default: damaged = true;
    }
  }
  std::vector<Line> lines;
  std::string content;
  const bool compress = s.Bool();
  std::vector<std::string> args;
  const std::string name = kind == kPrice ? "price" : kind == kOhlc ? "ohlc" : "side";
  bool cut = false;
  if (from_proto) {
    WriteMessages(kind, rows, input, s.Bool());
    for (const Row& r : rows) {
      lines.emplace_back();
      lines.back().row = r;
    }
    if (damaged) {
      std::ifstream in(input, std::ios::binary);
      std::stringstream data;
      data << in.rdbuf();
      std::string bytes = data.str();
      bytes.resize(1 + s.Draw(bytes.size() - 1));
      cli::WriteFile(input, bytes);
      cut = true;
    }
    for (const Row& r : rows) PBT_DESC(c, "  " << Str(r) << "\n");
  } else {
    std::vector<std::string> text;
    const bool plain = giant || (rows.size() > 60 && s.Chance(3, 4));
    for (const Row& r : rows) text.push_back(LineOf(s, r, plain));
    if (damaged) {
      // Missing numbers, or random edits.
      const int edits = s.Int(1, 3);
      for (int e = 0; e < edits; ++e) {
        std::string& line = text[s.Draw(text.size())];
        switch (s.Draw(6)) {
          case 0: line = line.substr(0, line.rfind(',') == std::string::npos ? 0 : line.rfind(',')); break;
          case 1: line = line.substr(0, s.Draw(line.size() + 1)); break;
          case 2: {
            std::vector<std::string> f = SplitFields(line);
            f[s.Bool() ? f.size() - 1 : s.Draw(f.size())] = s.Pick({"", "x", "-", "null", " ", "nan", "1e50", ".", "\"1\"", "price", "+", "e", "-."});
            line.clear();
            for (size_t i = 0; i < f.size(); ++i) line += (i > 0 ? "," : "") + f[i];
            break;
          }
          case 3:
            if (!line.empty()) line[s.Draw(line.size())] = static_cast<char>(s.Bool() ? s.Pick({',', ';', 'x', ' ', '-', 'e', '.', '\0'}) : s.Draw(256));
            break;
          case 4: line.insert(s.Draw(line.size() + 1), 1, static_cast<char>(s.Bool() ? s.Pick({',', ' ', 'x', '0'}) : s.Draw(256))); break;
          default: line = s.Bool() ? "" : "timestamp,price,volume";
        }
      }
    }
    for (size_t i = 0; i < text.size(); ++i) {
      content += text[i];
      if (i + 1 < text.size() || s.Chance(3, 4)) content += "\n";
    }
    // Arbitrary content.
    if (s.Chance(1, 16)) {
      const int k = s.Size(0, 200);
      content.clear();
      for (int i = 0; i < k; ++i) content.push_back(static_cast<char>(s.Bool() ? s.Pick({'1', '5', ',', '\n', '.', '-', ' ', '0'}) : s.Draw(256)));
      c.Label("arbitrary content");
    }
    for (const std::string& line : SplitLines(content)) {
      lines.emplace_back();
      lines.back().cls = Classify(kind, line, &lines.back().row);
    }
    cli::WriteFile(input, content);
    PBT_DESC(c, "file:\n" << content << (content.empty() || content.back() != '\n' ? "(no newline)\n" : ""));
  }
  Expectation e = Expect(kind, lines, start, end);
  if (cut && e.verdict == kMustSucceed) {
    // Reading stops at the first record after the time range.
    e.verdict = e.rows.size() == lines.size() ? kMustFail : kEither;
    e.why = "cut file";
  } else if (cut) {
    e.verdict = e.verdict == kMustFail ? kMustFail : kEither;
  }
  args.push_back("--input_price_history_csv_file=" + (kind == kPrice && !from_proto ? input : ""));
  args.push_back("--input_price_history_delimited_proto_file=" + (kind == kPrice && from_proto ? input : ""));
  args.push_back("--input_ohlc_history_csv_file=" + (kind == kOhlc && !from_proto ? input : ""));
  args.push_back("--input_ohlc_history_delimited_proto_file=" + (kind == kOhlc && from_proto ? input : ""));
  args.push_back("--input_side_history_csv_file=" + (kind == kSide ? input : ""));
  // Faults of the invocation.
  std::string out_path = output;
  std::string fault;
  if (s.Chance(1, 24)) {
    switch (s.Draw(6)) {
      case 0: fault = "missing input"; ::unlink(input.c_str()); break;
      case 1: fault = "two inputs"; args[kind == kPrice ? 3 : 0] += input; break;
      case 2: fault = "no input"; for (std::string& a : args) a.resize(a.find('=') + 1); break;
      case 4:
        // A directory can be opened, but reading it fails.
        fault = "unreadable input";
        for (std::string& a : args) {
          if (a.size() > a.find('=') + 1) a.replace(a.find('=') + 1, std::string::npos, dir);
        }
        break;
      case 3: fault = "bad output"; out_path = dir + "/no/such/file"; break;
      default: fault = "full output"; out_path = "/dev/full";
    }
  }
  args.push_back("--output_price_history_delimited_proto_file=" + (kind == kPrice ? out_path : ""));
  args.push_back("--output_ohlc_history_delimited_proto_file=" + (kind == kOhlc ? out_path : ""));
  args.push_back("--output_side_history_delimited_proto_file=" + (kind == kSide ? out_path : ""));
  args.push_back("--start_time=" + FormatTime(s, start));
  args.push_back("--end_time=" + FormatTime(s, end));
  args.push_back("--top_n_gaps=" + std::to_string(s.Pick({50, 0, 1, 3})));
  args.push_back("--last_n_outliers=20");
  args.push_back(std::string("--compress=") + (compress ? "true" : "false"));
  // Flags with the default values do not need to be given.
  if (s.Bool()) {
    for (const char* flag : {"--top_n_gaps=50", "--last_n_outliers=20", "--compress=true"}) {
      args.erase(std::remove(args.begin(), args.end(), flag), args.end());
    }
    args.erase(std::remove_if(args.begin(), args.end(), [](const std::string& a) { return a.back() == '='; }), args.end());
  }
  const bool exec = s.Chance(1, 400);
  const cli::Result r = exec ? cli::Exec("VERIF_BIN_CONVERT", args) : cli::Call(ConvertMain, args);
  PBT_DESC(c, name << (from_proto ? " messages" : " CSV") << " start=" << start << " end=" << end
                   << (fault.empty() ? "" : " fault: " + fault) << (exec ? " (as a program)" : "") << "\n"
                   << (e.verdict == kMustFail ? "must fail: " + e.why : e.verdict == kEither ? "might fail" : "must succeed")
                   << "\n" << r.Str() << "\n");
  PBT_CHECK(!r.crashed, "the converter crashed: " << r.Str());
  if (!fault.empty()) {
    const bool writes = e.verdict == kMustSucceed && !e.rows.empty();
    const bool output_fault = fault == "bad output" || fault == "full output";
    if (!output_fault || writes || e.verdict == kMustFail) {
      PBT_CHECK(r.status != 0, "the converter succeeded in spite of " << fault);
    }
    PBT_CHECK(!cli::Exists(output), "output file in spite of " << fault);
    c.Label("fault of the invocation");
    c.nontrivial = true;
    return;
  }
  if (r.status != 0) {
    PBT_CHECK(e.verdict != kMustSucceed, "the converter failed on valid rows: " << r.err);
    PBT_CHECK(!cli::Exists(output), "the failing converter wrote an output file");
    c.Label("rejected");
    c.nontrivial = e.verdict == kMustFail;
    return;
  }
  PBT_CHECK(e.verdict != kMustFail, "the converter succeeded in spite of: " << e.why);
  std::vector<Row> got;
  if (cli::Exists(output)) {
    PBT_CHECK(ReadRows(kind, output, &got), "the output file cannot be read");
    // A record takes at least eight bytes.
    PBT_CHECK(compress || cli::FileSize(output) >= 8 * got.size(), "the output is compressed");
  }
  ::unlink(output.c_str());
  if (e.verdict == kMustSucceed) {
    for (size_t i = 0; i < got.size() && i < e.rows.size(); ++i) {
      PBT_CHECK(got[i].ts == e.rows[i].ts && got[i].values == e.rows[i].values,
                "record " << i << " is " << Str(got[i]) << " instead of " << Str(e.rows[i]));
    }
    PBT_CHECK(got.size() == e.rows.size(), got.size() << " records instead of " << e.rows.size());
    c.Label(got.empty() ? "accepted, nothing in the time range" : "accepted");
    c.LabelIf(!got.empty() && got.size() < lines.size(), "accepted, part of the rows");
    c.nontrivial = !got.empty();
  } else {
    // Whatever was stored is valid.
    PBT_CHECK(got.size() <= lines.size(), got.size() << " records from " << lines.size() << " lines");
    for (size_t i = 0; i < got.size(); ++i) {
      PBT_CHECK(got[i].ts > 0 && (start <= 0 || got[i].ts >= start) && (end <= 0 || got[i].ts < end),
                "time of the stored record " << Str(got[i]));
      PBT_CHECK(i == 0 || got[i - 1].ts <= got[i].ts, "stored records go back in time at " << Str(got[i]));
      PBT_CHECK(ValidValues(kind, got[i].values), "stored record " << Str(got[i]));
      if (kind == kSide) {
        PBT_CHECK(got[i].values.size() == got[0].values.size(), "number of signals in " << Str(got[i]));
      }
    }
    c.Label("accepted ambiguous rows");
  }
  c.Label(kind == kPrice ? "prices" : kind == kOhlc ? "OHLC" : "side input");
  c.LabelIf(giant, "extremely many rows");
  c.LabelIf(from_proto, "from messages");
  c.LabelIf(exec, "as a program");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C21", "CSV import stores exactly the valid rows or fails with an error",
    "CSV files of each kind (and history files of messages) with random rows in several number formats, time ranges "
    "at and around the rows, and up to two defects: invalid or inconsistent values, times that go back, missing "
    "numbers, random edits, arbitrary bytes, cut message files, missing, doubled or unwritable files; converted in "
    "process (one of 400 by the program) and compared with an independent strict parser. Non-trivial: some rows "
    "were stored, or the input had to be rejected.",
    80000, 4000000, Run, 20,
    {"Lines that are neither strictly valid nor definitely without all the numbers might be accepted or rejected; "
     "whatever is stored from them has to be valid.",
     "Rows out of the time range need not be validated."}};
