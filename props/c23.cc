// C23: time parsing, formatting and month arithmetic.
#include "harness/calendar.h"
#include "harness/pbt.h"
#include "util/time.h"

namespace {
using trader::AddMonthsToTime;
using trader::AddMonthsToTimestampSec;
using trader::FormatTimeUTC;
using trader::ParseTime;

std::string Two(int64_t x) {
  char buf[16];
  std::snprintf(buf, sizeof(buf), "%02d", static_cast<int>(x));
  return buf;
}
std::string Four(int64_t y) {
  char buf[16];
  std::snprintf(buf, sizeof(buf), "%04d", static_cast<int>(y));
  return buf;
}

cal::Civil GenCivil(pbt::Source& s) {
  cal::Civil c;
  switch (s.Draw(4)) {
    case 0: c.y = 2017 + s.Draw(5); break;
    case 1: c.y = s.Pick({1970, 1969, 2000, 1900, 2100, 1600, 2016, 2020, 2024, 2400, 4, 100}); break;
    case 2: c.y = s.Int(1970, 2100); break;
    default: c.y = s.Int(1, 9999);
  }
  c.m = s.Int(1, 12);
  c.d = s.Chance(1, 4) ? cal::DaysIn(c.y, c.m) : 1 + s.Draw(cal::DaysIn(c.y, c.m));
  c.sec = s.Pick<int64_t>({0, 86399, 43200, 59, 60, 3599, 3600, -1});
  if (c.sec < 0) c.sec = s.Draw(86400);
  return c;
}

// Parses the documented forms (independently, four digit years and two digits
// otherwise).
bool StrictParse(const std::string& t, int64_t* unix_sec) {
  size_t i = 0;
  auto number = [&](size_t digits, int64_t* x) {
    *x = 0;
    for (size_t k = 0; k < digits; ++k, ++i) {
      if (i >= t.size() || !isdigit(static_cast<unsigned char>(t[i]))) return false;
      *x = *x * 10 + (t[i] - '0');
    }
    return true;
  };
  auto literal = [&](char ch) { return i < t.size() && t[i] == ch ? (++i, true) : false; };
  int64_t y, m, d, hh = 0, mm = 0, ss = 0, oh = 0, om = 0;
  if (!number(4, &y) || !literal('-') || !number(2, &m) || !literal('-') || !number(2, &d)) return false;
  bool zone_required = false;
  if (i < t.size() && (t[i] == 'T' || (t[i] == ' ' && i + 1 < t.size() && isdigit(static_cast<unsigned char>(t[i + 1]))))) {
    zone_required = t[i] == 'T';
    ++i;
    if (!number(2, &hh) || !literal(':') || !number(2, &mm) || !literal(':') || !number(2, &ss)) return false;
  }
  int sign = 1;
  if (zone_required || i < t.size()) {
    if (!zone_required && !literal(' ')) return false;
    if (i >= t.size() || (t[i] != '+' && t[i] != '-')) return false;
    sign = t[i] == '-' ? -1 : 1;
    ++i;
    if (!number(2, &oh) || !literal(':') || !number(2, &om)) return false;
  }
  if (i != t.size()) return false;
  if (y < 1 || m < 1 || m > 12 || d < 1 || d > cal::DaysIn(y, static_cast<int>(m)) || hh > 23 || mm > 59 || ss > 59 ||
      oh > 23 || om > 59) {
    return false;
  }
  *unix_sec = cal::ToUnix({y, static_cast<int>(m), static_cast<int>(d), hh * 3600 + mm * 60 + ss}) - sign * (oh * 3600 + om * 60);
  return true;
}

void CheckParse(const std::string& text, bool ok, int64_t want) {
  const auto got = ParseTime(text);
  PBT_CHECK(got.ok() == ok, "parsing \"" << text << "\" " << (got.ok() ? "succeeded with " + FormatTimeUTC(*got) : "failed"));
  if (ok) {
    PBT_CHECK(*got == absl::FromUnixSeconds(want), "\"" << text << "\" is " << absl::ToUnixSeconds(*got) << " instead of " << want);
  }
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  pbt::GenZone(s);
  const cal::Civil civil = GenCivil(s);
  const int64_t t = cal::ToUnix(civil);
  const std::string date = Four(civil.y) + "-" + Two(civil.m) + "-" + Two(civil.d);
  const std::string clock = Two(civil.sec / 3600) + ":" + Two(civil.sec / 60 % 60) + ":" + Two(civil.sec % 60);
  const int oh = s.Draw(15), om = s.Pick({0, 30, 45, 59, 1});
  const int sign = s.Bool() ? -1 : 1;
  const std::string offset = std::string(sign < 0 ? "-" : "+") + Two(oh) + ":" + Two(om);
  const int64_t shift = sign * (oh * 3600 + om * 60);
  PBT_DESC(c, date << " " << clock << " " << offset << " unix " << t << "\n");
  switch (s.Weighted({3, 3, 3, 4})) {
    case 0: {  // Documented forms.
      CheckParse(date, true, t - civil.sec);
      CheckParse(date + " " + offset, true, t - civil.sec - shift);
      CheckParse(date + " " + clock, true, t);
      CheckParse(date + " " + clock + " " + offset, true, t - shift);
      CheckParse(date + "T" + clock + offset, true, t - shift);
      c.nontrivial = true;
      c.Label("documented forms");
      break;
    }
    case 1: {  // Formatting and its inverse.
      const absl::Time time = absl::FromUnixSeconds(t);
      const std::string text = FormatTimeUTC(time);
      if (civil.y >= 1000) PBT_CHECK(text == date + " " + clock, "formatted " << t << " is \"" << text << "\"");
      CheckParse(text, true, t);
      // Parts of a second are cut off.
      const int64_t nanos = s.Draw(1000000000);
      PBT_CHECK(FormatTimeUTC(time + absl::Nanoseconds(nanos)) == text, "formatted " << t << " and " << nanos << " ns");
      c.nontrivial = true;
      c.Label("formatting");
      break;
    }
    case 2: {  // Other text.
      if (s.Chance(1, 4)) {
        // One of the fields is out of range.
        int64_t f[6] = {civil.y, civil.m, civil.d, civil.sec / 3600, civil.sec / 60 % 60, civil.sec % 60};
        const int k = s.Int(1, 5);
        switch (k) {
          case 1: f[1] = s.Pick({13, 0, 20, 99}); break;
          case 2: f[2] = s.Bool() ? cal::DaysIn(civil.y, civil.m) + 1 : s.Pick({0, 32, 99}); break;
          case 3: f[3] = s.Pick({24, 25, 99}); break;
          case 4: f[4] = s.Pick({60, 99}); break;
          default: f[5] = s.Pick({61, 99});
        }
        const std::string d = Four(f[0]) + "-" + Two(f[1]) + "-" + Two(f[2]);
        const std::string h = Two(f[3]) + ":" + Two(f[4]) + ":" + Two(f[5]);
        if (k <= 2) {
          CheckParse(d, false, 0);
          CheckParse(d + " " + offset, false, 0);
        }
        CheckParse(d + " " + h, false, 0);
        CheckParse(d + " " + h + " " + offset, false, 0);
        CheckParse(d + "T" + h + offset, false, 0);
        c.Label("field out of range");
        c.nontrivial = true;
        break;
      }
      std::string text = s.Pick({0, 1, 2}) == 0 ? date : date + " " + clock;
      if (s.Bool()) text = s.Bool() ? date + "T" + clock + offset : text + " " + offset;
      const int edits = s.Int(0, 3);
      for (int i = 0; i < edits; ++i) {
        if (text.empty()) break;
        const size_t k = s.Draw(text.size());
        switch (s.Draw(4)) {
          case 0: text[k] = s.Pick({'0', '9', '3', '6', '-', ':', ' ', 'x', '/', '.'}); break;
          case 1: text.erase(k, 1); break;
          case 2: text.insert(k, 1, s.Pick({'0', '1', 'a', '.', ',', '-', '+'})); break;
          default: text.resize(k);
        }
      }
      if (s.Chance(1, 20)) {
        text.clear();
        const int n = s.Size(0, 40);
        for (int i = 0; i < n; ++i) text.push_back(static_cast<char>(s.Draw(256)));
      }
      PBT_DESC(c, "text \"" << text << "\"\n");
      int64_t want = 0;
      if (StrictParse(text, &want)) {
        CheckParse(text, true, want);
        c.Label("edited, valid");
      } else {
        // Definitely not a time: other characters, or no date at all. (The
        // rest, e.g. one digit months, or spaces around, might be accepted.)
        const auto got = ParseTime(text);
        bool other = std::count(text.begin(), text.end(), '-') < 2 || text.find_first_of("0123456789") == std::string::npos;
        for (char ch : text) {
          if (!isdigit(static_cast<unsigned char>(ch)) && !isspace(static_cast<unsigned char>(ch)) &&
              std::string("-+:TtZz").find(ch) == std::string::npos) {
            other = true;
          }
        }
        // Fields out of range.
        int y, m, d, hh, mm, ss, used = 0;
        char sep;
        const int fields = std::sscanf(text.c_str(), "%4d-%2d-%2d%c%2d:%2d:%2d%n", &y, &m, &d, &sep, &hh, &mm, &ss, &used);
        if (fields == 7 && used == static_cast<int>(text.size()) && text.size() == 19 && (sep == ' ' || sep == 'T') &&
            (m < 1 || m > 12 || d < 1 || (y >= 1 && m >= 1 && m <= 12 && d > cal::DaysIn(y, m)) || hh > 23 || mm > 59 || ss > 60) &&
            text.find_first_not_of("0123456789-:T ") == std::string::npos && text[4] == '-' && text[7] == '-' &&
            isdigit(static_cast<unsigned char>(text[5])) && isdigit(static_cast<unsigned char>(text[8])) &&
            isdigit(static_cast<unsigned char>(text[11])) && isdigit(static_cast<unsigned char>(text[14])) &&
            isdigit(static_cast<unsigned char>(text[17])) && isdigit(static_cast<unsigned char>(text[0]))) {
          other = true;
          c.Label("field out of range");
        }
        if (other) {
          PBT_CHECK(!got.ok(), "\"" << text << "\" was parsed as " << FormatTimeUTC(*got));
          c.Label("other text");
        } else {
          c.Label("ambiguous text");
        }
      }
      c.nontrivial = edits > 0;
      break;
    }
    default: {  // Months.
      cal::Civil v = civil;
      const bool late = v.d > 28 && s.Bool();
      if (late && s.Bool() && v.m == 2) {
        v.y = std::min<int64_t>(9600, (v.y + 3) / 4 * 4);
        if (cal::DaysIn(v.y, 2) == 29) v.d = 29;
      }
      if (!late) v.d = std::min(v.d, 28);
      const int64_t from = cal::ToUnix(v);
      const int a = s.Chance(1, 3) ? 12 * s.Int(-40, 40) : s.Bool() ? s.Int(-24, 36) : s.Int(-1200, 1200);
      const int b = s.Bool() ? s.Int(-24, 36) : s.Int(-1200, 1200);
      PBT_DESC(c, "add " << a << " and " << b << " months to " << Four(v.y) << "-" << Two(v.m) << "-" << Two(v.d) << "\n");
      if (v.y * 12 + a < 1300 || v.y * 12 + a + b < 1300) return;
      const int64_t got = AddMonthsToTimestampSec(from, a);
      if (late) {
        // The day is kept when the other month has it; otherwise the result is around the end of that month.
        const int64_t m = v.y * 12 + v.m - 1 + a;
        const int64_t year = m / 12;
        const int month = m % 12 + 1, days = cal::DaysIn(year, month);
        const int64_t exact = cal::ToUnix(cal::Civil{year, month, std::min(v.d, days), v.sec});
        PBT_CHECK(got == exact || (v.d > days && got > exact && got <= exact + (v.d - days) * 86400),
                  a << " months after " << from << " is " << got << " instead of " << exact);
        PBT_CHECK(AddMonthsToTime(absl::FromUnixSeconds(from), a) == absl::FromUnixSeconds(got), "AddMonthsToTime differs");
        PBT_CHECK(AddMonthsToTimestampSec(from, 0) == from, "adding no month to " << from);
        c.nontrivial = a != 0;
        c.Label("months after the 28th");
        return;
      }
      const int64_t want = cal::AddMonths(from, a);
      PBT_CHECK(got == want, a << " months after " << from << " is " << got << " instead of " << want);
      PBT_CHECK(AddMonthsToTime(absl::FromUnixSeconds(from), a) == absl::FromUnixSeconds(want), "AddMonthsToTime differs");
      PBT_CHECK(AddMonthsToTimestampSec(from, 0) == from, "adding no month to " << from);
      PBT_CHECK(AddMonthsToTimestampSec(got, b) == AddMonthsToTimestampSec(from, a + b),
                "adding " << a << " and " << b << " months to " << from << " differs from adding " << a + b);
      if (a > 0) PBT_CHECK(got > from, "time goes back");
      c.nontrivial = a != 0;
      c.Label("months");
      c.LabelIf(cal::FromUnix(got).y != v.y, "to another year");
    }
  }
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C23", "Time parsing, formatting and month arithmetic are consistent",
    "Random civil times of the years 1 to 9999 (biased to ends of days, months, years and leap years) in all the "
    "documented forms with random offsets, random edits of them, and months from -1200 to 1200, compared with an "
    "independent implementation of the calendar. Non-trivial: a documented form, an edited text, or a non-zero "
    "number of months.",
    4000000, 100000000, Run, 20,
    {"Text that is close to a documented form (one digit months, surrounding spaces, ...) might be accepted.",
     "Adding months to a day that the target month does not have is not decided."}};
