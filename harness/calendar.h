// Independent proleptic Gregorian calendar arithmetic.
#ifndef VERIF_HARNESS_CALENDAR_H
#define VERIF_HARNESS_CALENDAR_H

#include <cstdint>

namespace cal {

struct Civil {
  int64_t y;
  int m, d;        // 1..12, 1..31
  int64_t sec;     // Second of the day.
};

inline bool Leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int DaysIn(int64_t y, int m) {
  static const int k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && Leap(y) ? 29 : k[m - 1];
}
// Days since 1970-01-01.
inline int64_t DaysFromCivil(int64_t y, int m, int d) {
  // Days before the year y (counted from year 1).
  const int64_t p = y - 1;
  auto fdiv = [](int64_t a, int64_t b) { return a / b - (a % b < 0 ? 1 : 0); };
  int64_t days = 365 * p + fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400);
  for (int i = 1; i < m; ++i) days += DaysIn(y, i);
  return days + d - 1 - 719162;
}
inline int64_t ToUnix(const Civil& c) { return DaysFromCivil(c.y, c.m, c.d) * 86400 + c.sec; }
inline Civil FromUnix(int64_t t) {
  int64_t days = t / 86400;
  int64_t sec = t % 86400;
  if (sec < 0) {
    sec += 86400;
    --days;
  }
  // Estimate of the year, corrected by search.
  int64_t y = 1970 + days / 366 - (days < 0 ? 2 : 0);
  while (DaysFromCivil(y + 1, 1, 1) <= days) ++y;
  while (DaysFromCivil(y, 1, 1) > days) --y;
  Civil c{y, 1, 1, sec};
  int64_t rest = days - DaysFromCivil(y, 1, 1);
  while (rest >= DaysIn(y, c.m)) {
    rest -= DaysIn(y, c.m);
    ++c.m;
  }
  c.d = static_cast<int>(rest) + 1;
  return c;
}
// Requires day <= 28.
inline int64_t AddMonths(int64_t t, int64_t months) {
  Civil c = FromUnix(t);
  int64_t m = c.y * 12 + (c.m - 1) + months;
  c.y = m / 12;
  c.m = static_cast<int>(m % 12) + 1;
  return ToUnix(c);
}

}  // namespace cal

#endif  // VERIF_HARNESS_CALENDAR_H
