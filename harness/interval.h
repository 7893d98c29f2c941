// Interval arithmetic that over-approximates single precision evaluation.
//
// An interval is a single point as long as every (intermediate) value is
// representable with at most 22 significant bits, in which case any reasonable
// order of float (or double) operations gives exactly that value. Otherwise the
// interval is widened by a relative error that covers any order of operations.
#ifndef VERIF_HARNESS_INTERVAL_H
#define VERIF_HARNESS_INTERVAL_H

#include <algorithm>
#include <cmath>
#include <ostream>

namespace iv {

inline bool Few(double v) {
  if (v == 0) return true;
  if (!std::isfinite(v)) return false;
  int e;
  const double s = std::ldexp(std::frexp(v, &e), 22);
  return s == std::floor(s);
}

constexpr double kEps = 0x1p-21;

struct Iv {
  double lo = 0;
  double hi = 0;
  Iv() {}
  Iv(double v) : lo(v), hi(v) {}  // NOLINT
  Iv(double l, double h) : lo(l), hi(h) {}
  bool exact() const { return lo == hi; }
  bool Contains(double v) const { return v >= lo && v <= hi; }
  double width() const { return hi - lo; }
};

inline std::ostream& operator<<(std::ostream& os, const Iv& a) {
  if (a.exact()) return os << a.lo;
  return os << "[" << a.lo << ", " << a.hi << "]";
}

inline Iv Widen(Iv a) {
  if (a.lo == a.hi && Few(a.lo)) return a;
  return Iv(a.lo - std::abs(a.lo) * kEps, a.hi + std::abs(a.hi) * kEps);
}
inline Iv operator+(Iv a, Iv b) { return Widen(Iv(a.lo + b.lo, a.hi + b.hi)); }
inline Iv operator-(Iv a, Iv b) {
  Iv r(a.lo - b.hi, a.hi - b.lo);
  if (a.exact() && b.exact() && Few(r.lo) && r.lo == r.hi) return r;
  // The operands might have been rounded before the subtraction.
  const double err = kEps * std::max(std::max(std::abs(a.lo), std::abs(a.hi)),
                                     std::max(std::abs(b.lo), std::abs(b.hi)));
  return Iv(r.lo - err, r.hi + err);
}
inline Iv operator*(Iv a, Iv b) {
  const double p[] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  return Widen(Iv(*std::min_element(p, p + 4), *std::max_element(p, p + 4)));
}
// Requires positive b.
inline Iv operator/(Iv a, Iv b) {
  const double p[] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
  Iv r(*std::min_element(p, p + 4), *std::max_element(p, p + 4));
  if (r.lo == r.hi && Few(r.lo) && r.lo * b.lo == a.lo) return r;
  return Iv(r.lo - std::abs(r.lo) * kEps, r.hi + std::abs(r.hi) * kEps);
}
inline Iv Min(Iv a, Iv b) { return Iv(std::min(a.lo, b.lo), std::min(a.hi, b.hi)); }
inline Iv Max(Iv a, Iv b) { return Iv(std::max(a.lo, b.lo), std::max(a.hi, b.hi)); }

inline Iv FloorU(Iv x, double u) {
  if (!(u > 0)) return x;
  const Iv q = x / Iv(u);
  return Iv(std::floor(q.lo), std::floor(q.hi)) * Iv(u);
}
inline Iv CeilU(Iv x, double u) {
  if (!(u > 0)) return x;
  const Iv q = x / Iv(u);
  return Iv(std::ceil(q.lo), std::ceil(q.hi)) * Iv(u);
}
inline Iv RoundU(Iv x, double u) {
  if (!(u > 0)) return x;
  const Iv q = x / Iv(u);
  return Iv(std::round(q.lo), std::round(q.hi)) * Iv(u);
}

// Three-valued logic.
enum class Tri { kNo, kYes, kMaybe };
inline Tri And(Tri a, Tri b) {
  if (a == Tri::kNo || b == Tri::kNo) return Tri::kNo;
  if (a == Tri::kYes && b == Tri::kYes) return Tri::kYes;
  return Tri::kMaybe;
}
inline Tri Le(Iv a, Iv b) {  // a <= b
  if (a.hi <= b.lo) return Tri::kYes;
  if (a.lo > b.hi) return Tri::kNo;
  return Tri::kMaybe;
}
inline Tri Lt(Iv a, Iv b) {  // a < b
  if (a.hi < b.lo) return Tri::kYes;
  if (a.lo >= b.hi) return Tri::kNo;
  return Tri::kMaybe;
}
inline const char* Name(Tri t) {
  return t == Tri::kNo ? "no" : t == Tri::kYes ? "yes" : "maybe";
}

}  // namespace iv

#endif  // VERIF_HARNESS_INTERVAL_H
