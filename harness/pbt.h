// A small property-based testing engine (Hypothesis style).
//
// A test case is a pure function of a sequence of integer choices. In random
// mode the choices come from a PRNG seeded by (VERIF_SEED, property, case
// index); in replay mode they come from a recorded sequence (padded by zeros).
// Because every generated value is derived from the choices, one generic
// shrinker works for all properties, and the replay file is the sequence.
#ifndef VERIF_HARNESS_PBT_H
#define VERIF_HARNESS_PBT_H

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

// Thrown when a property does not hold for the generated case.
struct Failure {
  std::string message;
};

inline uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// Source of all choices of one case.
class Source {
 public:
  // Random mode.
  explicit Source(uint64_t seed) : state_(Mix(seed ^ 0x5bd1e995)) {}
  // Replay mode.
  explicit Source(const std::vector<uint64_t>& replay)
      : replaying_(true), replay_(replay) {}
  // Fuzzing mode (bytes are decoded to choices).
  Source(const uint8_t* data, size_t size)
      : bytes_(data), bytes_size_(size), fuzzing_(true) {}

  // Returns a number in [0, n). Smaller numbers are simpler.
  uint64_t Draw(uint64_t n) {
    uint64_t v = 0;
    if (n > 1) {
      if (replaying_) {
        v = pos_ < replay_.size() ? replay_[pos_] : 0;
        v = v < n ? v : v % n;
      } else if (fuzzing_) {
        uint64_t m = n - 1;
        while (m > 0) {
          v = (v << 8) | (bytes_pos_ < bytes_size_ ? bytes_[bytes_pos_] : 0);
          ++bytes_pos_;
          m >>= 8;
        }
        v = v < n ? v : v % n;
      } else {
        v = Next() % n;
      }
    }
    ++pos_;
    record_.push_back(v);
    if (mirror_ != nullptr && record_.size() < mirror_size_) {
      mirror_[record_.size()] = v;
      mirror_[0] = record_.size();
    }
    return v;
  }

  // Returns an integer in [lo, hi].
  int64_t Int(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(Draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  // True with probability num / den (shrinks to false).
  bool Chance(uint64_t num, uint64_t den) {
    return Draw(den) >= den - num;
  }
  bool Bool() { return Draw(2) == 1; }
  // Index according to the weights. The first one is the simplest.
  size_t Weighted(std::initializer_list<int> weights) {
    uint64_t total = 0;
    for (int w : weights) total += w;
    uint64_t x = Draw(total);
    size_t i = 0;
    for (int w : weights) {
      if (x < static_cast<uint64_t>(w)) return i;
      x -= w;
      ++i;
    }
    return 0;
  }
  template <typename T>
  T Pick(std::initializer_list<T> values) {
    return *(values.begin() + Draw(values.size()));
  }
  template <typename T>
  const T& PickFrom(const std::vector<T>& values) {
    return values[Draw(values.size())];
  }
  // Integer in [lo, hi] with a bias to the small values and long tail.
  int64_t Size(int64_t lo, int64_t hi) {
    const int64_t span = hi - lo;
    if (span <= 0) return lo;
    int64_t cap = span;
    switch (Weighted({3, 3, 2, 1})) {
      case 0: cap = std::min<int64_t>(span, 4); break;
      case 1: cap = std::min<int64_t>(span, 16); break;
      case 2: cap = std::min<int64_t>(span, std::max<int64_t>(32, span / 4)); break;
      default: cap = span;
    }
    return lo + static_cast<int64_t>(Draw(cap + 1));
  }
  // Same as Size, but with a small chance of anything up to the much larger huge.
  // With giant > 0, one of giant such cases has a size at which counters of a smaller
  // type wrap around.
  int64_t SizeOrHuge(int64_t lo, int64_t hi, int64_t huge, uint64_t rarity = 256, uint64_t giant = 0) {
    if (!Chance(1, rarity)) return Size(lo, hi);
    if (giant > 0 && Chance(1, giant)) return Pick({65536, 32768, 65535, 70000}) + Int(0, 3);
    return Int(lo, huge);
  }
  // Floating point number in [0, 1) with the given number of bits.
  double Unit(int bits = 20) {
    return std::ldexp(static_cast<double>(Draw(1ull << bits)), -bits);
  }

  // Length (of a window, a number of periods): usually one of the common values,
  // sometimes anything up to 60 and rarely anything up to huge.
  int Length(std::initializer_list<int> common, int huge = 1000) {
    switch (Weighted({40, 8, 1})) {
      case 0: return Pick(common);
      case 1: return static_cast<int>(Int(1, 60));
      default: return static_cast<int>(Int(1, huge));
    }
  }
  // Parameter: usually one of the common values, sometimes anything in [lo, hi]
  // (steps is the number of the steps; a power of two keeps it a short number).
  double Param(std::initializer_list<double> common, double lo, double hi, uint64_t steps = 1 << 20) {
    if (Weighted({3, 1}) == 0) return Pick(common);
    return lo + (hi - lo) * static_cast<double>(Draw(steps + 1)) / static_cast<double>(steps);
  }

  const std::vector<uint64_t>& record() const { return record_; }
  // Also writes the choices to the memory (the number of them comes first).
  void Mirror(uint64_t* memory, size_t size) {
    mirror_ = memory;
    mirror_size_ = size;
  }
  bool exhausted() const {
    return fuzzing_ && bytes_pos_ > bytes_size_ + 64;
  }

 private:
  uint64_t Next() {
    state_ += 0x9e3779b97f4a7c15ull;
    uint64_t z = state_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }

  uint64_t state_ = 0;
  bool replaying_ = false;
  std::vector<uint64_t> replay_;
  size_t pos_ = 0;
  const uint8_t* bytes_ = nullptr;
  size_t bytes_size_ = 0;
  size_t bytes_pos_ = 0;
  bool fuzzing_ = false;
  std::vector<uint64_t> record_;
  uint64_t* mirror_ = nullptr;
  size_t mirror_size_ = 0;
};

// Time (in seconds) where a history starts: usually in 2017, but also at the
// beginning of the epoch and around the limits of 32-bit integers.
inline int64_t GenEpoch(Source& s) {
  if (!s.Chance(1, 4)) return 1483228800;
  const int64_t t = s.Pick<int64_t>({1483228800, 1, 86400, 1000000000, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll,
                                     8589934592ll, 253402300799ll});
  return std::max<int64_t>(1, t + (s.Bool() ? 0 : s.Int(-7200, 7200)));
}

// The time zone of the user: nothing the library and the tools compute or print
// may depend on it.
inline void GenZone(Source& s) {
  const int k = s.Chance(1, 3) ? 1 + s.Draw(5) : 0;
  const char* const zones[] = {"UTC", "Fixed/UTC+05:30:00", "Fixed/UTC-08:00:00", "America/New_York", "Asia/Kathmandu", "Fixed/UTC+14:00:00"};
  setenv("TZ", zones[k], 1);
}

// One test case.
struct Case {
  explicit Case(Source& source) : s(source) {}
  Source& s;
  // Set by the property when the case is non-trivial (by the stated rule).
  bool nontrivial = false;
  // Classification of the case (for the evidence).
  std::map<std::string, int> labels;
  // Human readable description; filled only when verbose.
  bool verbose = false;
  std::ostringstream desc;
  // The description is also written here at once (it survives a crash).
  std::string desc_path;
  template <typename F>
  void Describe(F print) {
    if (!verbose) return;
    print(desc);
    if (desc_path.empty()) return;
    if (FILE* f = std::fopen(desc_path.c_str(), "a")) {
      std::ostringstream os;
      print(os);
      std::fwrite(os.str().data(), 1, os.str().size(), f);
      std::fclose(f);
    }
  }

  void Label(const char* label, int n = 1) {
    if (n > 0) labels[label] += n;
  }
  void LabelIf(bool cond, const char* label) {
    if (cond) ++labels[label];
  }
};

#define PBT_FAIL(msg)                  \
  do {                                 \
    std::ostringstream pbt_os;         \
    pbt_os.precision(12);              \
    pbt_os << msg;                     \
    throw ::pbt::Failure{pbt_os.str()}; \
  } while (0)

#define PBT_CHECK(cond, msg)                                    \
  do {                                                          \
    if (!(cond)) PBT_FAIL("[" #cond "] " << msg);               \
  } while (0)

#define PBT_DESC(c, msg) (c).Describe([&](std::ostream& pbt_os) { pbt_os << msg; })

// Description of a property check; every property binary defines it.
struct Property {
  const char* id;
  const char* title;
  const char* rule;
  int64_t quick_cases;
  int64_t thorough_cases;
  void (*run)(Case&);
  // CPU time limit of a single case; exceeding it is a failure (a hang).
  int case_cpu_sec = 20;
  // Assumptions to be written to the evidence file.
  std::vector<std::string> assumptions;
  // Called once in every worker process before the first case.
  void (*init)() = nullptr;
  // Called once in every worker process after the last case.
  void (*done)() = nullptr;
  // Failures might depend on the schedule of threads: a failure is confirmed by
  // repeated executions of which a single one needs to fail again.
  bool schedules = false;
};

extern const Property kProperty;

// Path of a scratch directory private to this process (created on demand).
const std::string& ScratchDir();

}  // namespace pbt

#endif  // VERIF_HARNESS_PBT_H
