// Generated message sequences and access to both builds of util/proto.h.
#ifndef VERIF_HARNESS_CODEC_H
#define VERIF_HARNESS_CODEC_H

#include <sstream>
#include <string>
#include <vector>

#include "base/base.pb.h"
#include "eval/eval.pb.h"
#include "harness/pbt.h"

namespace codec {

// Result of reading: status code (0 is OK) and the messages.
template <typename T>
struct Read {
  bool ok = false;
  int code = 0;
  std::vector<T> messages;
};

inline float GenFloat(pbt::Source& s) {
  switch (s.Draw(6)) {
    case 0: return s.Draw(100);
    case 1: return s.Draw(1 << 20) / 1024.0f;
    case 2: return s.Pick({0.0f, -0.0f, 1e-45f, 3.4e38f, -1.5f, std::numeric_limits<float>::infinity()});
    default: {
      uint32_t bits = s.Draw(1ull << 32);
      float f;
      std::memcpy(&f, &bits, sizeof(f));
      return f;
    }
  }
}
inline int64_t GenTimestamp(pbt::Source& s) {
  switch (s.Draw(4)) {
    case 0: return s.Draw(300);
    case 1: return 1483228800 + 300 * static_cast<int64_t>(s.Draw(100000));
    case 2: return s.Pick<int64_t>({0, -1, INT64_MAX, INT64_MIN, 127, 128, 16383, 16384});
    default: return static_cast<int64_t>(s.Draw(1ull << 62));
  }
}

// Number of elements that gives sizes around varint and buffer borders.
inline int64_t GenLength(pbt::Source& s, int64_t max) {
  switch (s.Weighted({8, 4, 2, 1})) {
    case 0: return s.Draw(4);
    case 1: return s.Draw(40);
    case 2: return std::min<int64_t>(max, s.Pick({24, 25, 31, 2047, 3276, 3277, 4096, 8192}) + s.Int(-3, 3));
    default: return s.Draw(max + 1);
  }
}

inline void Fill(pbt::Source& s, trader::PriceRecord* r, int64_t) {
  if (s.Chance(15, 16)) r->set_timestamp_sec(GenTimestamp(s));
  if (s.Chance(15, 16)) r->set_price(GenFloat(s));
  if (s.Chance(15, 16)) r->set_volume(GenFloat(s));
}
inline void Fill(pbt::Source& s, trader::OhlcTick* r, int64_t) {
  if (s.Chance(15, 16)) r->set_timestamp_sec(GenTimestamp(s));
  if (s.Chance(15, 16)) r->set_open(GenFloat(s));
  if (s.Chance(15, 16)) r->set_high(GenFloat(s));
  if (s.Chance(15, 16)) r->set_low(GenFloat(s));
  if (s.Chance(15, 16)) r->set_close(GenFloat(s));
  if (s.Chance(15, 16)) r->set_volume(GenFloat(s));
}
inline void Fill(pbt::Source& s, trader::SideInputRecord* r, int64_t max) {
  if (s.Chance(15, 16)) r->set_timestamp_sec(GenTimestamp(s));
  const int64_t n = GenLength(s, max / 5);
  // Long messages are derived from a few choices only.
  const uint64_t seed = s.Draw(1 << 16);
  const bool repetitive = s.Bool();
  for (int64_t i = 0; i < n; ++i) {
    uint32_t bits = repetitive ? 0x3f800000 : static_cast<uint32_t>(pbt::Mix(seed + i));
    float f;
    std::memcpy(&f, &bits, sizeof(f));
    r->add_signal(f);
  }
}
inline void Fill(pbt::Source& s, trader::EvaluationResult* r, int64_t max) {
  if (s.Chance(7, 8)) {
    std::string name;
    const int64_t n = GenLength(s, max);
    const uint64_t seed = s.Draw(1 << 16);
    for (int64_t i = 0; i < n; ++i) name.push_back(static_cast<char>(' ' + pbt::Mix(seed + i) % 95));
    r->set_name(name);
  }
  if (s.Bool()) r->set_score(GenFloat(s));
  const int periods = s.Draw(3);
  for (int i = 0; i < periods; ++i) {
    auto* p = r->add_period();
    p->set_start_timestamp_sec(GenTimestamp(s));
    if (s.Bool()) p->mutable_result()->set_end_value(GenFloat(s));
  }
}

inline void SetTimestamp(trader::PriceRecord* r, int64_t t) { r->set_timestamp_sec(t); }
inline void SetTimestamp(trader::OhlcTick* r, int64_t t) { r->set_timestamp_sec(t); }
inline void SetTimestamp(trader::SideInputRecord* r, int64_t t) { r->set_timestamp_sec(t); }
inline void SetTimestamp(trader::EvaluationResult* r, int64_t t) { r->set_score(t); }

// Adds messages so that the total length is at (or next to) a multiple of the
// size of a buffer.
template <typename T>
void Pad(pbt::Source& s, std::vector<T>* v) {
  auto length = [](const T& m) {
    const int64_t size = m.ByteSizeLong();
    int64_t bytes = size + 1;
    for (int64_t n = size >> 7; n > 0; n >>= 7) ++bytes;
    return bytes;
  };
  int64_t total = 0;
  for (const T& m : *v) total += length(m);
  const int64_t buffer = s.Pick({65536, 8192, 32768, 4096});
  int64_t target = (total / buffer + 1 + s.Draw(2)) * buffer + (s.Bool() ? 0 : s.Int(-20, 20));
  const T last = v->back();
  const int64_t step = length(last);
  // At most 3000 messages are added.
  if (step < 8 && target - total > 3000) return;
  while (step > 1 && total + step <= target) {
    v->push_back(last);
    total += step;
  }
  for (; total < target; ++total) v->emplace_back();
}

// Sequence of messages; "many" of them are derived from few choices.
template <typename T>
std::vector<T> GenMessages(pbt::Source& s, int max_count, int64_t max_size, int max_repeated) {
  std::vector<T> v;
  const int n = s.Size(0, max_count);
  for (int i = 0; i < n; ++i) {
    v.emplace_back();
    if (!s.Chance(1, 12)) Fill(s, &v.back(), max_size);
  }
  if (max_repeated > 0 && !v.empty() && s.Chance(1, 8)) {
    size_t bytes = 1;
    for (const T& m : v) bytes += m.ByteSizeLong();
    const int64_t repeats = std::min<int64_t>(max_repeated, 400000 / static_cast<int64_t>(bytes) + 1);
    const int64_t total = s.Draw(repeats * n + 1);
    for (int64_t i = n; i < total; ++i) {
      v.push_back(T(v[i % n]));
      const int64_t t = static_cast<int64_t>(i) * 300;
      SetTimestamp(&v.back(), t);
    }
  }
  if (!v.empty() && s.Chance(1, 12)) Pad(s, &v);
  return v;
}
template <typename T>
bool Same(const T& a, const T& b) {
  return a.SerializeAsString() == b.SerializeAsString();
}
// The first is a prefix of the second one.
template <typename T>
bool IsPrefix(const std::vector<T>& a, const std::vector<T>& b) {
  if (a.size() > b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (!Same(a[i], b[i])) return false;
  }
  return true;
}

// Reading and writing without zlib (defined in codec_nozlib.cc).
template <typename T>
bool WriteNoZlib(const std::vector<T>& messages, bool compress, std::ostream& out);
template <typename T>
Read<T> ReadNoZlib(std::istream& in);
// Whether the messages are stored without any container.
template <typename T>
std::string Plain(const std::vector<T>& messages);

}  // namespace codec

#endif  // VERIF_HARNESS_CODEC_H
