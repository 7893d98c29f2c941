// C20: damaged input and failed writes.
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>

#include <fstream>

#include "harness/codec.h"
#include "util/proto.h"

namespace {
using namespace codec;  // NOLINT

// Accepts only the given number of bytes, or fails at the final flush. Like a
// full disk, optionally with a buffer of its own.
class LimitedBuf : public std::streambuf {
 public:
  LimitedBuf(size_t limit, size_t buffer) : limit_(limit), buffer_(buffer) {
    if (!buffer_.empty()) setp(buffer_.data(), buffer_.data() + buffer_.size());
  }
  const std::string& stored() const { return stored_; }

 protected:
  int_type overflow(int_type ch) override {
    if (!Drain()) return traits_type::eof();
    if (ch != traits_type::eof()) {
      const char x = static_cast<char>(ch);
      if (!buffer_.empty()) {
        *pptr() = x;
        pbump(1);
      } else if (!Store(&x, 1)) {
        return traits_type::eof();
      }
    }
    return traits_type::not_eof(ch);
  }
  int sync() override { return Drain() ? 0 : -1; }

 private:
  bool Drain() {
    const size_t n = pptr() - pbase();
    const bool ok = Store(pbase(), n);
    if (!buffer_.empty()) setp(buffer_.data(), buffer_.data() + buffer_.size());
    return ok;
  }
  bool Store(const char* data, size_t n) {
    const size_t k = std::min(n, limit_ - stored_.size());
    stored_.append(data, k);
    return k == n;
  }
  size_t limit_;
  std::vector<char> buffer_;
  std::string stored_;
};

// Fails (by an exception, which sets the bad bit) after the given number of bytes.
class FailingInput : public std::streambuf {
 public:
  FailingInput(const std::string& data, size_t chunk, size_t fail_after)
      : data_(data), chunk_(chunk), fail_after_(fail_after) {}

 protected:
  int_type underflow() override {
    if (pos_ >= fail_after_) throw std::runtime_error("I/O error");
    const size_t n = std::min(chunk_, fail_after_ - pos_);
    char* p = &data_[pos_];
    setg(p, p, p + n);
    pos_ += n;
    return traits_type::to_int_type(*p);
  }

 private:
  std::string data_;
  size_t chunk_;
  size_t fail_after_;
  size_t pos_ = 0;
};

// Input that is available in small pieces only.
class ChunkedInput : public std::streambuf {
 public:
  ChunkedInput(const std::string& data, size_t chunk) : data_(data), chunk_(chunk) {}

 protected:
  int_type underflow() override {
    if (pos_ >= data_.size()) return traits_type::eof();
    const size_t n = std::min(chunk_, data_.size() - pos_);
    char* p = &data_[pos_];
    setg(p, p, p + n);
    pos_ += n;
    return traits_type::to_int_type(*p);
  }

 private:
  std::string data_;
  size_t chunk_;
  size_t pos_ = 0;
};

// Independent decompression: what can be decoded of (cut) gzip data.
std::string Decode(const std::string& data, bool* intact = nullptr) {
  z_stream z;
  std::memset(&z, 0, sizeof(z));
  if (inflateInit2(&z, 15 + 32) != Z_OK) return "";
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(data.data()));
  z.avail_in = data.size();
  std::string out;
  std::vector<char> buffer(1 << 16);
  int last = Z_OK;
  while (true) {
    z.next_out = reinterpret_cast<Bytef*>(buffer.data());
    z.avail_out = buffer.size();
    const int code = inflate(&z, Z_NO_FLUSH);
    const size_t n = buffer.size() - z.avail_out;
    out.append(buffer.data(), n);
    last = code;
    if (code != Z_OK || n == 0) break;
  }
  if (intact != nullptr) *intact = last == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return out;
}

template <typename T>
std::string Written(const std::vector<T>& v, bool compress) {
  std::ostringstream out;
  const absl::Status status = trader::WriteDelimitedMessagesToOStream(v.begin(), v.end(), out, compress);
  PBT_CHECK(status.ok(), "writing: " << status.message());
  return out.str();
}

template <typename T>
bool ReadAll(pbt::Source& s, const std::string& data, std::vector<T>* got, std::string* error) {
  absl::Status status;
  switch (s.Weighted({4, 1, 1})) {
    case 0: {
      std::istringstream in(data);
      status = trader::ReadDelimitedMessagesFromIStream<T>(in, *got);
      break;
    }
    case 1: {
      ChunkedInput buf(data, s.Pick({1, 7, 100, 5000}));
      std::istream in(&buf);
      status = trader::ReadDelimitedMessagesFromIStream<T>(in, *got);
      break;
    }
    default: {
      const std::string path = pbt::ScratchDir() + "/damaged";
      std::ofstream(path, std::ios::binary | std::ios::trunc) << data;
      status = trader::ReadDelimitedMessagesFromFile<T>(path, *got);
      ::unlink(path.c_str());
    }
  }
  *error = std::string(status.message());
  return status.ok();
}

std::string Hex(const std::string& s) {
  std::ostringstream os;
  for (size_t i = 0; i < s.size() && i < 300; ++i) {
    char b[4];
    std::snprintf(b, sizeof(b), "%02x", static_cast<unsigned char>(s[i]));
    os << b;
  }
  if (s.size() > 300) os << "...";
  return os.str();
}

template <typename T>
void Check(pbt::Case& c, const char* type) {
  auto& s = c.s;
  const int mode = s.Weighted({4, 4, 2, 3, 2, 1});
  std::vector<T> v;
  if (mode != 2) v = GenMessages<T>(s, 20, 20000, 500);
  const bool compress = s.Bool();
  std::vector<T> got;
  std::string error;
  PBT_DESC(c, v.size() << " messages of the type " << type << ", compress=" << compress << "\n");
  for (size_t i = 0; i < v.size() && i < 5; ++i) PBT_DESC(c, "  " << v[i].ShortDebugString().substr(0, 200) << "\n");
  switch (mode) {
    case 0: {  // Cut.
      if (s.Chance(1, 8)) {
        // Without zlib, cut, possibly followed by garbage.
        std::ostringstream out;
        PBT_CHECK(WriteNoZlib(v, compress, out), "writing without zlib");
        std::string data = out.str();
        const size_t cut = s.Draw(data.size() + 1);
        data.resize(cut);
        size_t length = 0, k = 0;
        while (k < v.size() && length < cut) {
          const size_t m = v[k].ByteSizeLong();
          length += m + 1;
          for (size_t x = m; x >= 128; x >>= 7) ++length;
          ++k;
        }
        const bool garbage = length == cut && s.Chance(1, 4);
        if (garbage) data += std::string(16, '\xff');
        std::istringstream in(data);
        const Read<T> r = ReadNoZlib<T>(in);
        PBT_DESC(c, "without zlib, cut after " << cut << " bytes" << (garbage ? " followed by garbage" : "") << "\n");
        PBT_CHECK(r.ok == (length == cut && !garbage), "without zlib, the file cut after " << cut << " bytes was "
                                                                                          << (r.ok ? "" : "not ") << "read");
        if (!garbage) PBT_CHECK(IsPrefix(r.messages, v), "without zlib, the messages are not a prefix");
        c.Label("cut without zlib");
        c.nontrivial = true;
        break;
      }
      std::string data = Written(v, compress);
      const size_t total = data.size();
      const size_t cut = s.Weighted({3, 1, 1}) == 0 ? s.Draw(total)
                                                    : (s.Bool() ? total - 1 - s.Draw(std::min<size_t>(total, 24))
                                                                : s.Draw(std::min<size_t>(total, 40)));
      data.resize(cut);
      PBT_DESC(c, "cut after " << cut << " of " << total << " bytes\n");
      const bool ok = ReadAll(s, data, &got, &error);
      PBT_CHECK(IsPrefix(got, v), "the messages of the cut file are not a prefix of the written ones");
      if (ok) {
        // Not within a message.
        const std::string plain = Decode(data);
        size_t length = 0, k = 0;
        while (k < v.size() && length < plain.size()) {
          size_t m = v[k].ByteSizeLong();
          length += m + 1;
          for (size_t x = m; x >= 128; x >>= 7) ++length;
          ++k;
        }
        PBT_CHECK(length == plain.size(), "file cut within the message " << k << " of " << v.size() << " (after "
                                              << cut << " of " << total << " bytes) was read successfully");
        PBT_CHECK(cut == 0, "compressed stream of " << total << " bytes cut after " << cut << " was read successfully");
      }
      c.nontrivial = cut > 0;
      c.Label("cut");
      c.LabelIf(!got.empty() && !ok, "cut with some messages");
      break;
    }
    case 1: {  // Corrupted.
      std::string data = Written(v, compress);
      const size_t at = s.Weighted({3, 1, 1}) == 0
                            ? s.Draw(data.size())
                            : (s.Bool() ? data.size() - 1 - s.Draw(std::min<size_t>(data.size(), 12))
                                        : s.Draw(std::min<size_t>(data.size(), 30)));
      const int n = s.Chance(1, 4) ? s.Int(2, 4) : 1;
      bool changed = false;
      for (int i = 0; i < n && at + i < data.size(); ++i) {
        const uint8_t mask = s.Bool() ? 1 << s.Draw(8) : 1 + s.Draw(255);
        data[at + i] = static_cast<char>(data[at + i] ^ mask);
        changed = true;
      }
      PBT_DESC(c, "corrupted " << n << " bytes from " << at << " of " << data.size() << ": " << Hex(data) << "\n");
      const bool ok = ReadAll(s, data, &got, &error);
      // A few bits (e.g. the time in the header, or padding) do not matter.
      bool intact = false;
      Decode(data, &intact);
      PBT_CHECK(ok == intact, "corrupted file (at " << at << " of " << data.size() << ") was "
                                                  << (ok ? "read successfully: " : "not read although only unused bits differ: ")
                                                  << got.size() << " of " << v.size() << " messages");
      if (ok) {
        PBT_CHECK(got.size() == v.size() && IsPrefix(got, v),
                  "corrupted file was read as other messages: " << got.size() << " of " << v.size());
      }
      c.nontrivial = changed && !intact;
      c.Label(at < 10 ? "corrupted header" : (at + 8 >= data.size() ? "corrupted checksum" : "corrupted payload"));
      break;
    }
    case 2: {  // Arbitrary bytes: no crash, no hang.
      std::string data;
      const int n = s.Size(0, 400);
      if (s.Bool()) data = std::string("\x1f\x8b\x08\0\0\0\0\0\0\x03", 10);
      for (int i = 0; i < n; ++i) data.push_back(static_cast<char>(s.Draw(256)));
      if (s.Chance(1, 3)) {
        // Valid container with arbitrary content.
        std::string plain = data;
        data.resize(plain.size() + 1000);
        z_stream z;
        std::memset(&z, 0, sizeof(z));
        deflateInit2(&z, compress ? 6 : 0, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
        z.next_in = reinterpret_cast<Bytef*>(&plain[0]);
        z.avail_in = plain.size();
        z.next_out = reinterpret_cast<Bytef*>(&data[0]);
        z.avail_out = data.size();
        deflate(&z, Z_FINISH);
        data.resize(data.size() - z.avail_out);
        deflateEnd(&z);
        c.Label("arbitrary content");
      }
      PBT_DESC(c, "bytes " << Hex(data) << "\n");
      const bool ok = ReadAll(s, data, &got, &error);
      size_t bytes = 0;
      for (const T& m : got) bytes += m.ByteSizeLong() + 1;
      PBT_CHECK(bytes <= 1100 * (data.size() + 64), bytes << " bytes of messages from " << data.size() << " bytes");
      std::string plain = data;
      std::istringstream in(data);
      const Read<T> r = ReadNoZlib<T>(in);
      c.nontrivial = data.size() > 10;
      c.Label("arbitrary bytes");
      c.LabelIf(ok && !got.empty(), "arbitrary bytes read as messages");
      c.LabelIf(r.ok && !r.messages.empty(), "arbitrary bytes read as messages without zlib");
      break;
    }
    case 3: {  // Output that fails.
      const size_t size = Written(v, compress).size();
      const size_t limit = s.Weighted({3, 1, 1}) == 0 ? s.Draw(size + 1)
                                                      : (s.Bool() ? size - s.Draw(std::min<size_t>(size, 20) + 1)
                                                                  : s.Draw(std::min<size_t>(size, 20)));
      LimitedBuf buf(limit, s.Pick({0, 1, 16, 1000, 100000}));
      std::ostream out(&buf);
      if (!v.empty() && s.Chance(1, 12)) {
        // The output has failed before.
        out.setstate(s.Pick({std::ios::failbit, std::ios::badbit, std::ios::failbit | std::ios::eofbit}));
        const absl::Status status = trader::WriteDelimitedMessagesToOStream(v.begin(), v.end(), out, compress);
        PBT_CHECK(!status.ok(), "write to an output that failed before: OK");
        c.nontrivial = true;
        c.Label("output that failed before");
        break;
      }
      const absl::Status status = trader::WriteDelimitedMessagesToOStream(v.begin(), v.end(), out, compress);
      PBT_DESC(c, "output accepts " << limit << " of " << size << " bytes: " << status.message() << "\n");
      PBT_CHECK(status.ok() == (limit >= size), "write to an output that accepts " << limit << " of " << size
                                                   << " bytes: " << (status.ok() ? "OK" : "failed"));
      if (status.ok()) {
        std::istringstream in(buf.stored());
        PBT_CHECK(trader::ReadDelimitedMessagesFromIStream<T>(in, got).ok() && IsPrefix(got, v) &&
                      got.size() == v.size(),
                  "successful write stored other messages");
      }
      c.nontrivial = limit < size;
      c.Label("failing output");
      break;
    }
    case 4: {  // Input that fails.
      if (s.Chance(1, 4) && !v.empty()) {
        // The reader refuses a message.
        std::istringstream in(Written(v, compress));
        const size_t stop = 1 + s.Draw(v.size());
        const auto code = static_cast<absl::StatusCode>(s.Int(1, 16));
        size_t calls = 0;
        const absl::Status status = trader::ReadDelimitedMessagesFromIStream<T>(
            in, std::function<trader::ReaderStatus(const T&)>([&](const T& m) -> trader::ReaderStatus {
              if (++calls == stop) return absl::Status(code, "refused");
              got.push_back(m);
              return trader::ReaderSignal::kContinue;
            }));
        PBT_CHECK(!status.ok(), "the error " << static_cast<int>(code) << " of the reader at the message " << stop << " of "
                                             << v.size() << " was passed as success");
        PBT_CHECK(calls == stop && IsPrefix(got, v), "the reader was called " << calls << " times instead of " << stop);
        c.nontrivial = true;
        c.Label("failing reader");
        break;
      }
      std::string data = Written(v, compress);
      const size_t after = s.Bool() ? s.Draw(data.size()) : data.size() - 1 - s.Draw(std::min<size_t>(data.size(), 24));
      FailingInput buf(data, s.Pick({1, 16, 1000, 100000}), after);
      std::istream in(&buf);
      const absl::Status status = trader::ReadDelimitedMessagesFromIStream<T>(in, got);
      PBT_DESC(c, "input fails after " << after << " of " << data.size() << " bytes: " << status.message() << "\n");
      PBT_CHECK(!status.ok(), "input that fails after " << after << " of " << data.size()
                                                        << " bytes was read successfully: " << got.size() << " of "
                                                        << v.size() << " messages");
      PBT_CHECK(IsPrefix(got, v), "the messages of the failed input are not a prefix of the written ones");
      c.nontrivial = true;
      c.Label("failing input");
      break;
    }
    default: {  // Files.
      const std::string dir = pbt::ScratchDir();
      switch (s.Draw(5)) {
        case 0:
          PBT_CHECK(!trader::ReadDelimitedMessagesFromFile<T>(dir + "/missing", got).ok(), "missing file was read");
          break;
        case 1:
          PBT_CHECK(!trader::ReadDelimitedMessagesFromFile<T>(dir, got).ok(), "a directory was read");
          break;
        case 2:
          PBT_CHECK(!trader::WriteDelimitedMessagesToFile(v.begin(), v.end(), dir + "/no/such", compress).ok(),
                    "write into a missing directory");
          break;
        case 3:
          PBT_CHECK(!trader::WriteDelimitedMessagesToFile(v.begin(), v.end(), dir, compress).ok(),
                    "write over a directory");
          break;
        default:
          PBT_CHECK(!trader::WriteDelimitedMessagesToFile(v.begin(), v.end(), "/dev/full", compress).ok(),
                    "write of " << v.size() << " messages to a full device succeeded");
      }
      PBT_CHECK(got.empty(), "messages from nowhere");
      c.nontrivial = true;
      c.Label("files that cannot be opened or written");
    }
  }
}

void Run(pbt::Case& c) {
  switch (c.s.Draw(4)) {
    case 0: Check<trader::OhlcTick>(c, "OhlcTick"); break;
    case 1: Check<trader::PriceRecord>(c, "PriceRecord"); break;
    case 2: Check<trader::SideInputRecord>(c, "SideInputRecord"); break;
    default: Check<trader::EvaluationResult>(c, "EvaluationResult");
  }
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C20", "Damaged input and failed writes are reported, never passed as success",
    "Fault injection: files (with and without compression) cut at any byte, corrupted by bit flips and up to four "
    "changed bytes anywhere, arbitrary bytes as such and within a valid container, outputs that accept only some of "
    "the bytes (with and without buffering, /dev/full), inputs that fail in the middle, readers that fail with any error code, files that cannot be opened. "
    "Non-trivial: a real fault was injected.",
    150000, 4000000, Run, 20,
    {"Only the build with zlib (the one in use) detects corruption. An empty file holds no messages."}};
