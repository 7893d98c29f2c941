// C19: round trip of messages.
#include <unistd.h>

#include <fstream>
#include <list>

#include "harness/codec.h"
#include "util/proto.h"

namespace {
using namespace codec;  // NOLINT

// Pipes have no positions.
class PipeBuf : public std::streambuf {
 public:
  PipeBuf(std::string data, size_t chunk) : data_(std::move(data)), chunk_(chunk) {}

 protected:
  int_type underflow() override {
    if (next_ >= data_.size()) return traits_type::eof();
    const size_t n = std::min(chunk_, data_.size() - next_);
    setg(&data_[next_], &data_[next_], &data_[next_] + n);
    next_ += n;
    return traits_type::to_int_type(*gptr());
  }

 private:
  std::string data_;
  size_t chunk_, next_ = 0;
};
using trader::ReaderSignal;
using trader::ReaderStatus;

template <typename T>
void CheckSame(const std::vector<T>& got, const std::vector<T>& want, const char* what) {
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    PBT_CHECK(Same(got[i], want[i]), what << ": message " << i << " of " << want.size() << " differs: "
                                          << got[i].ShortDebugString().substr(0, 200) << " instead of "
                                          << want[i].ShortDebugString().substr(0, 200));
  }
  PBT_CHECK(got.size() == want.size(), what << ": " << got.size() << " messages instead of " << want.size());
}

template <typename T>
void Check(pbt::Case& c, const char* type) {
  auto& s = c.s;
  std::vector<T> v = GenMessages<T>(s, 30, 70000, 4000);
  // Rarely there is a huge message, or a huge number of messages.
  if (s.Chance(1, 3000)) {
    if (s.Bool()) {
      v.emplace_back();
      Fill(s, &v.back(), s.Pick({300000, 3000000, 20000000}));
    } else if (!v.empty() && v.back().ByteSizeLong() < 100) {
      const T last = v.back();
      v.resize(v.size() + s.Pick({33000, 66000, 140000}), last);
    }
  }
  const bool compress = s.Bool();
  size_t bytes = 0, largest = 0;
  for (const T& m : v) {
    bytes += m.ByteSizeLong();
    largest = std::max(largest, m.ByteSizeLong());
  }
  PBT_DESC(c, v.size() << " messages of the type " << type << " with " << bytes << " bytes (at most " << largest
                       << "), compress=" << compress << "\n");
  for (size_t i = 0; i < v.size() && i < 8; ++i) PBT_DESC(c, "  " << v[i].ShortDebugString().substr(0, 200) << "\n");
  const int route = s.Weighted({5, 2, 2, 1});
  std::vector<T> got;
  absl::Status status;
  if (route == 1) {
    // Through a file that already has some other content.
    const std::string path = pbt::ScratchDir() + "/messages";
    if (s.Bool()) {
      std::ofstream(path, std::ios::binary | std::ios::trunc) << std::string(s.Draw(200000), 'x');
    }
    status = trader::WriteDelimitedMessagesToFile(v.begin(), v.end(), path, compress);
    PBT_CHECK(status.ok(), "writing the file: " << status.message());
    status = trader::ReadDelimitedMessagesFromFile<T>(path, got);
    ::unlink(path.c_str());
    c.Label("through a file");
  } else if (route == 3) {
    // Build without zlib.
    std::stringstream stream;
    PBT_CHECK(WriteNoZlib(v, compress, stream), "writing without zlib");
    Read<T> r = ReadNoZlib<T>(stream);
    PBT_CHECK(r.ok, "reading without zlib ended with " << r.code);
    CheckSame(r.messages, v, "without zlib");
    c.Label("without zlib");
    c.nontrivial = v.size() >= 2 && bytes > 0;
    return;
  } else {
    std::stringstream buffer;
    // The stream can have some other content before the messages.
    std::string head;
    if (s.Chance(1, 4)) {
      head.assign(s.Pick({1, 2, 10, 100, 8192, 20000}), 'x');
      buffer << head;
      c.Label("after other content");
    }
    // Any input iterator will do.
    if (s.Chance(1, 4)) {
      const std::list<T> list(v.begin(), v.end());
      status = trader::WriteDelimitedMessagesToOStream(list.begin(), list.end(), buffer, compress);
    } else {
      status = trader::WriteDelimitedMessagesToOStream(v.begin(), v.end(), buffer, compress);
    }
    PBT_CHECK(status.ok(), "writing the stream: " << status.message());
    const std::string written = buffer.str();
    PBT_CHECK(written.compare(0, head.size(), head) == 0, "the content before the messages was changed");
    std::unique_ptr<std::streambuf> pipe;
    if (s.Chance(1, 4)) {
      pipe.reset(new PipeBuf(written.substr(head.size()), s.Pick({1, 7, 100, 8192, 1 << 20})));
      c.Label("stream without positions");
    }
    std::istream stream(pipe ? pipe.get() : buffer.rdbuf());
    if (!pipe) stream.ignore(head.size());
    // Compression is worth it for repeated messages.
    if (v.size() > 1000 && compress) {
      PBT_CHECK(written.size() - head.size() < bytes + v.size(),
                written.size() - head.size() << " bytes for compressed " << bytes + v.size());
    }
    if (route == 2) {
      // Reader that stops or fails.
      const size_t stop = s.Draw(v.size() + 2);
      const bool fail = s.Bool();
      const auto code = static_cast<absl::StatusCode>(s.Int(1, 16));
      size_t calls = 0;
      status = trader::ReadDelimitedMessagesFromIStream<T>(
          stream, std::function<ReaderStatus(const T&)>([&](const T& m) -> ReaderStatus {
            ++calls;
            got.push_back(m);
            if (calls == stop) {
              if (fail) return absl::Status(code, "stop");
              return ReaderSignal::kBreak;
            }
            return ReaderSignal::kContinue;
          }));
      const bool stopped = stop >= 1 && stop <= v.size();
      PBT_CHECK(status.ok() == !(stopped && fail), "reader that " << (fail ? "fails" : "stops") << " at " << stop
                                                                 << " of " << v.size() << ": " << status.message());
      const size_t n = stopped ? stop : v.size();
      CheckSame(got, std::vector<T>(v.begin(), v.begin() + n), "messages passed to the reader");
      c.LabelIf(stopped, fail ? "failing reader" : "stopping reader");
      c.nontrivial = v.size() >= 2 && bytes > 0;
      return;
    }
    status = trader::ReadDelimitedMessagesFromIStream<T>(stream, got);
  }
  PBT_CHECK(status.ok(), "reading: " << status.message());
  CheckSame(got, v, "messages");
  c.nontrivial = v.size() >= 2 && bytes > 0;
  c.LabelIf(v.empty(), "no messages");
  c.LabelIf(bytes == 0 && !v.empty(), "empty messages only");
  c.LabelIf(largest > 8192, "message over 8 kB");
  c.LabelIf(largest > 65536, "message over 64 kB");
  c.LabelIf(v.size() > 100, "more than 100 messages");
  c.LabelIf(compress, "compressed");
}

void Run(pbt::Case& c) {
  switch (c.s.Draw(4)) {
    case 0: Check<trader::OhlcTick>(c, "OhlcTick"); break;
    case 1: Check<trader::PriceRecord>(c, "PriceRecord"); break;
    case 2: Check<trader::SideInputRecord>(c, "SideInputRecord"); break;
    default: Check<trader::EvaluationResult>(c, "EvaluationResult");
  }
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C19", "Written messages are read back identically, compressed or not",
    "Sequences of up to 4000 messages (rarely 140000 small ones) of four types (unset fields, empty messages, arbitrary bit patterns, messages "
    "of up to 70 kB with sizes around the borders of varints and buffers), written to a stream or over an existing "
    "file or after other content of a stream (with or without positions) with or without compression (and by the build without zlib), read as a whole or by a callback that stops "
    "or fails (with any error code) at a random message. Non-trivial: at least two messages and not only empty ones.",
    45000, 2000000, Run, 20, {}};
