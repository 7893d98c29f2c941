// util/proto.h without zlib, in its own namespace.
#include "harness/codec.h"

#undef HAVE_ZLIB
#define trader trader_nozlib
#include "util/proto.h"
#undef trader

namespace codec {

template <typename T>
bool WriteNoZlib(const std::vector<T>& messages, bool compress, std::ostream& out) {
  return trader_nozlib::WriteDelimitedMessagesToOStream(messages.begin(), messages.end(), out, compress).ok();
}
template <typename T>
Read<T> ReadNoZlib(std::istream& in) {
  Read<T> r;
  const absl::Status status = trader_nozlib::ReadDelimitedMessagesFromIStream<T>(in, r.messages);
  r.ok = status.ok();
  r.code = static_cast<int>(status.code());
  return r;
}

#define INSTANTIATE(T)                                                        \
  template bool WriteNoZlib<T>(const std::vector<T>&, bool, std::ostream&);   \
  template Read<T> ReadNoZlib<T>(std::istream&);
INSTANTIATE(::trader::PriceRecord)
INSTANTIATE(::trader::OhlcTick)
INSTANTIATE(::trader::SideInputRecord)
INSTANTIATE(::trader::EvaluationResult)

}  // namespace codec
