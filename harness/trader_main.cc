// The trader tool as a function.
#include "harness/trader_main.h"

#include <algorithm>
#include <map>
#include <sstream>

#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "absl/memory/memory.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_split.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"
#include "base/base.h"
#include "base/history.h"
#include "base/side_input.h"
#include "eval/eval.h"
#include "harness/cli.h"
#include "logging/csv_logger.h"
#include "traders/trader_factory.h"
#include "util/proto.h"
#include "util/time.h"

namespace google {
namespace protobuf {
inline void VerifShutdownProtobuf() {}
}  // namespace protobuf
}  // namespace google

#define exit VerifExit
#define ShutdownProtobufLibrary VerifShutdownProtobuf
#define main trader_tool_main
#include "trader.cc"
#undef main
#undef exit

int TraderMain(int argc, char** argv) { return trader_tool_main(argc, argv); }
