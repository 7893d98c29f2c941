// The converter as a function.
#include "harness/convert_main.h"

#include <algorithm>
#include <map>
#include <sstream>

#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "absl/memory/memory.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_split.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"
#include "base/base.h"
#include "base/history.h"
#include "harness/cli.h"
#include "util/proto.h"
#include "util/time.h"

namespace google {
namespace protobuf {
inline void VerifShutdownProtobuf() {}
}  // namespace protobuf
}  // namespace google

#define exit VerifExit
#define ShutdownProtobufLibrary VerifShutdownProtobuf
#define main convert_tool_main
#include "convert.cc"
#undef main
#undef exit

int ConvertMain(int argc, char** argv) { return convert_tool_main(argc, argv); }
