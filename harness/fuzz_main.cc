// libFuzzer entry point over the same properties (thorough tier). The bytes
// are decoded to the choices of the property's generator.
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <string>
#include <unistd.h>

#include "harness/pbt.h"

namespace pbt {
const std::string& ScratchDir() {
  static std::string dir;
  if (dir.empty()) {
    char tmpl[] = "/tmp/verif-fuzzdir-XXXXXX";
    dir = mkdtemp(tmpl);
    std::atexit([]() {
      std::error_code ec;
      std::filesystem::remove_all(dir, ec);
    });
  }
  return dir;
}
}  // namespace pbt

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0";
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static bool initialized = false;
  if (!initialized) {
    initialized = true;
    if (pbt::kProperty.init != nullptr) pbt::kProperty.init();
  }
  pbt::Source source(data, size);
  pbt::Case c(source);
  try {
    pbt::kProperty.run(c);
  } catch (const pbt::Failure& f) {
    std::fprintf(stderr, "PROPERTY FAILURE: %s\n", f.message.c_str());
    std::abort();
  }
  return 0;
}
