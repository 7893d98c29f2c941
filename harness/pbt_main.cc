// Runner of the property-based testing engine: parallel search in forked
// workers, crash / hang isolation, shrinking, replay files, and evidence.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <unordered_set>

#include "harness/pbt.h"

#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#endif
#endif

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=2500:"
         "detect_stack_use_after_return=0:allocator_may_return_null=0:"
         "handle_abort=0";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:abort_on_error=1";
}
// Data races end the process within the case that has them.
extern "C" const char* __tsan_default_options() {
  return "halt_on_error=1:abort_on_error=1";
}

namespace pbt {
namespace {

std::string scratch_root;
std::string scratch_dir;
pid_t scratch_pid = 0;

double Now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

struct Options {
  std::string tier = "quick";
  int64_t seed = 1;
  int jobs = 8;
  int64_t cases = -1;
  double max_wall = 0;
  std::string evidence;
  std::string replay_dir = ".";
  std::string replay;
  std::string shrink_bytes;
};

// Shared between the parent and one worker.
struct Slot {
  std::atomic<int64_t> current{-1};
  std::atomic<int64_t> done{0};
  std::atomic<int> finished{0};
};

uint64_t HashStr(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
  return h;
}

uint64_t CaseSeed(int64_t seed, int64_t index) {
  return Mix(Mix(Mix(static_cast<uint64_t>(seed)) ^ HashStr(kProperty.id)) +
             static_cast<uint64_t>(index));
}

uint64_t HashChoices(const std::vector<uint64_t>& v) {
  uint64_t h = 0x12345;
  for (uint64_t x : v) h = Mix(h ^ x) + 0x9e3779b9;
  return h;
}

// Some of the cases are followed by an echo in the same process: the same case once
// more, or with a few of the choices changed. What the code under test remembers of
// the case must not change the answers for the similar one. Returns zero if there is
// no echo, otherwise the seed of it.
uint64_t EchoSeed(int64_t seed, int64_t index) {
  const uint64_t h = Mix(CaseSeed(seed, index) ^ 0xec40);
  return !kProperty.schedules && h % 8 == 0 ? h | 1 : 0;
}

std::vector<uint64_t> Echo(std::vector<uint64_t> v, uint64_t seed) {
  auto next = [&seed]() { return seed = Mix(seed); };
  if (v.empty() || next() % 4 == 0) return v;
  for (int n = 1 + next() % 3; n > 0; --n) {
    const size_t i = next() % v.size();
    switch (next() % 6) {
      case 0: v[i] += 1; break;
      case 1: v[i] -= v[i] > 0; break;
      case 2: v[i] = next() % (2 * std::min<uint64_t>(v[i], 1ull << 40) + 4); break;
      case 3: v[i] = next() >> 1; break;
      case 4: std::swap(v[i], v[next() % v.size()]); break;
      default: std::swap(v[i], v[std::min<size_t>(v.size() - 1, i + 1 + next() % 12)]);
    }
  }
  return v;
}

void SetCpuTimer(int sec) {
  struct itimerval t;
  std::memset(&t, 0, sizeof(t));
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}

std::string JsonEscape(const std::string& s) {
  std::string out;
  char buf[8];
  for (unsigned char c : s) {
    switch (c) {
      case '"': out += "\\\""; break;
      case '\\': out += "\\\\"; break;
      case '\n': out += "\\n"; break;
      case '\t': out += "\\t"; break;
      default:
        if (c < 0x20 || c >= 0x7f) {
          std::snprintf(buf, sizeof(buf), "\\u%04x", c);
          out += buf;
        } else {
          out += static_cast<char>(c);
        }
    }
  }
  return out;
}

// Result of the execution of one choice sequence in a child process.
struct Outcome {
  enum Kind { kPass, kFail, kCrash, kHang, kKilled } kind = kPass;
  std::string message;
  std::string desc;
  std::vector<uint64_t> choices;  // Normalized choices actually used.
  size_t position = 0;  // The last case executed (the one that failed).
  bool failed() const { return kind == kFail || kind == kCrash || kind == kHang; }
};

std::string ReadFile(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

void QuietStderr(const std::string& path) {
  const int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
}

void WriteAll(int fd, const std::string& s) {
  size_t off = 0;
  while (off < s.size()) {
    const ssize_t n = write(fd, s.data() + off, s.size() - off);
    if (n <= 0) return;
    off += n;
  }
}

// A case to be executed, and the seed of its echo (if any).
struct Item {
  explicit Item(Source source, uint64_t echo_seed = 0) : source(std::move(source)), echo_seed(echo_seed) {}
  Source source;
  uint64_t echo_seed;
};

// Executes the cases (and their echoes) one after another in a forked child until one
// of them fails. Returns the choices of the given case (when it was executed without a
// crash). The choices of all the cases are written to the memory (if any), size numbers
// for every one of them.
Outcome ExecuteSequence(std::vector<Item> items, size_t wanted, int cpu_sec, bool verbose,
                        uint64_t* memory = nullptr, size_t size = 0) {
  static std::atomic<size_t>* const position = static_cast<std::atomic<size_t>*>(
      mmap(nullptr, sizeof(std::atomic<size_t>), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  position->store(0);
  const std::string out_path = scratch_root + "/outcome";
  const std::string err_path = scratch_root + "/stderr";
  const std::string desc_path = scratch_root + "/desc";
  unlink(out_path.c_str());
  unlink(err_path.c_str());
  unlink(desc_path.c_str());
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    QuietStderr(err_path);
    if (kProperty.init != nullptr) kProperty.init();
    std::string status = "P\n";
    std::string descs;
    int code = 0;
    auto run = [&](Source& source, const char* heading) {
      if (memory != nullptr) source.Mirror(memory + position->load() * size, size);
      SetCpuTimer(cpu_sec);
      Case c(source);
      c.verbose = verbose;
      if (verbose) c.desc_path = desc_path;
      if (heading != nullptr) PBT_DESC(c, heading);
      try {
        kProperty.run(c);
      } catch (const Failure& f) {
        std::string msg = f.message;
        for (char& ch : msg) {
          if (ch == '\n') ch = ' ';
        }
        status = "F" + msg + "\n";
        code = 3;
      } catch (const std::exception& e) {
        std::string msg = e.what();
        for (char& ch : msg) {
          if (ch == '\n') ch = ' ';
        }
        status = "Funcaught exception: " + msg + "\n";
        code = 3;
      }
      SetCpuTimer(0);
      if (verbose) descs += c.desc.str() + (heading != nullptr ? "\n" : "");
    };
    for (size_t k = 0; k < items.size() && code == 0; ++k) {
      if (k > 0) position->fetch_add(1);
      run(items[k].source, items.size() == 1          ? nullptr
                           : k + 1 < items.size() ? "--- earlier case in the same process ---\n"
                                                  : "--- case that fails ---\n");
      if (code != 0 || items[k].echo_seed == 0) continue;
      Source echo(Echo(items[k].source.record(), items[k].echo_seed));
      position->fetch_add(1);
      run(echo, nullptr);
    }
    std::ostringstream os;
    os << status << items[wanted].source.record().size();
    for (uint64_t v : items[wanted].source.record()) os << " " << v;
    os << "\n" << descs;
    const int fd = open(out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    WriteAll(fd, os.str());
    close(fd);
    if (kProperty.done != nullptr) kProperty.done();
    if (!scratch_dir.empty() && scratch_pid == getpid()) {
      std::error_code ec;
      std::filesystem::remove_all(scratch_dir, ec);
    }
    _exit(code);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Outcome o;
  o.position = position->load();
  if (WIFSIGNALED(st)) {
    const int sig = WTERMSIG(st);
    if (sig == SIGPROF || sig == SIGXCPU) {
      o.kind = Outcome::kHang;
      o.message = "no answer within " + std::to_string(cpu_sec) + " s of CPU time";
    } else if (sig == SIGKILL) {
      o.kind = Outcome::kKilled;
      o.message = "killed";
    } else {
      o.kind = Outcome::kCrash;
      o.message = "crashed by signal " + std::to_string(sig) + ": ";
    }
  } else if (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3) {
    std::ifstream in(out_path);
    std::string line;
    std::getline(in, line);
    o.kind = (!line.empty() && line[0] == 'F') ? Outcome::kFail : Outcome::kPass;
    if (line.size() > 1) o.message = line.substr(1);
    size_t n = 0;
    in >> n;
    o.choices.resize(n);
    for (auto& v : o.choices) in >> v;
    std::getline(in, line);
    std::stringstream rest;
    rest << in.rdbuf();
    o.desc = rest.str();
  } else {
    o.kind = Outcome::kCrash;
    o.message = "exited with status " + std::to_string(WEXITSTATUS(st)) + ": ";
  }
  if (verbose && o.desc.empty()) o.desc = ReadFile(desc_path);
  if (o.kind == Outcome::kCrash) {
    const std::string err = ReadFile(err_path);
    std::istringstream lines(err);
    std::string line;
    int taken = 0;
    while (std::getline(lines, line) && taken < 12) {
      if (line.find("ERROR") != std::string::npos ||
          line.find("WARNING: ThreadSanitizer") != std::string::npos ||
          line.find(" of size ") != std::string::npos ||
          line.find("Assert") != std::string::npos ||
          line.find("assert") != std::string::npos ||
          line.find("runtime error") != std::string::npos ||
          line.find("terminate") != std::string::npos ||
          line.find("what()") != std::string::npos ||
          line.find("    #") != std::string::npos ||
          line.find("rss limit") != std::string::npos) {
        o.message += line + " | ";
        ++taken;
      }
    }
  }
  return o;
}

// Executes one case in a forked child.
Outcome ExecuteForked(const Source& source, int cpu_sec, bool verbose) {
  return ExecuteSequence({Item(source)}, 0, cpu_sec, verbose);
}

Outcome ExecuteChoices(const std::vector<uint64_t>& choices, int cpu_sec,
                       bool verbose) {
  return ExecuteForked(Source(choices), cpu_sec, verbose);
}

// Generic shrinker over the choice sequence.
class Shrinker {
 public:
  using Execute = std::function<Outcome(const std::vector<uint64_t>&)>;

  Shrinker(std::vector<uint64_t> best, Execute execute, double deadline, int budget)
      : best_(std::move(best)),
        execute_(std::move(execute)),
        deadline_(deadline),
        budget_(budget) {}

  std::vector<uint64_t> Run() {
    Trim();
    bool improved = true;
    while (improved && !Out()) {
      improved = false;
      for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) improved |= DeletePass(k);
      improved |= ZeroPass();
      improved |= LowerPass();
      improved |= LowerAndDeletePass();
    }
    return best_;
  }

  int evaluations() const { return evals_; }

 private:
  bool Out() const { return evals_ >= budget_ || Now() > deadline_; }

  void Trim() {
    while (!best_.empty() && best_.back() == 0) best_.pop_back();
  }

  static bool Less(const std::vector<uint64_t>& a,
                   const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  }

  bool Try(std::vector<uint64_t> candidate) {
    if (Out()) return false;
    while (!candidate.empty() && candidate.back() == 0) candidate.pop_back();
    if (!Less(candidate, best_)) return false;
    if (!seen_.insert(HashChoices(candidate)).second) return false;
    ++evals_;
    Outcome o = execute_(candidate);
    if (!o.failed()) return false;
    if (!o.choices.empty() || o.kind == Outcome::kFail) {
      while (!o.choices.empty() && o.choices.back() == 0) o.choices.pop_back();
      if (Less(o.choices, candidate)) candidate = o.choices;
    }
    best_ = candidate;
    return true;
  }

  bool DeletePass(size_t k) {
    bool any = false;
    if (best_.size() < k) return false;
    for (size_t i = best_.size(); i >= k && !Out();) {
      if (i > best_.size()) {
        i = best_.size();
        if (i < k) break;
      }
      std::vector<uint64_t> candidate = best_;
      candidate.erase(candidate.begin() + (i - k), candidate.begin() + i);
      if (Try(candidate)) {
        any = true;
        i = std::min(i, best_.size());
      } else {
        --i;
      }
    }
    return any;
  }

  bool ZeroPass() {
    bool any = false;
    for (size_t k : {16, 4, 1}) {
      for (size_t i = 0; i + k <= best_.size() && !Out(); i += k) {
        std::vector<uint64_t> candidate = best_;
        std::fill(candidate.begin() + i, candidate.begin() + i + k, 0);
        if (candidate != best_) any |= Try(candidate);
      }
    }
    return any;
  }

  bool LowerPass() {
    bool any = false;
    for (size_t i = 0; i < best_.size() && !Out(); ++i) {
      uint64_t lo = 0;
      while (i < best_.size() && lo < best_[i] && !Out()) {
        const uint64_t mid = lo + (best_[i] - lo) / 2;
        std::vector<uint64_t> candidate = best_;
        candidate[i] = mid;
        if (Try(candidate)) {
          any = true;
        } else {
          lo = mid + 1;
        }
      }
    }
    return any;
  }

  bool LowerAndDeletePass() {
    bool any = false;
    for (size_t i = 0; i < best_.size() && !Out(); ++i) {
      for (size_t k = 1; k <= 24 && i + 1 + k <= best_.size() && !Out(); ++k) {
        if (best_[i] == 0) break;
        std::vector<uint64_t> candidate = best_;
        candidate[i] -= 1;
        candidate.erase(candidate.begin() + i + 1,
                        candidate.begin() + i + 1 + k);
        if (Try(candidate)) {
          any = true;
          k = 0;
          if (i >= best_.size()) break;
        }
      }
    }
    return any;
  }

  std::vector<uint64_t> best_;
  Execute execute_;
  double deadline_;
  int budget_;
  int evals_ = 0;
  std::unordered_set<uint64_t> seen_;
};

struct WorkerResult {
  int64_t evaluations = 0;
  std::vector<uint64_t> hashes;
  int64_t nontrivial = 0;
  std::map<std::string, int64_t> labels;       // Total label counts.
  std::map<std::string, int64_t> case_labels;  // Cases having the label.
};

// Runs in the worker process; never returns.
[[noreturn]] void WorkerMain(const Options& opt, int worker, int jobs,
                             int64_t begin, int64_t total, double deadline,
                             Slot* slot, const std::string& result_path,
                             const std::string& fail_path) {
  QuietStderr(scratch_root + "/stderr." + std::to_string(worker));
  WorkerResult r;
  if (kProperty.init != nullptr) kProperty.init();
  int64_t i = begin;
  int code = 0;
  for (; i < total; i += jobs) {
    if ((r.evaluations & 15) == 0 && Now() > deadline) break;
    slot->current.store(i);
    bool failed = false;
    std::string message;
    auto run = [&](Source& source, bool is_echo) {
      SetCpuTimer(kProperty.case_cpu_sec);
      Case c(source);
      try {
        kProperty.run(c);
      } catch (const Failure& f) {
        failed = true;
        message = f.message;
      } catch (const std::exception& e) {
        failed = true;
        message = std::string("uncaught exception: ") + e.what();
      }
      if (failed) return;
      if (c.nontrivial && !is_echo) {
        ++r.nontrivial;
        if (r.hashes.size() < 8000000) r.hashes.push_back(HashChoices(source.record()));
      }
      for (const auto& kv : c.labels) {
        r.labels[kv.first] += kv.second;
        ++r.case_labels[kv.first];
      }
    };
    Source source(CaseSeed(opt.seed, i));
    run(source, false);
    const uint64_t echo_seed = EchoSeed(opt.seed, i);
    if (!failed && echo_seed != 0) {
      Source echo(Echo(source.record(), echo_seed));
      run(echo, true);
      ++r.labels["echoes in the same process"];
      ++r.case_labels["echoes in the same process"];
    }
    if (failed) {
      std::ofstream out(fail_path);
      out << i << "\n" << message << "\n";
      out.close();
      code = 3;
      break;
    }
    ++r.evaluations;
    slot->done.store(r.evaluations);
  }
  SetCpuTimer(0);
  slot->current.store(-1);
  {
    std::ofstream out(result_path, std::ios::binary);
    out << r.evaluations << " " << r.nontrivial << " " << r.hashes.size()
        << " " << r.labels.size() << "\n";
    for (const auto& kv : r.labels) {
      out << kv.second << " " << r.case_labels[kv.first] << " " << kv.first
          << "\n";
    }
    out.write(reinterpret_cast<const char*>(r.hashes.data()),
              r.hashes.size() * sizeof(uint64_t));
  }
  slot->finished.store(1);
  if (kProperty.done != nullptr) kProperty.done();
  if (!scratch_dir.empty() && scratch_pid == getpid()) {
    std::error_code ec;
    std::filesystem::remove_all(scratch_dir, ec);
  }
  _exit(code);
}

void MergeResult(const std::string& path, WorkerResult* total,
                 std::vector<uint64_t>* hashes) {
  std::ifstream in(path, std::ios::binary);
  if (!in) return;
  int64_t evals = 0, nontrivial = 0;
  size_t num_hashes = 0, num_labels = 0;
  in >> evals >> nontrivial >> num_hashes >> num_labels;
  std::string line;
  std::getline(in, line);
  for (size_t i = 0; i < num_labels; ++i) {
    int64_t count = 0, cases = 0;
    in >> count >> cases;
    std::getline(in, line);
    const std::string label = line.empty() ? line : line.substr(1);
    total->labels[label] += count;
    total->case_labels[label] += cases;
  }
  const size_t offset = hashes->size();
  hashes->resize(offset + num_hashes);
  in.read(reinterpret_cast<char*>(hashes->data() + offset),
          num_hashes * sizeof(uint64_t));
  total->evaluations += evals;
  total->nontrivial += nontrivial;
}

// Loads the choices of the case, and of the cases to be executed before it.
bool LoadReplay(const std::string& path, std::vector<std::vector<uint64_t>>* before,
                std::vector<uint64_t>* choices) {
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    if (line.rfind("before:", 0) == 0) {
      std::istringstream is(line.substr(7));
      before->emplace_back();
      uint64_t v;
      while (is >> v) before->back().push_back(v);
    }
    if (line.rfind("choices:", 0) == 0) {
      std::istringstream is(line.substr(8));
      uint64_t v;
      while (is >> v) choices->push_back(v);
      return true;
    }
  }
  return false;
}

const char* KindName(Outcome::Kind kind) {
  switch (kind) {
    case Outcome::kPass: return "pass";
    case Outcome::kFail: return "violation";
    case Outcome::kCrash: return "crash";
    case Outcome::kHang: return "hang";
    case Outcome::kKilled: return "killed";
  }
  return "?";
}

// Writes the replay file and prints the violation.
void WriteReplay(const Options& opt, int64_t index, const Outcome& final,
                 const std::vector<std::vector<uint64_t>>& before,
                 const std::vector<uint64_t>& choices) {
  std::error_code ec;
  std::filesystem::create_directories(opt.replay_dir, ec);
  uint64_t hash = HashChoices(choices);
  for (const auto& b : before) hash = Mix(hash ^ HashChoices(b));
  char name[64];
  std::snprintf(name, sizeof(name), "%s-%016" PRIx64 ".replay", kProperty.id, hash);
  const std::string path = opt.replay_dir + "/" + name;
  {
    std::ofstream out(path);
    out << "property: " << kProperty.id << "\n";
    out << "kind: " << KindName(final.kind) << "\n";
    out << "message: " << final.message << "\n";
    out << "seed: " << opt.seed << " case: " << index << "\n";
    for (const auto& b : before) {
      out << "before:";
      for (uint64_t v : b) out << " " << v;
      out << "\n";
    }
    out << "choices:";
    for (uint64_t v : choices) out << " " << v;
    out << "\n--- case ---\n" << final.desc << "\n";
  }
  std::cout << "property " << kProperty.id << " (" << kProperty.title
            << ") does not hold\n"
            << KindName(final.kind) << ": " << final.message << "\n"
            << final.desc << "\n"
            << "VIOLATION property=" << kProperty.id << " replay=" << path
            << std::endl;
}

// A case that does not fail on its own: it fails after other cases in the same process,
// or its echo does. Finds the cases that are needed (the worker executed begin, begin +
// jobs, ... index), shrinks them, and reports the failure. Returns true iff it is
// confirmed.
bool ReportSequence(const Options& opt, int64_t begin, int64_t jobs, int64_t index) {
  const int cpu_sec = kProperty.case_cpu_sec;
  const double start = Now();
  // The memory of the process grows over the cases in any case.
  auto failed = [](const Outcome& o) {
    return o.failed() && o.message.find("rss limit") == std::string::npos;
  };
  auto execute = [&](const std::vector<int64_t>& list, uint64_t* memory = nullptr, size_t size = 0) {
    std::vector<Item> items;
    for (int64_t i : list) items.emplace_back(Source(CaseSeed(opt.seed, i)), EchoSeed(opt.seed, i));
    return ExecuteSequence(std::move(items), 0, cpu_sec, false, memory, size);
  };
  // Number of the executed cases and echoes up to the given case of the list.
  auto runs = [&](const std::vector<int64_t>& list, size_t n) {
    size_t r = 0;
    for (size_t i = 0; i < n; ++i) r += EchoSeed(opt.seed, list[i]) != 0 ? 2 : 1;
    return r;
  };
  auto fails = [&](const std::vector<int64_t>& list) {
    Outcome o = execute(list);
    return failed(o) && o.position >= runs(list, list.size() - 1);
  };
  std::vector<int64_t> cases;  // The last one is the one that fails.
  for (int64_t k = 0; Now() < start + 60; k = k == 0 ? 1 : 4 * k) {
    std::vector<int64_t> list;
    for (int64_t i = std::max(begin, index - k * jobs); i <= index; i += jobs) list.push_back(i);
    Outcome o = execute(list);
    if (failed(o)) {
      while (list.size() > 1 && runs(list, list.size() - 1) > o.position) list.pop_back();
      if (fails(list) && fails(list) && fails(list)) {
        cases = list;
        break;
      }
    }
    if (index - k * jobs <= begin) break;
  }
  if (cases.empty()) return false;
  const size_t found = cases.size();
  // Remove the cases that are not needed.
  auto remove = [](auto& list, double deadline, auto still_fails) {
    for (size_t chunk = std::max<size_t>(1, list.size() / 2); Now() < deadline; chunk = std::max<size_t>(1, chunk / 2)) {
      bool any = false;
      for (size_t i = 0; i + 1 < list.size() && Now() < deadline;) {
        auto shorter = list;
        shorter.erase(shorter.begin() + i, shorter.begin() + std::min(i + chunk, list.size() - 1));
        if (still_fails(shorter)) {
          list = shorter;
          any = true;
        } else {
          i += chunk;
        }
      }
      if (chunk == 1 && !any) break;
    }
  };
  remove(cases, Now() + 60, fails);
  // Get the choices of all the cases and echoes.
  constexpr size_t kSize = 1 << 20;
  const size_t total = runs(cases, cases.size());
  uint64_t* memory = static_cast<uint64_t*>(mmap(nullptr, total * kSize * sizeof(uint64_t), PROT_READ | PROT_WRITE,
                                                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (memory == MAP_FAILED) return false;
  const Outcome recorded = execute(cases, memory, kSize);
  using Choices = std::vector<uint64_t>;
  std::vector<Choices> choices(recorded.position + 1);
  for (size_t k = 0; k < choices.size(); ++k) {
    const uint64_t* m = memory + k * kSize;
    choices[k].assign(m + 1, m + 1 + m[0]);
  }
  munmap(memory, total * kSize * sizeof(uint64_t));
  auto replay = [&](const std::vector<Choices>& list, size_t wanted, bool verbose) {
    std::vector<Item> items;
    for (const auto& v : list) items.emplace_back(Source(v));
    Outcome o = ExecuteSequence(std::move(items), wanted, cpu_sec, verbose);
    // Has to fail in the last case.
    if (o.failed() && (!failed(o) || o.position + 1 != list.size())) o.kind = Outcome::kPass;
    return o;
  };
  if (!replay(choices, 0, false).failed()) return false;
  remove(choices, Now() + 60, [&](const std::vector<Choices>& list) { return replay(list, 0, false).failed(); });
  const std::vector<Choices> original = choices;
  const double shrink = Now() + 60;
  // The cases are similar to each other: shorten all of them at once.
  for (size_t chunk : {32, 8, 4, 3, 2, 1}) {
    for (size_t i = choices.back().size(); i >= chunk && Now() < shrink - 30 && recorded.kind != Outcome::kHang; --i) {
      std::vector<Choices> list = choices;
      for (Choices& v : list) {
        if (v.size() >= i) v.erase(v.begin() + (i - chunk), v.begin() + i);
      }
      if (!replay(list, 0, false).failed()) continue;
      choices = list;
      i = std::min(i, choices.back().size() + 1);
    }
  }
  for (size_t n = choices.size(); n > 0 && Now() < shrink && recorded.kind != Outcome::kHang; --n) {
    const size_t k = n - 1;
    Shrinker shrinker(choices[k],
                      [&](const Choices& v) {
                        std::vector<Choices> list = choices;
                        list[k] = v;
                        return replay(list, k, false);
                      },
                      std::min(shrink, Now() + 40), 4000);
    choices[k] = shrinker.Run();
  }
  for (int i = 0; i < 3; ++i) {
    if (recorded.kind != Outcome::kHang && !replay(choices, 0, false).failed()) {
      choices = original;
      break;
    }
  }
  Outcome final = replay(choices, 0, true);
  if (!final.failed()) return false;
  std::cout << "case " << cases.back() << " does not fail on its own: it needs " << choices.size()
            << " cases (or echoes) in the same process (found with " << found << ")" << std::endl;
  const Choices last = choices.back();
  choices.pop_back();
  WriteReplay(opt, cases.back(), final, choices, last);
  return true;
}

// Confirms, shrinks and reports a failure. Returns true iff it is confirmed.
// The cases of the process that failed were begin, begin + jobs, ... index.
bool ReportFailure(const Options& opt, const std::string* bytes, int64_t begin, int64_t jobs, int64_t index,
                   const std::string& first_message) {
  auto source = [&]() {
    return bytes != nullptr
               ? Source(reinterpret_cast<const uint8_t*>(bytes->data()),
                        bytes->size())
               : Source(CaseSeed(opt.seed, index));
  };
  int reproduced = 0;
  Outcome first;
  const bool schedules = kProperty.schedules;
  for (int attempt = 0; attempt < (schedules ? 100 : 12) && reproduced < (schedules ? 1 : 3); ++attempt) {
    Outcome o = ExecuteForked(source(), kProperty.case_cpu_sec, false);
    if (o.failed()) {
      ++reproduced;
      first = o;
    } else if (attempt >= 8 && reproduced == 0 && !schedules) {
      break;
    }
    if (o.kind == Outcome::kHang && reproduced >= 2) break;
  }
  if (reproduced < (schedules ? 1 : 2)) {
    if (reproduced == 0 && bytes == nullptr && !schedules && ReportSequence(opt, begin, jobs, index)) return true;
    std::cout << "note: a failure of case " << index
              << " did not reproduce: " << first_message << std::endl;
    return false;
  }
  // Get the choice sequence (a crash does not write it, so record it here).
  std::vector<uint64_t> choices = first.choices;
  if (choices.empty()) {
    // Record the choices in a forked child while running the case.
    constexpr size_t kSize = 1 << 23;
    uint64_t* memory = static_cast<uint64_t*>(mmap(nullptr, kSize * sizeof(uint64_t), PROT_READ | PROT_WRITE,
                                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (memory != MAP_FAILED) {
      const pid_t pid = fork();
      if (pid == 0) {
        QuietStderr("/dev/null");
        if (kProperty.init != nullptr) kProperty.init();
        Source s = source();
        s.Mirror(memory, kSize);
        SetCpuTimer(kProperty.case_cpu_sec);
        Case c(s);
        try {
          kProperty.run(c);
        } catch (...) {
        }
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      choices.assign(memory + 1, memory + 1 + memory[0]);
      munmap(memory, kSize * sizeof(uint64_t));
    }
  }
  const bool hang = first.kind == Outcome::kHang;
  if (ExecuteChoices(choices, kProperty.case_cpu_sec, false).failed()) {
    const int cpu_sec = hang ? std::min(4, kProperty.case_cpu_sec) : kProperty.case_cpu_sec;
    Shrinker shrinker(choices,
                      [cpu_sec](const std::vector<uint64_t>& v) { return ExecuteChoices(v, cpu_sec, false); },
                      Now() + (hang ? 60 : 45), hang ? 60 : 4000);
    std::vector<uint64_t> shrunk = shrinker.Run();
    std::cout << "shrunk " << choices.size() << " choices to " << shrunk.size()
              << " in " << shrinker.evaluations() << " evaluations" << std::endl;
    // The shrunk case has to fail every time as well.
    int ok = 0;
    const int need = hang ? 1 : 3;
    for (int i = 0; i < need; ++i) {
      ok += ExecuteChoices(shrunk, kProperty.case_cpu_sec, false).failed() ? 1 : 0;
    }
    if (ok == need) choices = shrunk;
  }
  Outcome final = ExecuteChoices(choices, kProperty.case_cpu_sec, true);
  if (!final.failed()) final = first;
  WriteReplay(opt, index, final, {}, choices);
  return true;
}

void WriteEvidence(const Options& opt, const WorkerResult& total,
                   int64_t distinct, int64_t planned, bool capped,
                   const std::vector<std::string>& samples, double wall,
                   int violations, int unreproduced) {
  if (opt.evidence.empty()) return;
  std::error_code ec;
  std::filesystem::create_directories(
      std::filesystem::path(opt.evidence).parent_path(), ec);
  const std::string tmp = opt.evidence + ".tmp";
  std::ofstream out(tmp);
  out << "{\n \"property\": \"" << kProperty.id << "\",\n"
      << " \"tier\": \"" << opt.tier << "\",\n"
      << " \"seed\": " << opt.seed << ",\n"
      << " \"level\": \"exploration\",\n"
      << " \"coverage\": {\n"
      << "  \"evaluations\": " << total.evaluations << ",\n"
      << "  \"distinct_nontrivial\": " << distinct << ",\n"
      << "  \"planned\": " << planned << ",\n"
      << "  \"stopped_by_wall_clock\": " << (capped ? "true" : "false") << ",\n"
      << "  \"unreproduced_failures\": " << unreproduced << ",\n"
      << "  \"rule\": \"" << JsonEscape(kProperty.rule) << "\",\n"
      << "  \"classes\": {";
  bool sep = false;
  for (const auto& kv : total.labels) {
    auto it = total.case_labels.find(kv.first);
    out << (sep ? ",\n" : "\n") << "   \"" << JsonEscape(kv.first)
        << "\": {\"cases\": " << it->second << ", \"events\": " << kv.second
        << "}";
    sep = true;
  }
  out << "},\n  \"samples\": [";
  sep = false;
  for (const std::string& s : samples) {
    out << (sep ? ",\n" : "\n") << "   \"" << JsonEscape(s) << "\"";
    sep = true;
  }
  out << "]\n },\n \"assumptions\": [";
  sep = false;
  for (const std::string& s : kProperty.assumptions) {
    out << (sep ? ", " : "") << "\"" << JsonEscape(s) << "\"";
    sep = true;
  }
  char wall_str[32];
  std::snprintf(wall_str, sizeof(wall_str), "%.2f", wall);
  out << "],\n \"wall_s\": " << wall_str << ",\n \"violations\": " << violations
      << "\n}\n";
  out.close();
  std::rename(tmp.c_str(), opt.evidence.c_str());
}

int RunAll(const Options& opt) {
  const double start = Now();
  const int64_t planned =
      opt.cases >= 0 ? opt.cases
                     : (opt.tier == "thorough" ? kProperty.thorough_cases
                                               : kProperty.quick_cases);
  const double max_wall =
      opt.max_wall > 0 ? opt.max_wall : (opt.tier == "thorough" ? 540 : 300);
  const double deadline = start + max_wall;
  const int jobs = opt.jobs;
  Slot* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * jobs,
                                        PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (int w = 0; w < jobs; ++w) new (&slots[w]) Slot();
  struct W {
    pid_t pid = 0;
    int64_t begin = 0;
    int part = 0;
  };
  std::vector<W> workers(jobs);
  std::vector<std::string> result_paths;
  std::fflush(nullptr);
  auto launch = [&](int w) {
    const std::string rp = scratch_root + "/result." + std::to_string(w) + "." +
                           std::to_string(workers[w].part);
    result_paths.push_back(rp);
    slots[w].current.store(-1);
    slots[w].finished.store(0);
    const pid_t pid = fork();
    if (pid == 0) {
      WorkerMain(opt, w, jobs, workers[w].begin, planned, deadline, &slots[w],
                 rp, scratch_root + "/fail." + std::to_string(w));
    }
    workers[w].pid = pid;
  };
  for (int w = 0; w < jobs; ++w) {
    workers[w].begin = w;
    launch(w);
  }
  int alive = jobs;
  int64_t fail_index = -1;
  std::string fail_message;
  int violations = 0;
  int unreproduced = 0;
  int restarts = 0;
  int broken = 0;
  while (alive > 0) {
    int st = 0;
    const pid_t pid = waitpid(-1, &st, 0);
    if (pid < 0) {
      if (errno == EINTR) continue;
      break;
    }
    int w = -1;
    for (int i = 0; i < jobs; ++i) {
      if (workers[i].pid == pid) w = i;
    }
    if (w < 0) continue;
    --alive;
    workers[w].pid = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    // The worker failed, crashed, or was killed.
    int64_t index = slots[w].current.load();
    std::string message;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
      std::ifstream in(scratch_root + "/fail." + std::to_string(w));
      in >> index;
      std::string line;
      std::getline(in, line);
      std::getline(in, line);
      message = line;
    } else if (WIFSIGNALED(st)) {
      message = "worker ended by signal " + std::to_string(WTERMSIG(st));
    } else {
      message = "worker exited with status " + std::to_string(WEXITSTATUS(st));
    }
    if (index < 0) {
      std::cout << "error: worker failed outside of a case: " << message
                << std::endl;
      ++broken;
      continue;
    }
    // Stop the others, confirm and report.
    for (int i = 0; i < jobs; ++i) {
      if (workers[i].pid > 0) kill(workers[i].pid, SIGSTOP);
    }
    if (ReportFailure(opt, nullptr, workers[w].begin, jobs, index, message)) {
      ++violations;
      for (int i = 0; i < jobs; ++i) {
        if (workers[i].pid > 0) {
          kill(workers[i].pid, SIGKILL);
          waitpid(workers[i].pid, &st, 0);
          workers[i].pid = 0;
        }
      }
      fail_index = index;
      break;
    }
    ++unreproduced;
    for (int i = 0; i < jobs; ++i) {
      if (workers[i].pid > 0) kill(workers[i].pid, SIGCONT);
    }
    if (++restarts <= 20) {
      workers[w].begin = index + jobs;
      ++workers[w].part;
      launch(w);
      ++alive;
    }
  }
  WorkerResult total;
  std::vector<uint64_t> hashes;
  for (const std::string& path : result_paths) MergeResult(path, &total, &hashes);
  if (violations > 0) {
    // Workers were stopped; count the executed cases from the slots.
    int64_t done = 0;
    for (int w = 0; w < jobs; ++w) done += slots[w].done.load();
    total.evaluations = std::max(total.evaluations, done + 1);
  }
  std::sort(hashes.begin(), hashes.end());
  const int64_t distinct =
      std::unique(hashes.begin(), hashes.end()) - hashes.begin();
  const bool capped = violations == 0 && total.evaluations < planned;
  // Samples: the first few non-trivial cases, spread over the run.
  std::vector<std::string> samples;
  if (violations == 0) {
    for (int64_t i = 0; i < std::min<int64_t>(planned, 400) && samples.size() < 4;
         ++i) {
      const std::string rec = scratch_root + "/outcome";
      Source probe(CaseSeed(opt.seed, i));
      Outcome o = ExecuteForked(probe, kProperty.case_cpu_sec, true);
      if (o.kind == Outcome::kPass && !o.desc.empty()) {
        std::string d = o.desc;
        if (d.size() > 1500) d = d.substr(0, 1500) + " ...";
        samples.push_back("case " + std::to_string(i) + ": " + d);
      }
    }
  }
  const double wall = Now() - start;
  WriteEvidence(opt, total, distinct, planned, capped, samples, wall,
                violations, unreproduced);
  std::cout << kProperty.id << " " << opt.tier << " seed=" << opt.seed << ": "
            << total.evaluations << "/" << planned << " cases, " << distinct
            << " distinct non-trivial, " << violations << " violations"
            << (capped ? " (stopped by wall clock)" : "") << ", " << wall
            << " s" << std::endl;
  for (const auto& kv : total.case_labels) {
    std::cout << "  " << kv.first << ": " << kv.second << " cases, "
              << total.labels[kv.first] << " events" << std::endl;
  }
  return violations > 0 ? 1 : broken > 0 ? 2 : 0;
}

}  // namespace

const std::string& ScratchDir() {
  if (scratch_pid != getpid()) {
    scratch_pid = getpid();
    scratch_dir = scratch_root + "/p" + std::to_string(scratch_pid);
    std::filesystem::create_directories(scratch_dir);
  }
  return scratch_dir;
}

}  // namespace pbt

int main(int argc, char* argv[]) {
  using namespace pbt;
  Options opt;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto value = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") opt.tier = value();
    else if (a == "--seed") opt.seed = std::atoll(value().c_str());
    else if (a == "--jobs") opt.jobs = std::atoi(value().c_str());
    else if (a == "--cases") opt.cases = std::atoll(value().c_str());
    else if (a == "--max-wall") opt.max_wall = std::atof(value().c_str());
    else if (a == "--evidence") opt.evidence = value();
    else if (a == "--replay-dir") opt.replay_dir = value();
    else if (a == "--replay") opt.replay = value();
    else if (a == "--shrink-bytes") opt.shrink_bytes = value();
    else {
      std::cerr << "unknown option " << a << std::endl;
      return 2;
    }
  }
  char tmpl[] = "/tmp/verif-run-XXXXXX";
  if (mkdtemp(tmpl) == nullptr) {
    std::perror("mkdtemp");
    return 2;
  }
  scratch_root = tmpl;
  int rc = 0;
  if (!opt.replay.empty()) {
    std::vector<std::vector<uint64_t>> before;
    std::vector<uint64_t> choices;
    if (!LoadReplay(opt.replay, &before, &choices)) {
      std::cerr << "cannot load " << opt.replay << std::endl;
      rc = 2;
    } else {
      std::vector<Item> items;
      for (const auto& v : before) items.emplace_back(Source(v));
      items.emplace_back(Source(choices));
      Outcome o = ExecuteSequence(items, 0, kProperty.case_cpu_sec, true);
      for (int i = 0; kProperty.schedules && !o.failed() && i < 100; ++i) {
        o = ExecuteChoices(choices, kProperty.case_cpu_sec, true);
      }
      std::cout << KindName(o.kind) << ": " << o.message << "\n" << o.desc << std::endl;
      if (o.failed()) {
        std::cout << "VIOLATION property=" << kProperty.id
                  << " replay=" << opt.replay << std::endl;
        rc = 1;
      }
    }
  } else if (!opt.shrink_bytes.empty()) {
    const std::string bytes = ReadFile(opt.shrink_bytes);
    rc = ReportFailure(opt, &bytes, 0, 1, -1, "fuzzing artifact") ? 1 : 0;
  } else {
    rc = RunAll(opt);
  }
  std::error_code ec;
  std::filesystem::remove_all(scratch_root, ec);
  return rc;
}
