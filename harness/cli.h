// Runs a command line tool of the repository: in this process (its source is
// included by the check with "main" and "exit" renamed), or as a program.
#ifndef VERIF_HARNESS_CLI_H
#define VERIF_HARNESS_CLI_H

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>

#include "absl/flags/reflection.h"
#include "harness/pbt.h"

namespace cli {

struct Exit {
  int status;
};

struct Result {
  int status = 0;
  bool crashed = false;
  std::string out;
  std::string err;
  std::string Str() const {
    return "status " + std::to_string(status) + (crashed ? " (crash)" : "") + "\nstdout:\n" + out.substr(0, 3000) +
           "\nstderr:\n" + err.substr(0, 1500);
  }
};

inline std::string ReadAllFrom(int fd) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char buffer[1 << 14];
  ssize_t n;
  while ((n = read(fd, buffer, sizeof(buffer))) > 0) s.append(buffer, n);
  return s;
}

// Redirects stdout and stderr to memory.
class Capture {
 public:
  Capture() {
    Flush();
    for (int i = 0; i < 2; ++i) {
      if (mem(i) < 0) mem(i) = memfd_create("capture", MFD_CLOEXEC);
      if (ftruncate(mem(i), 0) != 0) abort();
      lseek(mem(i), 0, SEEK_SET);
      saved_[i] = dup(i + 1);
      dup2(mem(i), i + 1);
    }
  }
  void Stop(Result* r) {
    if (stopped_) return;
    stopped_ = true;
    Flush();
    for (int i = 0; i < 2; ++i) {
      dup2(saved_[i], i + 1);
      close(saved_[i]);
    }
    if (r != nullptr) {
      r->out = ReadAllFrom(mem(0));
      r->err = ReadAllFrom(mem(1));
    }
  }
  ~Capture() { Stop(nullptr); }

 private:
  static int& mem(int i) {
    static int fds[2] = {-1, -1};
    return fds[i];
  }
  static void Flush() {
    std::cout.flush();
    std::cerr.flush();
    std::fflush(stdout);
    std::fflush(stderr);
  }
  int saved_[2];
  bool stopped_ = false;
};

// The tool in this process.
inline Result Call(int (*tool_main)(int, char**), std::vector<std::string> args) {
  Result r;
  absl::FlagSaver defaults;  // Flags that are not given have their defaults in every call.
  args.insert(args.begin(), "tool");
  std::vector<char*> argv;
  for (std::string& a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  Capture capture;
  try {
    r.status = tool_main(static_cast<int>(args.size()), argv.data());
  } catch (const Exit& e) {
    r.status = e.status;
  }
  capture.Stop(&r);
  return r;
}

// The tool as a program (its own sanitized build).
inline Result Exec(const char* variable, const std::vector<std::string>& args) {
  Result r;
  const char* path = std::getenv(variable);
  if (path == nullptr) throw pbt::Failure{std::string("no binary in ") + variable};
  std::vector<char*> argv;
  argv.push_back(const_cast<char*>(path));
  for (const std::string& a : args) argv.push_back(const_cast<char*>(a.c_str()));
  argv.push_back(nullptr);
  const int out = memfd_create("out", MFD_CLOEXEC), err = memfd_create("err", MFD_CLOEXEC);
  const pid_t pid = fork();
  if (pid == 0) {
    dup2(out, 1);
    dup2(err, 2);
    struct rlimit limit;
    limit.rlim_cur = limit.rlim_max = 15;
    setrlimit(RLIMIT_CPU, &limit);
    signal(SIGPROF, SIG_DFL);
    execv(path, argv.data());
    _exit(127);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  r.out = ReadAllFrom(out);
  r.err = ReadAllFrom(err);
  close(out);
  close(err);
  r.crashed = !WIFEXITED(status);
  r.status = r.crashed ? 128 + WTERMSIG(status) : WEXITSTATUS(status);
  return r;
}

inline void WriteFile(const std::string& path, const std::string& content) {
  std::ofstream out(path, std::ios::binary | std::ios::trunc);
  out << content;
}
inline bool Exists(const std::string& path) { return access(path.c_str(), F_OK) == 0; }
inline size_t FileSize(const std::string& path) {
  struct stat info;
  return stat(path.c_str(), &info) == 0 ? info.st_size : 0;
}

}  // namespace cli

namespace std {
[[noreturn]] inline void VerifExit(int status) { throw ::cli::Exit{status}; }
}  // namespace std
[[noreturn]] inline void VerifExit(int status) { throw ::cli::Exit{status}; }

#endif  // VERIF_HARNESS_CLI_H
