#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

  check.py ID            run the check (VERIF_TIER, VERIF_SEED from environment)
  check.py --build-all   build all checks (setup)
  check.py ID --replay FILE
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import shlex
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
BASE_FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer",
              "-D_GLIBCXX_ASSERTIONS", "-DHAVE_ZLIB", "-w"]
SAN_FLAGS = {
    "address": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
                "-fno-sanitize-recover=all"],
    "thread": ["-fsanitize=thread"],
}
PKGS = ["absl_flags", "absl_flags_parse", "absl_memory", "absl_status",
        "absl_statusor", "absl_strings", "absl_str_format", "absl_time",
        "protobuf", "zlib"]
LIB_DIRS = ["base", "eval", "indicators", "logging", "traders", "util"]
PROTOS = ["base/base.proto", "eval/eval.proto", "traders/trader_config.proto"]

# Options of the individual checks.
#   cli: command line tools the check runs.  extra: additional sources.
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def repo_files(pattern):
    out = []
    for d in LIB_DIRS:
        out += glob.glob(os.path.join(REPO, d, "**", pattern), recursive=True)
    return sorted(out)


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, fuzz=False, san="address"):
        self.fuzz = fuzz
        self.san_flags = SAN_FLAGS[san]
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.pkg_cflags = shlex.split(sh(["pkg-config", "--cflags"] + PKGS).stdout)
        self.pkg_libs = shlex.split(sh(["pkg-config", "--libs"] + PKGS).stdout)
        protos = [p for p in repo_files("*.proto")]
        self.protos = [os.path.relpath(p, REPO) for p in protos
                       if os.path.relpath(p, REPO) != "util/example.proto"]
        self.repo_headers = repo_files("*.h") + sorted(glob.glob(os.path.join(REPO, "*.h")))
        harness_headers = sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))
        self.proto_hash = digest(*[x for p in self.protos for x in (p, read(os.path.join(REPO, p)))])
        self.repo_hash = digest(self.proto_hash, *[x for p in self.repo_headers
                                                   for x in (os.path.relpath(p, REPO), read(p))])
        self.harness_hash = digest(*[x for p in harness_headers for x in (p, read(p))])
        self.gen = os.path.join(BUILD, "gen-" + self.proto_hash)
        if not os.path.exists(self.gen):
            tmp = self.gen + ".tmp%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            r = sh(["protoc", "-I" + REPO, "--cpp_out=" + tmp] + self.protos, cwd=REPO)
            if r.returncode != 0:
                raise BuildError(r.stdout)
            try:
                os.rename(tmp, self.gen)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)

    def flags(self, harness):
        f = list(BASE_FLAGS) + list(self.san_flags)
        if self.fuzz:
            f.append("-fsanitize=fuzzer-no-link")
        f += ["-I" + REPO, "-I" + self.gen]
        if harness:
            f.append("-I" + VERIF)
        return f + self.pkg_cflags

    def lib_sources(self):
        srcs = [s for s in repo_files("*.cc")
                if not s.endswith("_test.cc") and not s.endswith("test_util.cc")]
        srcs += [os.path.join(self.gen, p[:-len(".proto")] + ".pb.cc") for p in self.protos]
        return srcs

    def obj(self, src, harness):
        """Returns (object path, compile command or None when it is cached)."""
        flags = self.flags(harness)
        content = read(src)
        for tool in ("convert.cc", "trader.cc"):
            if b'#include "%s"' % tool.encode() in content:
                content += read(os.path.join(REPO, tool))
        key = digest(src, content, self.repo_hash,
                     self.harness_hash if harness else "", CXX, " ".join(flags))
        path = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key + ".o")
        if os.path.exists(path):
            os.utime(path)
            return path, None
        return path, [CXX] + flags + ["-c", src, "-o"]

    def build(self, targets):
        """targets: list of (output name, [(source, harness?)], extra link flags)."""
        jobs = {}
        links = []
        for name, sources, link_flags in targets:
            objs = []
            for src, harness in sources:
                path, cmd = self.obj(src, harness)
                if cmd is not None:
                    jobs[path] = cmd
                objs.append(path)
            links.append((name, objs, link_flags))

        def compile_one(item):
            path, cmd = item
            tmp = "%s.tmp%d" % (path, os.getpid())
            r = sh(cmd + [tmp])
            if r.returncode != 0:
                return "%s\n%s" % (" ".join(cmd), r.stdout)
            os.rename(tmp, path)
            return None

        def link_one(item):
            name, objs, link_flags = item
            key = digest(*objs, " ".join(link_flags))
            out = os.path.join(BUILD, "bin", name + "-" + key[:16])
            if not os.path.exists(out):
                os.makedirs(os.path.dirname(out), exist_ok=True)
                tmp = "%s.tmp%d" % (out, os.getpid())
                cmd = [CXX] + self.san_flags + link_flags + objs + self.pkg_libs + ["-pthread", "-o", tmp]
                r = sh(cmd)
                if r.returncode != 0:
                    return name, None, r.stdout
                os.rename(tmp, out)
            else:
                os.utime(out)
            return name, out, None

        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            # Big sources first.
            items = sorted(jobs.items(), key=lambda kv: -len(read(kv[1][-2])))
            for err in ex.map(compile_one, items):
                if err:
                    raise BuildError(err)
            out = {}
            for name, path, err in ex.map(link_one, links):
                if err:
                    raise BuildError(err)
                out[name] = path
        return out

    def targets_of(self, pid):
        conf = CHECKS[pid]
        prop_sources = [os.path.join(VERIF, "props", s) for s in conf["sources"]]
        prop_sources += [os.path.join(VERIF, s) for s in conf.get("extra", [])]
        if self.fuzz:
            main = [(os.path.join(VERIF, "harness", "fuzz_main.cc"), True)]
            link = ["-fsanitize=fuzzer"]
        else:
            main = [(os.path.join(VERIF, "harness", "pbt_main.cc"), True)]
            link = []
        libs = [(s, False) for s in self.lib_sources()]
        name = pid + ("-fuzz" if self.fuzz else "")
        targets = [(name, main + [(s, True) for s in prop_sources] + libs, link)]
        if not self.fuzz:
            for tool in conf.get("cli", []):
                targets.append((tool, [(os.path.join(REPO, tool + ".cc"), False)] + libs, []))
        return targets


def prune():
    """Keeps the build cache small (it survives only between local runs)."""
    for sub, limit in (("obj", 1500), ("bin", 160)):
        files = glob.glob(os.path.join(BUILD, sub, "*"))
        if len(files) > limit:
            files.sort(key=os.path.getmtime)
            for f in files[:len(files) - limit]:
                try:
                    os.remove(f)
                except OSError:
                    pass


def build(pids, fuzz=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = {}
        for san in SAN_FLAGS:
            targets = {}
            b = None
            for pid in pids:
                if CHECKS[pid].get("san", "address") != san:
                    continue
                b = b or Builder(fuzz, san)
                for t in b.targets_of(pid):
                    targets[t[0]] = t
            if b is not None:
                out.update(b.build(list(targets.values())))
        prune()
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build-all":
        start = time.time()
        build(sorted(CHECKS))
        print("built %d checks in %.1f s" % (len(CHECKS), time.time() - start))
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(digest(os.environ["VERIF_SEED"]), 16) % (1 << 31)
    start = time.time()
    try:
        bins = build([pid])
    except BuildError as e:
        print("error: cannot build the check of %s:\n%s" % (pid, str(e)[-4000:]))
        return 2
    print("built in %.1f s" % (time.time() - start), flush=True)
    env = dict(os.environ)
    for tool, path in bins.items():
        env["VERIF_BIN_" + tool.upper().replace("-", "_")] = path
    env["VERIF_DIR"] = VERIF
    cmd = [bins[pid]]
    if len(args) > 2 and args[1] == "--replay":
        return subprocess.run(cmd + ["--replay", args[2]], env=env).returncode
    evidence = os.path.join(os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence")), pid + ".json")
    cmd += ["--tier", tier, "--seed", str(seed), "--evidence", evidence,
            "--replay-dir", os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))]
    cmd += args[1:]
    rc = subprocess.run(cmd, env=env).returncode
    if rc not in (0, 1):
        print("error: the check of %s ended with status %d" % (pid, rc))
        return 2
    if rc == 0 and tier == "thorough" and CHECKS[pid].get("fuzz", False):
        rc = fuzz_campaign(pid, seed, bins[pid], evidence, env)
    return rc


def fuzz_campaign(pid, seed, pbt_bin, evidence, env):
    """Coverage-guided search (libFuzzer) over the same property."""
    try:
        binary = build([pid], fuzz=True)[pid + "-fuzz"]
    except BuildError as e:
        print("note: cannot build the fuzz target:\n%s" % str(e)[-2000:])
        return 0
    seconds = int(os.environ.get("VERIF_FUZZ_SECONDS", str(CHECKS[pid].get("fuzz_seconds", 240))))
    work = subprocess.run(["mktemp", "-d", "/tmp/verif-fuzz-XXXXXX"],
                          stdout=subprocess.PIPE, text=True).stdout.strip()
    try:
        corpus = os.path.join(work, "corpus")
        os.makedirs(corpus)
        start = time.time()
        procs = []
        for j in range(os.cpu_count() or 4):
            out = open(os.path.join(work, "log%d" % j), "w")
            e = dict(env)
            procs.append(subprocess.Popen(
                [binary, corpus, "-seed=%d" % (seed * 64 + j + 1), "-reload=1",
                 "-max_len=4096", "-len_control=50", "-timeout=60", "-rss_limit_mb=3000",
                 "-max_total_time=%d" % seconds, "-print_final_stats=1",
                 "-artifact_prefix=%s/artifact%d-" % (work, j)],
                stdout=out, stderr=subprocess.STDOUT, env=e, cwd=work))
        failed = []
        while procs:
            time.sleep(1)
            for p in list(procs):
                if p.poll() is not None:
                    procs.remove(p)
                    if p.returncode != 0:
                        failed.append(p.returncode)
            if failed or time.time() - start > seconds + 120:
                for p in procs:
                    p.kill()
                    p.wait()
                break
        execs = 0
        edges = 0
        for log in glob.glob(os.path.join(work, "log*")):
            for line in open(log, errors="replace"):
                if line.startswith("stat::number_of_executed_units:"):
                    execs += int(line.split(":")[-1])
                if " cov: " in line:
                    edges = max(edges, int(line.split(" cov: ")[1].split()[0]))
        ev = json.load(open(evidence))
        ev["coverage"]["fuzz_executions"] = execs
        ev["coverage"]["fuzz_edges_covered"] = edges
        ev["coverage"]["fuzz_corpus"] = len(os.listdir(corpus))
        ev["wall_s"] = round(ev["wall_s"] + time.time() - start, 2)
        rc = 0
        for artifact in sorted(glob.glob(os.path.join(work, "artifact*"))):
            r = subprocess.run([pbt_bin, "--shrink-bytes", artifact, "--replay-dir",
                                os.path.join(VERIF, "replays")], env=env)
            if r.returncode == 1:
                rc = 1
                ev["violations"] = ev.get("violations", 0) + 1
                break
        json.dump(ev, open(evidence, "w"), indent=1)
        print("fuzz: %d executions, %d edges, %s" % (execs, edges, "violation" if rc else "no violation"))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
