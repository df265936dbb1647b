#!/usr/bin/env python3
"""Runs one property's monitors against /repo's current working tree.

  check.py <ID> <quick|thorough>      build, run, judge, write evidence/<ID>.json
  check.py --replay <replay.json>     rebuild and re-run the one recorded case

Exit 0: held on everything explored.  Exit 1: VIOLATION line(s) printed.
Anything else (2): no verdict (build/harness failure or inconclusive run).
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks_config import CHECKS  # noqa: E402

BASE = ["-std=c++17", "-g1", "-I" + os.path.join(VERIF, "harness"),
        "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3",
        "-fno-omit-frame-pointer", "-w"]
CONFIGS = {
    # address + undefined-behaviour sanitizers, checked standard library
    "asan": ["g++", "-O1", "-fopenmp", "-D_GLIBCXX_DEBUG", "-ftrivial-auto-var-init=pattern",
             "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    # same without OpenMP: the std::async backend is the default one
    "asan-noomp": ["g++", "-O1", "-D_GLIBCXX_DEBUG", "-ftrivial-auto-var-init=pattern",
                   "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    # address sanitizer only, for translation units UBSan makes too slow to build
    "asan-lite": ["g++", "-O0", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address"],
    "tsan": ["clang++", "-O1", "-fsanitize=thread"],
    # OpenMP code under TSan: our own instrumented OpenMP runtime (omp_shim.cpp)
    "tsan-omp": ["g++", "-O1", "-fopenmp", "-DVT_OMP_SHIM", "-fsanitize=thread"],
    # OpenMP code on the hostile OpenMP runtime without a sanitizer
    "omp-shim": ["g++", "-O1", "-fopenmp", "-DVT_OMP_SHIM"],
    "fast": ["g++", "-O2", "-fopenmp"],
    "fast-noomp": ["g++", "-O2"],
    # run under valgrind memcheck: uninitialised reads, which ASan does not see, and leaks
    "memcheck": ["g++", "-O1", "-fopenmp"],
}
VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes",
            "--show-mismatched-frees=no", "--leak-check=full", "--show-leak-kinds=definite",
            "--errors-for-leak-kinds=definite", "--num-callers=24", "--fair-sched=yes"]
LIGHT = "-I" + os.path.join(VERIF, "harness", "light")
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:hard_rss_limit_mb=6000:"
                    "allocator_may_return_null=0:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:hard_rss_limit_mb=12000:second_deadlock_stack=1",
}
SHIM = ("tsan-omp", "omp-shim")
HANG_S = 60
RERUN_S = 90


class HarnessError(Exception):
    pass


def nproc():
    return os.cpu_count() or 4


def math_flags(unit, cfg):
    """math.cpp is slow to build: drop the UBSan parts ASan covers anyway, and
    (unless the unit monitors the twist functions) Eigen's matrix-function header."""
    extra = []
    if any("undefined" in f for f in cfg):
        extra.append("-fno-sanitize=null,alignment,object-size,vptr,nonnull-attribute,"
                     "returns-nonnull-attribute")
    if not unit.get("real_matrix_functions"):
        extra.append(LIGHT)
    return extra


def build_unit(unit, bdir):
    cfg = CONFIGS[unit["cfg"]]
    exe = os.path.join(bdir, unit["name"])
    srcs = [(os.path.join(VERIF, "harness", unit["src"]), [])]
    for lib in unit.get("libs", []):
        srcs.append((os.path.join(REPO, "src/common_robotics_utilities", lib + ".cpp"),
                     math_flags(unit, cfg) if lib == "math" else []))
    if unit["cfg"] in SHIM:
        srcs.append((os.path.join(VERIF, "harness", "omp_shim.cpp"), ["-fno-openmp"]))
    jobs = []
    for i, (s, extra) in enumerate(srcs):
        o = os.path.join(bdir, "%s_%d.o" % (unit["name"], i))
        first = [f for f in extra if f == LIGHT]
        rest = [f for f in extra if f != LIGHT]
        jobs.append((cfg + first + BASE + rest + unit.get("flags", []) + ["-c", s, "-o", o], o))
    link = list(cfg)
    if unit["cfg"] in SHIM:
        link = [f for f in link if f != "-fopenmp"]
    objs = [o for _, o in jobs]
    link_cmd = link + objs + ["-o", exe, "-lz", "-pthread"] + unit.get("ldflags", [])
    return exe, jobs, link_cmd


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    return p.returncode, p.stdout


def build_all(units, bdir):
    plans = [(u,) + build_unit(u, bdir) for u in units]
    with cf.ThreadPoolExecutor(nproc()) as ex:
        futs = {}
        for _, _, jobs, _ in plans:
            for cmd, _o in jobs:
                futs[ex.submit(run_cmd, cmd)] = cmd
        for f in cf.as_completed(futs):
            rc, out = f.result()
            if rc != 0 and LIGHT in futs[f]:
                rc, out = run_cmd([a for a in futs[f] if a != LIGHT])
            if rc != 0:
                raise HarnessError("compile failed: %s\n%s" % (" ".join(futs[f]), out[-4000:]))
        exes = {}
        for p, (rc, out) in zip(plans, ex.map(run_cmd, [p[3] for p in plans])):
            if rc == 0:
                exes[p[0]["name"]] = p[1]
            elif p[0]["cfg"] in SHIM and re.search(r"undefined reference to `(GOMP|omp)_", out) \
                    and len(plans) > 1:
                # the code uses an OpenMP feature our own runtime does not have:
                # the other builds still judge the property, evidence says so
                print("note: unit %s skipped, its OpenMP runtime lacks a feature" % p[0]["name"])
            else:
                raise HarnessError("link failed\n" + out[-4000:])
    return exes


def classify(log, rc):
    m = re.search(r"(AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([^\n(]*)", log)
    if "hard rss limit exhausted" in log:
        return "memory-exhaustion"
    if m:
        what = m.group(2).strip()
        what = re.split(r" on (unknown )?address| 0x|: | \d", what)[0].strip()
        return "%s:%s" % (m.group(1), what.replace(" ", "-"))
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|"
                  r"Invalid free|Source and destination overlap|[\d,]+ (?:\([^)]*\) )?bytes in [\d,]+ blocks are definitely lost)", log)
    if m:
        return "memcheck:" + re.sub(r"[\d,]+ .*definitely lost", "leak", m.group(1)).replace(" ", "-")
    m = re.search(r"runtime error: ([^\n]*)", log)
    if m:
        what = re.sub(r"0x[0-9a-f]+|'[^']*'|-?\d[\d.e+]*", "N", m.group(1))
        return "UBSan:" + "-".join(what.split()[:6])
    if "terminate called" in log:
        return "std-terminate"
    if "Error: attempt to" in log or "_GLIBCXX_DEBUG" in log or "debug/" in log:
        return "libstdc++-debug"
    if "Assertion" in log:
        return "assertion"
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return "signal%d" % -rc
    return "exit%d" % rc


class UnitRun:
    """One harness process (and its restarts) for one shard of one unit."""

    def __init__(self, check_id, unit, exe, seed, tier, shard, shards, bdir):
        self.id, self.unit, self.exe = check_id, unit, exe
        self.seed, self.tier, self.shard, self.shards = seed, tier, shard, shards
        self.bdir = bdir
        self.violations = []
        self.errors = []
        self.evals, self.counters, self.maxima = {}, {}, {}
        self.samples, self.hashes = {}, {}
        self.crashes = 0

    def env(self):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.setdefault("OMP_NUM_THREADS", "4")
        e.setdefault("OMP_WAIT_POLICY", "passive")  # oversubscribed on purpose: do not spin
        e.update(self.unit.get("env", {}))
        return e

    def launch(self, extra, hang_s):
        prog = tempfile.mktemp(prefix="progress_", dir=self.bdir)
        logp = tempfile.mktemp(prefix="log_", dir=self.bdir)
        cmd = (VALGRIND if self.unit["cfg"] == "memcheck" else []) + [self.exe, "--seed", str(self.seed), "--tier", self.tier,
               "--progress", prog] + self.unit.get("args", []) + extra
        with open(logp, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT,
                                 env=self.env(), cwd=self.bdir, start_new_session=True)
        last, last_t, hung = None, time.time(), False
        while True:
            try:
                p.wait(timeout=0.1 if time.time() - last_t < 5 else 1.0)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = self.read_progress(prog)
            if cur != last:
                last, last_t = cur, time.time()
            elif time.time() - last_t > hang_s:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        with open(logp, "r", errors="replace") as f:
            out = f.read()
        at = self.read_progress(prog)
        for x in (prog, logp):
            if os.path.exists(x):
                os.unlink(x)
        return p.returncode, hung, out, at

    @staticmethod
    def read_progress(path):
        try:
            with open(path, "rb") as f:
                s = f.read(256).split(b"\0")[0].decode()
            if not s:
                return None
            a, b = s.rsplit(" ", 1)
            return a, int(b)
        except (OSError, ValueError):
            return None

    def parse(self, out):
        done = False
        for line in out.splitlines():
            if line.startswith("@V ") and self.unit["cfg"] == "memcheck":
                # valgrind computes long double with 64 bits, which the code and the
                # oracles may notice: only memcheck's own reports count here
                continue
            if line.startswith("@V "):
                v = json.loads(line[3:])
                v["log"] = ""
                self.violations.append(v)
            elif line.startswith("@E "):
                _, s, n = line.split()
                self.evals[s] = self.evals.get(s, 0) + int(n)
            elif line.startswith("@C "):
                _, s, n = line.split()
                self.counters[s] = self.counters.get(s, 0) + int(n)
            elif line.startswith("@M "):
                _, s, n = line.split()
                self.maxima[s] = max(self.maxima.get(s, 0), int(n))
            elif line.startswith("@S "):
                _, s, rest = line.split(" ", 2)
                self.samples.setdefault(s, []).append(json.loads(rest))
            elif line.startswith("@H "):
                _, s, h = line.split()
                self.hashes.setdefault(s, set()).add(h)
            elif line.startswith("@DONE"):
                done = True
        return done

    def timed_run(self):
        t0 = time.time()
        self.run()
        if os.environ.get("VERIF_VERBOSE"):
            print("  %s/%d %.1fs" % (self.unit["name"], self.shard, time.time() - t0))

    def run(self):
        extra = ["--shard", str(self.shard), "--shards", str(self.shards),
                 "--scale", str(self.unit.get("scale", 1.0))]
        base = list(extra)
        for _attempt in range(12):
            rc, hung, out, at = self.launch(extra, self.unit.get("hang_s", HANG_S))
            done = self.parse(out)
            if rc == 0 and done:
                return
            if rc == 3 or at is None:
                self.errors.append("harness %s exited %d\n%s" % (self.unit["name"], rc, out[-3000:]))
                return
            if hung:
                rc2, hung2, out2, _ = self.launch(
                    base[:0] + ["--only", at[0], "--case", str(at[1])], RERUN_S)
                if hung2:
                    self.violations.append({
                        "key": "hang/" + at[0], "scenario": at[0], "case": at[1],
                        "detail": "no progress for %d s, twice" % RERUN_S, "log": out2[-4000:]})
                    return
                if rc2 != 0:
                    self.crash(rc2, out2, at)
            elif rc == -9 and "hard rss" not in out:
                # ended from outside (memory guard): retry alone before judging
                rc2, hung2, out2, _ = self.launch(["--only", at[0], "--case", str(at[1])], RERUN_S)
                if rc2 != 0:
                    self.errors.append("harness killed in %s %d" % at)
                    return
            else:
                self.crash(rc, out, at)
                if self.crashes >= 6:
                    return
            extra = base + ["--resume-scenario", at[0], "--resume-case", str(at[1])]
        self.errors.append("too many restarts of " + self.unit["name"])

    def crash(self, rc, out, at):
        self.crashes += 1
        kind = classify(out, rc)
        lines = [ln for ln in out.splitlines() if not ln.startswith("@")]
        self.violations.append({
            "key": "crash/%s/%s" % (at[0], kind), "scenario": at[0], "case": at[1],
            "detail": "process ended (%d) during this case" % rc,
            "log": "\n".join(lines)[:8000]})


def load_known(check_id):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line)
            if m and m.group(1) == check_id:
                known.append((m.group(2), m.group(3)))
    return known


def run_units(check_id, units, seed, tier, bdir):
    t0 = time.time()
    exes = build_all(units, bdir)
    if os.environ.get("VERIF_VERBOSE"):
        print("build %.1fs" % (time.time() - t0))
    runs = []
    have_valgrind = None
    for u in units:
        if u["name"] not in exes:
            continue
        if u["cfg"] == "memcheck":
            if have_valgrind is None:
                have_valgrind = shutil.which("valgrind") and run_cmd(VALGRIND + ["/bin/true"])[0] == 0
            if not have_valgrind:
                print("note: unit %s skipped, valgrind does not run here" % u["name"])
                continue
        n = u.get("shards", 4)
        for i in range(n):
            runs.append(UnitRun(check_id, u, exes[u["name"]], seed, tier, i, n, bdir))
    with cf.ThreadPoolExecutor(nproc()) as ex:
        list(ex.map(lambda r: r.timed_run(), runs))
    return runs


def self_test():
    """Configuration sanity: every unit's sources exist and every build configuration
    compiles, links and (for sanitizers) really reports a planted error."""
    for pid, spec in CHECKS.items():
        for u in spec["units"]:
            assert u["cfg"] in CONFIGS, (pid, u["cfg"])
            assert os.path.exists(os.path.join(VERIF, "harness", u["src"])), (pid, u["src"])
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    d = tempfile.mkdtemp(prefix="self_", dir=os.path.join(VERIF, "build"))
    bad = {"address": "int main(){volatile int* p=new int[2];delete[] p;return p[0];}",
           "undefined": "#include <climits>\nint main(int c,char**){int x=INT_MAX-1+c;return (x+c)==0;}",
           "thread": "#include <thread>\nint g;int main(){std::thread a([]{for(int i=0;i<9999;i++)g++;});"
                     "for(int i=0;i<9999;i++)g++;a.join();}"}
    try:
        for kind, text in bad.items():
            src, exe = os.path.join(d, kind + ".cpp"), os.path.join(d, kind)
            with open(src, "w") as f:
                f.write(text)
            rc, out = run_cmd(["g++", "-O0", "-fsanitize=" + kind, "-fno-sanitize-recover=all", src,
                               "-o", exe, "-pthread"])
            if rc != 0:
                print("self-test: cannot build with %s\n%s" % (kind, out[-800:]))
                return 2
            e = dict(os.environ)
            e.update(SAN_ENV)
            p = subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                print("self-test: %s sanitizer did not report a planted error" % kind)
                return 2
        if shutil.which("valgrind") and run_cmd(VALGRIND + ["/bin/true"])[0] == 0:
            for kind, body in (("uninitialised", "int* p=new int[2];int r=p[0]>5?2:0;delete[] p;return r*0;"),
                               ("leak", "{int* volatile p=new int[2];p=nullptr;}return 0;")):
                src, exe = os.path.join(d, kind + ".cpp"), os.path.join(d, kind)
                with open(src, "w") as f:
                    f.write("#include <cstdio>\nint main(){%s}" % body.replace("?2:0", "?puts(\"\"):0"))
                rc, out = run_cmd(["g++", "-O0", src, "-o", exe])
                if rc != 0 or run_cmd(VALGRIND + [exe])[0] != 99:
                    print("self-test: memcheck did not report a planted error (%s)" % kind)
                    return 2
        print("self-test ok: %d checks" % len(CHECKS))
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1:] == ["--self-test"]:
        return self_test()
    check_id, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[check_id]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=check_id + "_", dir=os.path.join(VERIF, "build"))
    units = [u for u in spec["units"] if tier == "thorough" or not u.get("thorough_only")]
    try:
        runs = run_units(check_id, units, seed, tier, bdir)
        return judge(check_id, spec, tier, seed, runs, units, time.time() - t0)
    except HarnessError as e:
        print("NO VERDICT property=%s: %s" % (check_id, e))
        return 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def judge(check_id, spec, tier, seed, runs, units, wall):
    evals, counters, maxima, samples, hashes = {}, {}, {}, {}, {}
    violations, errors = [], []
    ran = {r.unit["name"] for r in runs}
    for r in runs:
        pre = r.unit["name"] + ":"
        for k, v in r.evals.items():
            evals[pre + k] = evals.get(pre + k, 0) + v
        for k, v in r.counters.items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r.maxima.items():
            maxima[k] = max(maxima.get(k, 0), v)
        for k, v in r.samples.items():
            samples.setdefault(k, []).extend(v)
        for k, v in r.hashes.items():
            hashes.setdefault(pre + k, set()).update(v)
        for v in r.violations:
            v["unit"] = r.unit["name"]
            violations.append(v)
        errors.extend(r.errors)

    known = load_known(check_id)
    seen_known, fresh = set(), {}
    for v in violations:
        hit = next((k for k in known if k[0] == v["key"]), None)
        if hit:
            seen_known.add(hit)
        else:
            fresh.setdefault(v["key"], v)
    for key, text in known:
        print("KNOWN-FINDING: property=%s %s %s" % (check_id, key, text))

    # A run that observed nothing is not a pass.
    if not errors and not fresh:
        for u in units:
            if u["cfg"] == "memcheck":
                continue  # a time-bounded subset of what the other units judge
            for k in [e for e in evals if e.startswith(u["name"] + ":")]:
                if not hashes.get(k):
                    errors.append("scenario %s observed nothing non-trivial" % k)
        for name, least in spec.get("require", {}).items():
            got = counters.get(name, 0)
            if got < least:
                errors.append("observed only %d of %s (needs %d)" % (got, name, least))

    total = sum(evals.values())
    distinct = sum(len(h) for h in hashes.values())
    flat = []
    for k in sorted(samples):
        flat.extend("%s: %s" % (k, s) for s in samples[k][:2])
    ev = {
        "property": check_id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total, "distinct_nontrivial": distinct,
            "rule": spec["rule"], "samples": flat[:16],
            "per_scenario": {k: {"cases": evals[k], "distinct": len(hashes.get(k, ()))}
                             for k in sorted(evals)},
            "observed": dict(sorted(counters.items())),
            "maxima": dict(sorted(maxima.items())),
            "builds": sorted({"%s=%s" % (u["name"], u["cfg"]) for u in units if u["name"] in ran}),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check_id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, (key, v) in enumerate(sorted(fresh.items())):
            path = os.path.join(VERIF, "replays", "%s_%d.json" % (check_id, i))
            v.update({"property": check_id, "seed": seed, "tier": tier})
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            if i < 8:
                print("%s: %s" % (key, v["detail"][:600]))
                if v["log"]:
                    print("\n".join(v["log"].splitlines()[:14]))
                print("VIOLATION property=%s replay=%s" % (check_id, path))
        return 1
    if errors:
        for e in errors[:6]:
            print("NO VERDICT property=%s: %s" % (check_id, e))
        return 2
    print("held property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs"
          % (check_id, tier, seed, total, distinct, wall))
    return 0


def replay(path):
    v = json.load(open(path))
    spec = CHECKS[v["property"]]
    units = [u for u in spec["units"] if u["name"] == v["unit"]]
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix="replay_", dir=os.path.join(VERIF, "build"))
    try:
        exes = build_all(units, bdir)
        r = UnitRun(v["property"], units[0], exes[units[0]["name"]], v["seed"], v["tier"], 0, 1, bdir)
        rc, hung, out, _ = r.launch(["--only", v["scenario"], "--case", str(v["case"])], RERUN_S)
        r.parse(out)
        print("\n".join(ln for ln in out.splitlines() if not re.match(r"@[HECMS] ", ln)))
        bad = rc != 0 or hung or r.violations != []
        print("replayed: %s" % ("violation" if bad else "no violation"))
        return 1 if bad else 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
