#!/usr/bin/env python3
"""Work on planted bugs in a scratch copy (/tmp/seedwt), never in /repo.

  seed.py make ID FILE   edit FILE (relative to the repo) with OLD/NEW read from
                         stdin separated by a line '=====' (several edits are
                         separated by '#####'), writes seeded/ID/patch.diff
  seed.py verify ID...   build + stable tests + demo with and without the patch
  seed.py catch [-t] ID...  run the property's check against the patched copy
  seed.py matrix         run every planted bug's check
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
WT = os.environ.get("SEED_WT", "/tmp/seedwt")
R = WT + "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prep():
    os.makedirs(R, exist_ok=True)
    sh("rsync -a --delete --checksum --exclude=_build --exclude=.git /repo/ %s/ || "
       "(cd /repo && git archive HEAD | tar x -C %s)" % (R, R))
    os.makedirs(WT + "/cmake", exist_ok=True)
    s = open("/opt/vp/cmake/CMakeLists.txt").read().replace("set(REPO /repo)", "set(REPO %s)" % R)
    p = WT + "/cmake/CMakeLists.txt"
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)
    if not os.path.isdir(R + "/.git"):
        sh("cd %s && git init -q && git add -A . && git -c user.name=x -c user.email=x commit -qm x" % R)
    else:
        sh("cd %s && git add -A . && git -c user.name=x -c user.email=x commit -qm sync" % R)


def build():
    r = sh("cmake -S %s/cmake -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE= && ninja -C %s/_build -j8" % (WT, R, R),
           env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", LC_ALL="C.UTF-8"))
    return r.returncode == 0, r.stdout[-3000:]


def tests():
    r = sh("OMP_NUM_THREADS=4 ctest --test-dir %s/_build -j4 --timeout 300" % R)
    return r.returncode == 0, r.stdout[-1500:]


def demo(i):
    return sh("cd %s && timeout 300 bash %s/%s/demo.sh" % (R, SEEDED, i))


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        i, f = args
        prep()
        p = os.path.join(R, f)
        s = open(p).read()
        for edit in sys.stdin.read().split("#####\n"):
            old, new = edit.split("=====\n")
            if s.count(old) != 1:
                sys.exit("old text occurs %d times:\n%s" % (s.count(old), old))
            s = s.replace(old, new)
        open(p, "w").write(s)
        d = sh("cd %s && git diff" % R).stdout
        os.makedirs(os.path.join(SEEDED, i), exist_ok=True)
        mode = "a" if os.environ.get("APPEND") else "w"
        open(os.path.join(SEEDED, i, "patch.diff"), mode).write(d)
        sh("cd %s && git checkout -q -- ." % R)
        return
    if cmd == "verify":
        prep()
        for i in args:
            b, o = build()
            if not b:
                print(i, "BASE BUILD FAILED", o)
                continue
            d0 = demo(i)
            a = sh("cd %s && git apply %s/%s/patch.diff" % (R, SEEDED, i))
            if a.returncode:
                print(i, "PATCH DOES NOT APPLY", a.stdout)
                continue
            b, o = build()
            t, to = tests() if b else (False, "")
            d1 = demo(i)
            sh("cd %s && git checkout -q -- ." % R)
            ok = d0.returncode == 0 and d1.returncode != 0 and b and t
            print(i, "OK" if ok else "BAD", "demo0=%d demo1=%d build=%s tests=%s" % (d0.returncode, d1.returncode, b, t),
                  flush=True)
            if not ok:
                print(o if not b else "", to if not t else "", d0.stdout[-1500:] if d0.returncode else "", d1.stdout[-500:])
        return
    if cmd in ("catch", "matrix"):
        tier = "quick"
        if args and args[0] == "-t":
            tier, args = "thorough", args[1:]
        ids = args or sorted(os.listdir(SEEDED))
        for i in ids:
            C = "/tmp/seedck/repo"
            sh("mkdir -p /tmp/seedck; rm -rf /tmp/seedck/repo; cp -a /repo /tmp/seedck/repo; rm -rf /tmp/seedck/repo/_build")
            a = sh("cd %s && git apply %s/%s/patch.diff" % (C, SEEDED, i))
            meta = json.load(open("%s/%s/meta.json" % (SEEDED, i)))
            if a.returncode:
                print(i, "PATCH DOES NOT APPLY", a.stdout)
                continue
            r = sh("cd %s && VERIF_REPO=%s timeout 900 python3 check.py %s %s" % (HERE, C, meta["property"], tier))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, meta["property"], "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode,
                  " ".join(l[:160] for l in r.stdout.splitlines() if "key=" in l or "violation" in l.lower())[:300], flush=True)
        return


if __name__ == "__main__":
    main()
