"""Helper used by hand to plant a bug: makes seeded/<name>/ and confirms it in a scratch copy."""
import os, subprocess, json, shutil
SR = "/tmp/sr"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    if not os.path.exists(SR):
        sh("cp -a /repo %s; rm -rf %s/_build %s/bin" % (SR, SR, SR))
    sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % SR)
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", SR).replace("/opt/vp/build.sh", "/tmp/sr_build.sh")
        open("/tmp/sr_" + f, "w").write(s)
DEMO = """#!/bin/bash
# Run in the root of the repository after a build: exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
inc="-Isrc -Isrc/core/common -Isrc/core/distributions -Isrc/core/model -Isrc/core/trainingset -Isrc/models/gmm -Isrc/models/hmm -Isrc/models/kmeans -Idependencies/jsoncpp/include -Idependencies/jsoncpp/src"
g++ -std=c++11 -O1 -w -pthread -DUSE_PTHREAD %s $inc "$d/demo.cpp" %s -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=%d timeout 120 ./demo
"""
HEAD = """#include "xmm.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
using namespace xmm;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
"""
def seed(name, prop, needs, breaks, edits, demo, asan=False, leaks=False, force=False):
    d = V + "/seeded/" + name
    if os.path.exists(d + "/patch.diff") and not force: return
    scratch()
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(HEAD + demo)
    src = "$(find src dependencies/jsoncpp/src -name '*.cpp')" if asan else "bin/Release/libxmm.a"
    open(d + "/demo.sh", "w").write(DEMO % ("-g -fsanitize=address" if asan else "", src, 1 if leaks else 0))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    def run(what):
        b = sh("bash /tmp/sr_test.sh /tmp/sr_out.json")
        r = json.load(open("/tmp/sr_out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        ok = all(t in r["passed"] for t in base)
        q = sh("bash %s/demo.sh" % d, cwd=SR)
        print(name, what, "tests", "ok" if ok else "FAIL " + b.stdout[-600:], "demo", q.returncode, q.stdout.strip()[-300:] if (what == "clean") == bool(q.returncode) else q.stdout.strip().split("\n")[-1][:120])
        return ok, q.returncode
    c = run("clean")
    for f, o, n in edits:
        p = SR + "/" + f
        s = open(p).read()
        assert s.count(o) == 1, (name, f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    open(d + "/patch.diff", "w").write(subprocess.run("git diff", shell=True, cwd=SR, stdout=subprocess.PIPE, text=True).stdout)
    p = run("patched")
    sh("git checkout -q -- .", cwd=SR)
    if not (c[0] and c[1] == 0 and p[0] and p[1] != 0):
        print("   ===> REJECTED", name); os.rename(d + "/patch.diff", d + "/patch.rejected")
