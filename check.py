#!/usr/bin/env python3
"""Decides one property of xmm by symbolic execution of the real code.

  check.py ID [--tier quick|thorough] [--only HARNESS] [-v]
  check.py --replay FILE          re-runs a recorded counterexample natively

Everything is rebuilt from /repo's working tree: the library and jsoncpp are
compiled to LLVM bitcode, linked with the harnesses of the property, executed
symbolically by build/symx, and every counterexample is run against the
natively compiled code before it is reported.
"""
import sys, os, re, json, subprocess, time, tempfile, shutil, argparse, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XMM_REPO", "/repo")
LL = "/usr/lib/llvm-18/bin"
SYMX = os.path.join(HERE, "build", "symx")
INC = [f"-I{REPO}/src"] + [f"-I{d}" for d in
       (REPO + "/src/core/common", REPO + "/src/core/distributions", REPO + "/src/core/model",
        REPO + "/src/core/trainingset", REPO + "/src/models/gmm", REPO + "/src/models/hmm",
        REPO + "/src/models/kmeans", REPO + "/dependencies/jsoncpp/include",
        REPO + "/dependencies/jsoncpp/src", HERE + "/rt", HERE + "/harness")]
NCPU = os.cpu_count() or 4


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def must(cmd):
    r = sh(cmd)
    if r.returncode:
        print("ERROR: " + " ".join(cmd)[:300] + "\n" + r.stdout[:2500])
        sys.exit(2)


def lib_sources():
    out = []
    for d, _, fs in os.walk(REPO + "/src"):
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cpp")]
    return sorted(out)


JSON_SRC = [REPO + "/dependencies/jsoncpp/src/" + f for f in ("json_value.cpp", "json_reader.cpp", "json_writer.cpp")]


def build_engine():
    srcs = glob.glob(HERE + "/engine/*")
    if os.path.exists(SYMX) and all(os.path.getmtime(SYMX) >= os.path.getmtime(s) for s in srcs):
        return
    if os.path.exists(SYMX) and os.environ.get("SYMX_NO_REBUILD"):
        return
    os.makedirs(HERE + "/build", exist_ok=True)
    must(["make", "-s", "-j%d" % NCPU, "-C", HERE + "/engine"])


def build_bitcode(work, files, defs, pool):
    base = ["clang++", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-ffine-grained-bitfield-accesses", "-DUSE_PTHREAD", "-gline-tables-only",
            "-emit-llvm", "-c", "-w"] + INC
    ja = ["-include", HERE + "/rt/json_assert.h"]
    cmds, outs = [], []

    def add(src, extra):
        o = os.path.join(work, "%d_%s.bc" % (len(outs), os.path.basename(src)))
        outs.append(o)
        cmds.append(base + extra + [src, "-o", o])
    for s in lib_sources():
        add(s, ["-std=c++11", "-D_GLIBCXX_EXTERN_TEMPLATE=0"])
    for s in JSON_SRC:
        add(s, ["-std=c++11", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + ja)
    add(HERE + "/rt/rt.cpp", ["-std=c++17", "-fno-builtin", "-D_GLIBCXX_EXTERN_TEMPLATE=-1"])
    for s in files:
        add(s, ["-std=c++11", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + ja + defs)
    list(pool.map(must, cmds))
    allbc, opt = os.path.join(work, "all.bc"), os.path.join(work, "opt.bc")
    must([LL + "/llvm-link"] + outs + ["-o", allbc])
    must([LL + "/opt", "-passes=function(sroa,early-cse,simplifycfg)", allbc, "-o", opt])
    return opt


def build_native(work, files, defs, pool, kind):
    """kind: asan | plain"""
    d = os.path.join(work, "native_" + kind)
    os.makedirs(d, exist_ok=True)
    fl = ["-O1", "-g1", "-std=c++11", "-w", "-pthread", "-DUSE_PTHREAD"] + INC
    if kind == "asan":
        fl += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    cmds, outs = [], []
    for s in lib_sources() + JSON_SRC + [HERE + "/rt/native.cpp"] + files:
        o = os.path.join(d, "%d_%s.o" % (len(outs), os.path.basename(s)))
        outs.append(o)
        cmds.append(["g++"] + fl + (defs if s in files else []) + ["-c", s, "-o", o])
    list(pool.map(must, cmds))
    exe = os.path.join(d, "replay")
    must(["g++"] + (["-fsanitize=address"] if kind == "asan" else []) + ["-rdynamic", "-pthread"] + outs + ["-ldl", "-o", exe])
    return exe


def native_run(exe, entry, inputs, work, seed=None, valgrind=False, timeout=60):
    fd, p = tempfile.mkstemp(dir=work)
    with os.fdopen(fd, "w") as f:
        for n, v in inputs:
            f.write("%s %s\n" % (n, v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=43:allocator_may_return_null=1:alloc_dealloc_mismatch=1")
    cmd = [exe, entry, p] + ([str(seed)] if seed else [])
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=43", "--leak-check=full" if valgrind == "leak" else "--leak-check=no",
               "--errors-for-leak-kinds=definite,indirect"] + cmd
    try:
        r = sh(cmd, env=env, timeout=timeout, cwd=work)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 124, "timeout"
    os.unlink(p)
    return rc, out


def parse_harnesses(pid):
    hs, files = [], sorted(glob.glob(HERE + "/harness/%s*.cpp" % pid))
    for f in files:
        for line in open(f):
            m = re.match(r"//@\s+(H_\w+)(.*)", line)
            if not m:
                continue
            o = {"name": m.group(1), "file": f, "mode": "real", "time": 100, "timeout": 5000, "steps": 20000000, "tier": "both",
                 "shards": 1, "sched": "", "viol": 6, "preempt": 1, "need": "end", "stub": [], "branch": 0}
            for kv in m.group(2).split():
                k, v = kv.split("=", 1)
                if k == "stub":
                    o["stub"].append(v)
                else:
                    o[k] = int(v) if isinstance(o.get(k), int) else v
            hs.append(o)
    return hs, files


def run_symx(h, shard, opt, work, factor, models, verbose):
    out = os.path.join(work, "%s.%d.json" % (h["name"], shard))
    cmd = [SYMX, "--bc", opt, "--entry", h["name"], "--mode", h["mode"], "--timeout-ms", str(h["timeout"] * (2 if factor > 1 else 1)),
           "--max-time", str(h["time"] * factor), "--max-steps", str(h["steps"]), "--max-viol", str(h["viol"]),
           "--models", str(models), "--out", out]
    if h["shards"] > 1:
        cmd += ["--shard", "%d/%d" % (shard, h["shards"])]
    if h["sched"]:
        cmd += ["--sched", h["sched"], "--preempt", str(h["preempt"])]
    if h["branch"]:
        cmd += ["--branch-ms", str(h["branch"])]
    for s in h["stub"]:
        cmd += ["--stub", s]
    if verbose:
        cmd += ["-v"]
    t0 = time.time()
    lim = "ulimit -v 12000000; exec " + " ".join("'%s'" % c for c in cmd)
    try:
        r = sh(["bash", "-c", lim], timeout=h["time"] * factor + 90)
        if verbose:
            print(r.stdout[-6000:])
        d = json.load(open(out))
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        tail = "" if isinstance(e, subprocess.TimeoutExpired) else r.stdout[-300:]
        d = {"entry": h["name"], "mode": h["mode"], "error": "symbolic executor did not finish: %s %s" % (type(e).__name__, tail), "violations": [],
             "inconclusive": [], "reach": {}, "models": [], "functions": [], "assert_sites": {}, "samples": [], "time_up": True, "pending": 1}
    d["h"] = h
    d["shard"] = shard
    d["secs"] = round(time.time() - t0, 2)
    return d


class Replayer:
    def __init__(self, work, files, defs, pool):
        self.work, self.files, self.defs, self.pool, self.exes = work, files, defs, pool, {}

    def exe(self, kind):
        if kind not in self.exes:
            self.exes[kind] = build_native(self.work, self.files, self.defs, self.pool, kind)
        return self.exes[kind]

    def reproduce(self, entry, v, seed):
        """returns (how, output, seed) of a native run that fails, or None"""
        kind = v["kind"]
        tries = []
        if kind in ("uninit", "unreachable"):
            tries = [("plain", "mem"), ("asan", False)]
        elif kind == "leak":
            tries = [("plain", "leak")]
        elif kind == "memory":
            tries = [("asan", False), ("plain", "mem")]
        else:
            tries = [("asan", False)]
        for k, vg in tries:
            rc, out = native_run(self.exe(k), entry, v["inputs"], self.work, valgrind=vg)
            if rc not in (0, 77, 2):
                return (k, vg, None, rc, out)
        if kind in ("assert", "abort"):
            # the assignment may rest on an over-approximated transcendental function or on a
            # value no float can hold: look for a neighbouring concrete one
            n = 60 if any("." in x[1] or "p" in x[1] for x in v["inputs"]) else 0
            for i in range(1, n + 1):
                rc, out = native_run(self.exe("asan"), entry, v["inputs"], self.work, seed=seed * 1000 + i)
                if rc not in (0, 77, 2, 124):
                    return ("asan", False, seed * 1000 + i, rc, out)
        return None

    def witness(self, entry, v, runs):
        # the solver refuted the assertion with an assignment that does not fail in floating point:
        # the model of another path on which the same assertion fails natively
        if v["kind"] != "assert":
            return None
        for d in runs:
            for m in d["models"] if d["h"]["name"] == entry and not d["h"]["sched"] else []:
                rc, out = native_run(self.exe("asan"), entry, m["inputs"], self.work)
                if rc == 42 and "REPLAY-FAIL " + v["msg"] in out:
                    v["inputs"] = m["inputs"]
                    return ("asan", False, None, rc, out)
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--no-models", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.replay:
        d = json.load(open(a.replay))
        work = tempfile.mkdtemp(prefix="xmmreplay.")
        try:
            with ThreadPoolExecutor(NCPU) as pool:
                exe = build_native(work, [os.path.join(HERE, "harness", f) for f in d["files"]], d["defs"], pool, d["build"])
            rc, out = native_run(exe, d["harness"], d["inputs"], work, seed=d.get("seed"), valgrind=d.get("valgrind"))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print(out)
        print("replay exit code", rc)
        sys.exit(1 if rc not in (0, 77) else 0)

    pid = a.pid
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    build_engine()
    hs, files = parse_harnesses(pid)
    hs = [h for h in hs if h["tier"] in ("both", tier)]
    if a.only:
        hs = [h for h in hs if re.search(a.only, h["name"])]
    if not hs:
        print("no harness for", pid)
        sys.exit(2)
    defs = ["-DTHOROUGH=%d" % (tier == "thorough")]
    factor = 6 if tier == "thorough" else 1
    os.makedirs(HERE + "/build", exist_ok=True)
    work = tempfile.mkdtemp(prefix="run.%s." % pid, dir=HERE + "/build")
    try:
        rc = decide(pid, tier, hs, files, defs, factor, work, seed, t0, a)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(pid, tier, hs, files, defs, factor, work, seed, t0, a):
    pool = ThreadPoolExecutor(NCPU)
    opt = build_bitcode(work, files, defs, pool)
    t_build = time.time() - t0
    models = 0 if a.no_models else 4
    jobs = [(h, s) for h in hs for s in range(h["shards"])]
    jobs.sort(key=lambda x: -x[0]["time"])
    rp = Replayer(work, files, defs, pool)
    runs = list(pool.map(lambda j: run_symx(j[0], j[1], opt, work, factor, models, a.v), jobs))
    print("%s: %d harnesses, %d runs, build %.1fs, total %.1fs" % (pid, len(hs), len(runs), t_build, time.time() - t0))

    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*.json")):
        os.unlink(f)

    notes, nviol, reported, knownhit = [], 0, [], {}
    seen = {}
    for d in runs:
        h = d["h"]
        for v in d["violations"]:
            key = (h["name"], v["kind"], v["msg"], v["where"])
            k = next((k for k in known if k["harness"] == h["name"] and k["kind"] == v["kind"] and k["msg"] == v["msg"]
                      and ("function" not in k or k["function"] in v["trace"])), None)
            if k:
                knownhit[k["what"]] = k
                continue
            if seen.get(key):
                continue
            if sum(1 for q in seen if q[0] == h["name"] and seen[q]) >= 2:
                continue  # this harness has already failed twice
            rep = rp.reproduce(h["name"], v, seed) or rp.witness(h["name"], v, runs)
            seen[key] = bool(rep) or seen.get(key, False)
            if not rep:
                notes.append("%s: %s '%s' at %s: counterexample not reproduced natively (inputs %s)" % (
                    h["name"], v["kind"], v["msg"], v["where"], " ".join("%s=%s" % tuple(x) for x in v["inputs"][:12])))
                continue
            nviol += 1
            p = os.path.join(rdir, "%s-%d.json" % (pid, nviol))
            json.dump({"property": pid, "harness": h["name"], "kind": v["kind"], "msg": v["msg"], "where": v["where"], "trace": v["trace"],
                       "inputs": v["inputs"], "files": [os.path.basename(f) for f in files], "defs": defs, "build": rep[0], "valgrind": rep[1],
                       "seed": rep[2], "native_exit": rep[3], "native_output": rep[4][-3000:],
                       "how": "python3 /verif/check.py --replay " + p}, open(p, "w"), indent=1)
            reported.append(p)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  %s: %s '%s' at %s (native exit %s)" % (h["name"], v["kind"], v["msg"], v["trace"][:300], rep[3]))
    for w in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))

    # concrete models of explored paths, run against the natively compiled code
    validated = mismatched = disagreements = 0
    byname = {}
    for d in runs:
        byname.setdefault(d["h"]["name"], []).append(d)
    nat = []
    if models and not nviol:
        exe = rp.exe("asan")
        for d in runs:
            if d["h"]["sched"]:
                continue
            bad = {json.dumps(v["inputs"]) for v in d["violations"]}
            for m in d["models"]:
                if json.dumps(m["inputs"]) not in bad:
                    nat.append((d, m))
        res = list(pool.map(lambda q: native_run(exe, q[0]["h"]["name"], q[1]["inputs"], work), nat))
        for (d, m), (rc, out) in zip(nat, res):
            got = re.search(r"REACHED (.*)", out)
            if rc == 0 and got and sorted(got.group(1).split(",")) == sorted(m["msg"].split(",")):
                validated += 1
            elif rc in (0, 77) or "out-of-memory" in out or "allocation-size-too-big" in out:
                mismatched += 1
                if a.v:
                    print("MISMATCH", d["h"]["name"], m, rc, out[-500:])
            else:
                disagreements += 1
                notes.append("%s: native run of a path model failed although the path was verified: exit %d %s" % (d["h"]["name"], rc, out[-300:].replace("\n", " ")))
                if a.v:
                    print("DISAGREE", m, out)

    # completeness of the exploration
    tot = {}
    for k in ("paths", "completed", "forks", "instructions", "mem_checks", "asserts", "asserts_concrete", "asserts_proved",
              "asserts_within_tolerance", "queries", "sat", "unsat", "unknown", "cache_hits", "identities", "interval_decisions"):
        tot[k] = sum(d.get(k, 0) for d in runs)
    tot["solver_s"] = round(sum(d.get("solver_s", 0) + d.get("identity_s", 0) for d in runs), 2)
    funcs = sorted({f for d in runs for f in d["functions"]})
    per = []
    exhaustive = True
    for h in hs:
        ds = byname[h["name"]]
        reach = {}
        for d in ds:
            for k, n in d["reach"].items():
                reach[k] = reach.get(k, 0) + n
        errs = [d["error"] for d in ds if "error" in d]
        inc = ["%s: %s at %s (x%d)" % (i["kind"], i["msg"], i["where"], i["count"]) for d in ds for i in d["inconclusive"]]
        incomplete = any(d["time_up"] or d["pending"] for d in ds)
        missing = [r for r in h["need"].split(",") if r and r not in reach]
        hv = sum(len(d["violations"]) for d in ds)
        if errs or inc or incomplete or missing:
            exhaustive = False
        if incomplete and not hv:
            notes.append("%s: exploration stopped by the time limit, %d paths pending" % (h["name"], sum(d["pending"] for d in ds)))
        if missing and not hv:
            notes.append("%s: vacuous or unfinished: %s never reached" % (h["name"], ",".join(missing)))
        notes += ["%s: %s" % (h["name"], x) for x in errs + inc]
        per.append({"harness": h["name"], "mode": h["mode"], "paths": sum(d.get("paths", 0) for d in ds), "asserts": sum(d.get("asserts", 0) for d in ds),
                    "reach": reach, "complete": not (errs or inc or incomplete or missing), "seconds": max(d["secs"] for d in ds),
                    "queries": sum(d.get("queries", 0) for d in ds), "solver_s": round(sum(d.get("solver_s", 0) for d in ds), 2)})
    notes = sorted(set(notes))
    for n in notes[:40]:
        print("INCONCLUSIVE " + n)
    bounds = []
    for f in files:
        bounds += [l[4:].strip() for l in open(f) if l.startswith("//% ")]
    samples = []
    for d in runs:
        for m in d["models"][:1]:
            samples.append({"harness": d["h"]["name"], "inputs": " ".join("%s=%s" % tuple(x) for x in m["inputs"][:16]), "reached": m["msg"]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["paths"], "transitions": tot["instructions"], "traces_validated_against_impl": validated,
                       "samples": samples[:12], "exhaustive": bool(exhaustive and not nviol),
                       "functions_encoded": funcs, "functions_encoded_count": len(funcs), "bounds": bounds,
                       "queries_discharged": tot["queries"], "solver_seconds": tot["solver_s"],
                       "path_models_not_comparable": mismatched, "native_disagreements": disagreements,
                       "totals": tot, "harnesses": per, "inconclusive": notes, "known_findings": sorted(knownhit),
                       "what": "states: symbolic paths explored; transitions: LLVM instructions executed symbolically; "
                               "traces_validated_against_impl: concrete models of explored paths run on the natively compiled code with the same outcome"},
          "assumptions": ["the bounds listed under coverage.bounds", "real mode: floating-point arithmetic is interpreted over the exact reals; rounding is outside the claim",
                          "exact mode: IEEE-754 arithmetic", "libstdc++.so, libm and libc are replaced by the models in rt/rt.cpp and engine/handlers.inc"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if not a.only:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    for p in per:
        print("  %-34s %s paths=%-6d asserts=%-6d q=%-5d %.1fs%s" % (p["harness"], p["mode"], p["paths"], p["asserts"], p["queries"], p["seconds"], "" if p["complete"] else "  INCOMPLETE"))
    print("%s: %s; %d paths, %d assertions, %d queries, solver %.1fs, %d native traces agree, %d not comparable, wall %.1fs" % (
        pid, "VIOLATED" if nviol else "held on everything explored", tot["paths"], tot["asserts"], tot["queries"], tot["solver_s"], validated, mismatched, time.time() - t0))
    pool.shutdown()
    return 1 if nviol else 0


if __name__ == "__main__":
    main()
