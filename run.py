#!/usr/bin/env python3
"""Builds the sources of /repo with a harness and runs one check.

  run.py <property> [--tier quick|thorough] [--replay FILE]
  run.py --setup            builds every harness (fills the compiler cache)
"""
import sys, os, json, subprocess, hashlib, glob, time, shutil, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa

JOBS = min(8, os.cpu_count() or 1)
INC = ["-I" + REPO + "/gegelatilib/include", "-I" + REPO + "/lib/JsonCpp",
       "-I" + VERIF + "/harness"]
COMMON = ["-std=c++17", "-DNDEBUG", "-DCODE_GENERATION",
          '-DGEGELATI_VERSION="verif"', "-w", "-g1", "-pthread",
          "-fno-omit-frame-pointer"]
FLAVOURS = {
    # address and undefined behaviour sanitizers: a memory error in the code
    # under test ends the explored execution
    "san": dict(cxx="clang++", c=["-O1", "-fsanitize=address,undefined",
                "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all",
                "-D_GLIBCXX_ASSERTIONS"],
                l=["-fsanitize=address,undefined"]),
    "fast": dict(cxx="clang++", c=["-O2", "-D_GLIBCXX_ASSERTIONS"], l=[]),
    # every memory access calls the runtime of /verif/sched
    "sched": dict(cxx="clang++", c=["-O1", "-fsanitize=thread",
                  "-fno-pie", "-mllvm", "-tsan-instrument-func-entry-exit=0"], l=[]),
    "plain": dict(cxx="clang++", c=["-O2", "-fno-pie"], l=[]),
}
WRAPS = ["_ZN7Mutator3RNG16getUnsignedInt64Emm", "_ZN7Mutator3RNG8getInt32Eii",
         "_ZN7Mutator3RNG9getDoubleEdd",
         "_ZN7Mutator14ProgramMutator17initRandomProgramERN7Program7ProgramERKNS_18MutationParametersERNS_3RNGE",
         "_ZN7Mutator14ProgramMutator13mutateProgramERN7Program7ProgramERKNS_18MutationParametersERNS_3RNGE"]


def ccache():
    return [shutil.which("ccache")] if shutil.which("ccache") else []


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "2G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_SLOPPINESS"] = "time_macros"
    e["HOME"] = e.get("HOME", "/root")
    return e


def compile_one(a):
    fl, src, obj = a
    f = FLAVOURS[fl]
    cmd = ccache() + [f["cxx"]] + COMMON + f["c"] + INC + ["-c", src, "-o", obj]
    r = subprocess.run(cmd, capture_output=True, text=True, env=env())
    return r.returncode, src, r.stderr


def objname(d, src):
    return os.path.join(d, hashlib.md5(src.encode()).hexdigest()[:10] + "_" +
                        os.path.basename(src) + ".o")


def lib_sources():
    s = []
    for root in (REPO + "/gegelatilib/src", REPO + "/lib"):
        for d, _, fs in os.walk(root):
            s += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(s)


def build(pids):
    """returns {pid: binary}; exits with 2 when something does not compile"""
    jobs, link = {}, {}
    for pid in pids:
        c = CHECKS[pid]
        fl = c["flavour"]
        d = os.path.join(BUILD, fl)
        os.makedirs(d, exist_ok=True)
        objs = []
        for s in lib_sources():
            o = objname(d, s)
            jobs[o] = (fl, s, o)
            objs.append(o)
        for s in c["sources"]:
            s = os.path.join(VERIF, s)
            # the runtime parts are never instrumented
            f2 = "plain" if fl == "sched" and "/sched/rt" in s or \
                (fl == "sched" and s.endswith("vp.cpp")) else fl
            d2 = os.path.join(BUILD, f2)
            os.makedirs(d2, exist_ok=True)
            o = objname(d2, s)
            jobs[o] = (f2, s, o)
            objs.insert(0, o)
        link[pid] = (fl, objs, os.path.join(d, c["bin"]), c)
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(compile_one, jobs.values()))
    bad = [r for r in res if r[0]]
    if bad:
        for r in bad:
            sys.stderr.write("cannot compile %s\n%s\n" % (r[1], r[2][:3000]))
        sys.exit(2)
    out = {}
    done = set()
    for pid, (fl, objs, b, c) in link.items():
        out[pid] = b
        if b in done:
            continue
        done.add(b)
        f = FLAVOURS[fl]
        wraps = ["-Wl,--wrap=" + w for w in WRAPS] if c.get("wrap") else []
        cmd = [f["cxx"], "-o", b] + objs + f["l"] + wraps + \
            c.get("ldflags", []) + ["-pthread", "-ldl"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write("cannot link %s\n%s\n" % (b, r.stderr[:6000]))
            sys.exit(2)
    return out


def known_keys(pid):
    keys = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=" + pid + " "):
                rest = line.split(" key=", 1)[1]
                k, _, text = rest.partition(" ")
                keys[k] = text
    return keys


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build(list(CHECKS))
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--replay":
            replay = args[i + 1]
        i += 2
    c = CHECKS[pid]
    t0 = time.time()
    binary = build([pid])[pid]
    tb = time.time() - t0
    work = os.path.join(BUILD, "run")
    rep = os.path.join(BUILD, "replay")
    os.makedirs(work, exist_ok=True)
    os.makedirs(rep, exist_ok=True)
    out = os.path.join(work, pid + ".json")
    if os.path.exists(out):
        os.unlink(out)
    known = known_keys(pid)
    seed = os.environ.get("VERIF_SEED", "1")
    budget = c.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)
    cmd = [binary, "--prop", pid, "--tier", tier, "--out", out,
           "--replay-dir", rep, "--seed", seed, "--jobs", str(JOBS),
           "--budget", str(budget)]
    for k in known:
        cmd += ["--known", k]
    if replay:
        cmd += ["--replay", replay]
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_odr_violation=0"
    e["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=0"
    e["VP_BUILD"] = BUILD
    e["VP_VERIF"] = VERIF
    e["VP_REPO"] = REPO
    try:
        r = subprocess.run(cmd, env=e, cwd=work, timeout=budget + 400)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        sys.stderr.write("the harness did not end\n")
        return 2
    if replay:
        return rc
    if not os.path.exists(out) or rc not in (0, 1):
        # the harness process itself died outside of an explored execution
        sys.stderr.write("the harness failed (exit status %s)\n" % rc)
        if rc < 0 or rc > 1:
            path = os.path.join(rep, pid + "-crash.txt")
            open(path, "w").write("property %s\nscenario *\nkey crash\n" % pid)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 2
    res = json.load(open(out))
    viol = [v for v in res["violations"] if not v["known"]]
    seen_known = [v for v in res["violations"] if v["known"]]
    write_evidence(pid, c, tier, int(seed), res, tb, viol)
    for v in seen_known:
        print("KNOWN-FINDING: property=%s %s %s (%d cases)" %
              (pid, v["key"], known[v["key"]], v["count"]))
    print("%s: %d executions, %d violations, explored in %.1f s (build %.1f s)%s"
          % (pid, res["runs"], len(viol), res["wall_s"], tb,
             "; incomplete: " + "; ".join(res["incomplete"])
             if res["incomplete"] else ""))
    for v in viol:
        print("  [%s] %s" % (v["key"], v["msg"]))
    for v in viol:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    return 1 if viol else 0


def write_evidence(pid, c, tier, seed, res, tb, viol):
    cov = {"counters": res["counters"], "distinct": res["distinct"],
           "explorations": res["explorations"], "bounds": res["bounds"],
           "exhaustive": not res["incomplete"],
           "incomplete": res["incomplete"], "samples": res["samples"],
           "build_s": round(tb, 1)}
    ctr, dis = res["counters"], res["distinct"]

    def val(spec):
        if spec is None:
            return 0
        t = 0
        for s in spec.split("+"):
            t += ctr.get(s, dis.get(s, res["runs"] if s == "runs" else 0))
        return t
    m = c["measure"]
    if c["level"] == "model_checking":
        cov["states"] = val(m["states"])
        cov["transitions"] = val(m["transitions"])
        cov["traces_validated_against_impl"] = val(m["traces"])
    else:
        cov["evaluations"] = val(m["evaluations"])
        cov["distinct_nontrivial"] = val(m["distinct"])
    cov["rule"] = m["rule"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c["level"],
          "coverage": cov, "wall_s": round(res["wall_s"] + tb, 2),
          "assumptions": c.get("assumptions", []),
          "violations": len(viol)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


if __name__ == "__main__":
    sys.exit(main())
