#!/usr/bin/env python3
"""Driver of the solver-based checks.

  vp.py setup                 build the engine (LLVM pass, runtime, replay stub)
  vp.py check ID [tier]       decide one property
  vp.py replay FILE           re-run a recorded counterexample against the real code
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
ENGINE = os.path.join(ROOT, "engine")
BUILD = os.path.join(ROOT, "_build")
CXX = "clang++-18"
# memory which is not initialized gets a conspicuous value (glibc)
os.environ.setdefault("MALLOC_PERTURB_", "85")
# uninitialized variables get a conspicuous value
COMMON = ["-std=c++14", "-w", "-pthread", "-ftrivial-auto-var-init=pattern"]
SYM = COMMON + ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno",
                "-DEIGEN_DONT_VECTORIZE", "-DVP_SYMBOLIC"]
NAT = COMMON + ["-g", "-O0"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def errlines(log):
    """The error lines of a compiler's output."""
    e = [l for l in log.splitlines() if "error" in l]
    return "\n".join(e[:8]) if e else log[-1500:]


# ---------------------------------------------------------------- engine
def engine():
    """Builds the engine once per content of engine/; returns its directory."""
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(ENGINE, "*"))):
        h.update(open(f, "rb").read())
    d = os.path.join(BUILD, "engine-" + h.hexdigest()[:16])
    if os.path.exists(os.path.join(d, "ok")):
        return d
    os.makedirs(BUILD, exist_ok=True)
    t = tempfile.mkdtemp(prefix="engine-tmp-", dir=BUILD)
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    jobs = [
        [CXX, "-O1", "-fPIC", "-shared"] + flags + [os.path.join(ENGINE, "pass.cpp"), "-o", os.path.join(t, "vps.so")],
        ["g++", "-std=c++17", "-O2", "-c", os.path.join(ENGINE, "runtime.cpp"), "-o", os.path.join(t, "runtime.o")],
        [CXX, "-std=c++14", "-O1", "-c", os.path.join(ENGINE, "native.cpp"), "-o", os.path.join(t, "native.o")],
    ]
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode:
                print(r.stdout)
                sys.exit("engine build failed")
    open(os.path.join(t, "ok"), "w").close()
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    return d


# ---------------------------------------------------------------- the code under test
def includes(scratch):
    """The include tree the project's build creates, copied from the current working tree."""
    inc = os.path.join(scratch, "include", "humoto")
    os.makedirs(inc)

    def cp(src):
        if os.path.isdir(src):
            shutil.copytree(src, inc, dirs_exist_ok=True)
    cp(os.path.join(REPO, "core", "include"))
    for m in ("pepper_mpc", "wpg04", "pepper_ik"):
        cp(os.path.join(REPO, "modules", m, "include"))
    for b in ("config_msgpack", "config_yaml", "qpOASES", "qpmad", "QuadProgpp", "rbdl"):
        cp(os.path.join(REPO, "bridges", b, "interface"))
    oa = os.path.join(REPO, "bridges", "obstacle_avoidance")
    if os.path.isdir(oa):
        for f in glob.glob(os.path.join(oa, "*.h")):
            shutil.copy(f, inc)
        if os.path.isdir(os.path.join(oa, "obstacles")):
            shutil.copytree(os.path.join(oa, "obstacles"), os.path.join(inc, "obstacles"), dirs_exist_ok=True)
    with open(os.path.join(inc, "build_config.h"), "w") as f:
        f.write("#define HUMOTO_COMPILER_SUPPORTS_FUNC_\n#define HUMOTO_COMPILER_SUPPORTS_FUNCTION_\n"
                "#define HUMOTO_DEFAULT_CONFIG_PREFIX \"/usr/local/share/humoto/config/\"\n"
                "#ifndef VP_NO_LOGGING_THREADS\n#define HUMOTO_USE_THREADS_FOR_LOGGING\n#endif\n"
                "#define HUMOTO_GIT_COMMIT_INFO \"\"\n"
                "#define HUMOTO_BRIDGE_config_msgpack\n#define HUMOTO_BRIDGE_obstacle_avoidance\n"
                "#define HUMOTO_MODULE_pepper_mpc\n#define HUMOTO_MODULE_wpg04\n")
    return os.path.join(scratch, "include")


def srcopts(src):
    """Per-source options: lines '// VP: key=value ...' """
    o = {}
    for l in open(src):
        m = re.match(r"//\s*VP:\s*(.*)", l)
        if m:
            for kv in m.group(1).split():
                k, _, v = kv.partition("=")
                o.setdefault(k, []).append(v)
    return o


def compile_one(src, inc, eng, scratch, mode):
    name = os.path.splitext(os.path.basename(src))[0] + "." + mode
    obj = os.path.join(scratch, name + ".o")
    out = os.path.join(scratch, name)
    o = srcopts(src)
    defs = ["-D" + d for d in o.get("define", [])] + ["-DVP_REPO_DIR=\"%s\"" % REPO]
    if "unchecked" not in o:
        # indices of standard containers are checked
        defs.append("-D_GLIBCXX_ASSERTIONS")
    stubs = []
    for s in o.get("stubs", []):
        stubs += ["-I", os.path.join(ROOT, "harness", "stubs", s)]
    flags = (SYM + ["-fpass-plugin=" + os.path.join(eng, "vps.so")]) if mode == "sym" else NAT + (["-fsanitize=address"] if mode == "asan" else [])
    cmd = [CXX] + flags + defs + ["-I", inc] + stubs + ["-I", ENGINE, "-I", os.path.join(ROOT, "harness"),
                                                       "-isystem", "/usr/include/eigen3", "-c", src, "-o", obj]
    t0 = time.time()
    r = sh(cmd)
    if r.returncode:
        return None, r.stdout, time.time() - t0
    if mode == "sym":
        r = sh(["g++", os.path.join(eng, "runtime.o"), obj, "-o", out, "-lz3", "-lgmpxx", "-lgmp", "-lpthread"])
    else:
        r = sh([CXX] + (["-fsanitize=address"] if mode == "asan" else []) + [os.path.join(eng, "native.o"), obj, "-o", out, "-lpthread"])
    if r.returncode:
        return None, r.stdout, time.time() - t0
    os.unlink(obj)
    return out, "", time.time() - t0


def harnesses(binary):
    return [x for x in sh([binary]).stdout.split() if x]


# ---------------------------------------------------------------- running
def run_harness(binary, name, log, opts, limit):
    if os.path.exists(log):
        os.unlink(log)
    args = [binary, name, log] + ["%s=%s" % kv for kv in opts.items()]
    try:
        p = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=open(log + ".err", "w"), start_new_session=True, cwd=os.path.dirname(log))
        p.wait(timeout=limit)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        to = True
    recs = []
    if os.path.exists(log):
        for l in open(log, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    return recs, to


def write_replay(path, prop, src, harness, msg, cand, limit=None):
    with open(path, "w") as f:
        f.write("!property=%s\n!source=%s\n!harness=%s\n!failing=%s\n" % (prop, os.path.basename(src), harness, msg.replace("\n", " ")))
        for k, v in cand.items():
            f.write("%s=%s\n" % (k, v))


def run_replay(binary, harness, path, limit=60):
    try:
        r = subprocess.run([os.path.abspath(binary), harness, os.path.abspath(path)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit, cwd=os.path.dirname(os.path.abspath(binary)))
    except subprocess.TimeoutExpired:
        return "timeout", "does not terminate within %d s" % limit
    if r.returncode == 0:
        return "ok", ""
    if r.returncode == 3:
        return "assume", ""
    m = re.search(r"REPLAY-FAIL (.*)", r.stdout)
    if m:
        return "fail", m.group(1)
    if r.returncode < 0 or r.returncode not in (0, 1, 3, 4):
        e = [l for l in r.stderr.splitlines() if "Assert" in l or "ERROR" in l or "terminate" in l]
        return "crash", "exit %d %s" % (r.returncode, e[0][:300] if e else "")
    return "other", "exit %d" % r.returncode


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)).get("findings", []) if os.path.exists(p) else []


def logname(scratch, src, harness):
    return os.path.join(scratch, "%s.%s.log" % (os.path.basename(src), harness))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    conf = json.load(open(os.path.join(ROOT, "checks.json")))[prop]
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=os.environ.get("VP_TMP", "/tmp"))
    try:
        return check_in(prop, tier, seed, conf, scratch, t0)
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)


def check_in(prop, tier, seed, conf, scratch, t0):
    eng = engine()
    inc = includes(scratch)
    srcs = [os.path.join(ROOT, "harness", s) for s in conf["sources"]]
    only = os.environ.get("VP_ONLY")
    budget = float(conf.get("budget", 700)) if tier == "quick" else float(conf.get("thorough_budget", 3000))
    out = {"violations": [], "known": [], "undecided": [], "errors": []}
    tot = {}
    fns, reached, samples, per, truncated, unconfirmed = set(), set(), [], [], [], []
    replays = 0
    jobs = []
    nat = {}
    ex = cf.ThreadPoolExecutor(8)
    fs = {s: ex.submit(compile_one, s, inc, eng, scratch, "sym") for s in srcs}
    fn = {s: ex.submit(compile_one, s, inc, eng, scratch, "nat") for s in srcs}
    binaries = {}
    for s in srcs:
        b, log, dt = fs[s].result()
        if b is None:
            out["errors"].append("%s does not compile: %s" % (os.path.basename(s), errlines(log)))
            continue
        binaries[s] = b
    for s, b in binaries.items():
        o = srcopts(s)
        for h in harnesses(b):
            if h.endswith("_thorough") and tier != "thorough":
                continue
            if only and not re.search(only, h):
                continue
            opts = {"seed": seed, "tokens": 2, "psec": 120, "qsec": 15, "time": int(budget * 0.8)}
            for spec in o.get("opt", []) + (o.get("thorough", []) if tier == "thorough" else []):
                hn, _, kv = spec.partition(":")
                if hn == h or hn == "*":
                    k, _, v = kv.partition(":")
                    opts[k] = v
            jobs.append((s, h, opts))
    for s in srcs:
        b, log, dt = fn[s].result()
        if b is None:
            out["errors"].append("%s does not compile natively: %s" % (os.path.basename(s), errlines(log)))
        else:
            nat[s] = b
    par = int(conf.get("parallel", 5))
    kf = [k for k in known_findings() if k["property"] == prop]
    rdir = os.path.join(ROOT, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)

    def work(j):
        s, h, opts = j
        return j, run_harness(binaries[s], h, logname(scratch, s, h), opts, budget)
    pool = cf.ThreadPoolExecutor(par)
    asan = {}
    nrep = 0
    for (s, h, opts), (recs, to) in pool.map(work, jobs):
        st = {}
        if to:
            truncated.append("%s: harness exceeded its time" % h)
        viols, und, paths, hreach = [], [], [], set()
        for r in recs:
            t = r.get("t")
            if t == "stat":
                st = r
            elif t == "fn":
                fns.add(r["what"])
            elif t == "reach":
                hreach.add(r["what"])
            elif t == "viol":
                viols.append(r)
            elif t == "undecided":
                und.append(r)
            elif t == "path":
                paths.append(r)
            elif t == "truncated":
                truncated.append("%s: %s" % (h, r["what"]))
            elif t in ("died", "z3error"):
                out["undecided"].append("%s: %s %s" % (h, t, r["what"]))
        if not st and not to:
            err = ""
            try:
                err = open(logname(scratch, s, h) + ".err").read()[-300:]
            except OSError:
                pass
            out["errors"].append("%s: no result %s" % (h, err))
        reached |= {h + ": " + x for x in hreach}
        for k, v in st.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        per.append({"harness": h, "paths": st.get("paths", 0), "decisions": st.get("decisions", 0), "obligations": st.get("checks", 0) + st.get("eqs", 0),
                    "queries": st.get("queries", 0), "solver_s": round(st.get("solver_s", 0), 3), "wall_s": round(st.get("wall", 0), 2)})
        if st and st.get("checks", 0) + st.get("eqs", 0) == 0 and not viols:
            out["errors"].append("%s: no obligation was reached" % h)
        if s not in nat:
            continue
        # candidate violations: replay against the real code
        done = set()
        for kind, group in (("viol", viols), ("undecided", und)):
            for r in group:
                msg = r.get("msg", r.get("what"))
                if (kind, msg) in done:
                    continue
                conf_ = None
                for c in r["cands"]:
                    nrep += 1
                    rp = os.path.join(scratch, "replay-%d.txt" % nrep)
                    write_replay(rp, prop, s, h, msg, c)
                    res, why = run_replay(nat[s], h, rp)
                    if res == "ok" and r.get("kind") == "crash":
                        if s not in asan:
                            asan[s] = compile_one(s, inc, eng, scratch, "asan")[0]
                        if asan[s]:
                            res, why = run_replay(asan[s], h, rp)
                    if res in ("fail", "crash", "timeout"):
                        conf_ = (rp, why if res == "fail" else res + ": " + why, res)
                        break
                if conf_:
                    done.add((kind, msg))
                    k = [x for x in kf if x.get("harness") == h and re.search(x["match"], conf_[1])]
                    if k:
                        out["known"].append((h, conf_[1], k[0]))
                        continue
                    os.makedirs(rdir, exist_ok=True)
                    dst = os.path.join(rdir, "%s-%d.txt" % (h, len(out["violations"])))
                    shutil.copy(conf_[0], dst)
                    out["violations"].append((h, conf_[1], dst))
                    if os.environ.get("VP_FAILFAST"):
                        print("FAILFAST %s: %s" % (h, conf_[1]), flush=True)
                elif kind == "viol":
                    unconfirmed.append("%s: %s" % (h, msg))
        for r in und:
            out["undecided"].append("%s: %s" % (h, r["what"]))
        # validate the encoding: concrete members of the explored paths, on the real build
        nval = 0
        for r in sorted(paths, key=lambda r: -r.get("decisions", 0)):
            if r["end"] != "ok" or not r.get("sample") or nval >= 6:
                continue
            nval += 1
            nrep += 1
            rp = os.path.join(scratch, "replay-%d.txt" % nrep)
            write_replay(rp, prop, s, h, "sampled path", r["sample"])
            res, why = run_replay(nat[s], h, rp)
            if res == "ok":
                replays += 1
                if len(samples) < 12:
                    samples.append({"harness": h, "decisions_on_path": r["decisions"], "values": r["sample"], "replay": "passed on the real build"})
            elif res in ("fail", "crash", "timeout"):
                if any(x.get("harness") == h and re.search(x["match"], why) for x in kf):
                    continue
                if any(v[0] == h for v in out["violations"]):
                    continue
                os.makedirs(rdir, exist_ok=True)
                dst = os.path.join(rdir, "%s-%d.txt" % (h, len(out["violations"])))
                shutil.copy(rp, dst)
                out["violations"].append((h, why if res == "fail" else res + ": " + why, dst))
    for u in unconfirmed:
        out["undecided"].append("counterexample does not replay: " + u)
    out["undecided"] += ["bound reached: " + x for x in sorted(set(truncated))]
    wall = time.time() - t0
    obligations = int(tot.get("checks", 0) + tot.get("eqs", 0))
    cov = {
        "states": int(tot.get("paths", 0)), "transitions": int(tot.get("decisions", 0)), "traces_validated_against_impl": replays,
        "samples": samples, "obligations_on_all_paths": obligations,
        "discharged_by": {"solver_query": int(tot.get("solver_checked", 0)), "ring_identity": int(tot.get("identities", 0)),
                          "ring_identities_confirmed_by_z3_on_raw_terms": int(tot.get("confirmed", 0)),
                          "bounded_residue_query": int(tot.get("bounded", 0)), "constant_on_the_path": int(tot.get("constant", 0))},
        "solver": {"queries": int(tot.get("queries", 0)), "unsat": int(tot.get("unsat", 0)), "sat": int(tot.get("sat", 0)),
                   "unknown": int(tot.get("unknown", 0)), "seconds": round(tot.get("solver_s", 0), 3), "name": "z3 4.8.12 (C API)"},
        "branches_shown_feasible_by_a_witness": int(tot.get("sample_decided", 0)),
        "paths_cut_by_assumptions": int(tot.get("cut_by_assume", 0)),
        "functions_encoded": sorted(fns), "obligations_reached": sorted(reached), "harnesses": per,
        "undecided": sorted(set(out["undecided"]))[:50], "bounds": conf.get("bounds", ""),
        "known_findings_seen": ["%s: %s" % (h, m) for h, m, _ in out["known"]],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "model_checking"), "coverage": cov,
          "assumptions": conf.get("assumptions", []) + BASE_ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(out["violations"])}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
    for h, m, k in sorted(set((h, k["id"], k["what"]) for h, m, k in out["known"])):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, h))
    for e in out["errors"]:
        print("ERROR: " + e)
    for u in sorted(set(out["undecided"]))[:20]:
        print("UNDECIDED: " + u)
    for h, m, p in out["violations"]:
        print("  %s: %s" % (h, m))
    print("%s %s: %d harnesses, %d paths, %d obligations, %d queries (%.1f s solver), %d native replays, %.1f s" % (
        prop, tier, len(per), cov["states"], obligations, cov["solver"]["queries"], cov["solver"]["seconds"], replays, wall))
    if out["violations"]:
        seen = set()
        for h, m, p in out["violations"]:
            if h in seen:
                continue
            seen.add(h)
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, ROOT)))
        return 1
    # a harness that no longer builds leaves its part undecided (ERROR above); no answer at all is an error
    if out["errors"] and not obligations:
        return 2
    return 0


BASE_ASSUMPTIONS = [
    "doubles are modelled as exact reals (inf/nan concrete); equalities are decided up to 1e-7 (absolute)",
    "the code is compiled by clang 18 at -O1 without vectorisation for the encoding; counterexamples and path samples are replayed on an uninstrumented -O0 build",
    "uninstrumented library code (libstdc++, libc) does not handle symbolic values (checked at run time: such a flow is reported as undecided)",
]


def replay(path):
    meta = dict(l[1:].rstrip("\n").split("=", 1) for l in open(path) if l.startswith("!"))
    scratch = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        eng = engine()
        inc = includes(scratch)
        b, log, _ = compile_one(os.path.join(ROOT, "harness", meta["source"]), inc, eng, scratch, "nat")
        if not b:
            print(log)
            return 2
        res, why = run_replay(b, meta["harness"], path)
        print(res, why)
        return 1 if res in ("fail", "crash", "timeout") else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        engine()
    elif sys.argv[1] == "check":
        sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")))
    elif sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
