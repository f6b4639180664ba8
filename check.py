#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

usage: check.py <PROPERTY> [--tier quick|thorough] [--case REGEX] [-v]

1. compiles /repo's current sources twice: instrumented (every floating point
   operation becomes a call to the symbolic runtime) and native (as shipped);
2. runs every case of harness/<PROPERTY>.cpp symbolically; the solver decides
   each assertion on every path;
3. replays every path model and every counterexample on the native build;
4. writes evidence/<PROPERTY>.json, prints VIOLATION lines, exits 0 or 1.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, math, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(HERE, "build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
EXCL = ("Optimization/ipopt_interface.cpp", "Optimization/ipopt_solver.cpp",
        "Collocation/GaussLobattoLagrangeFunctionals.cpp")
EIG = "/usr/include/eigen3"
CLANG = shutil.which("clang++-18") or "clang++"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
SYMF = ["-std=c++17", "-O1", "-g0", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize",
        "-DEIGEN_DONT_VECTORIZE", "-DSYM", "-Wno-everything", "-include", "stdlib.h", "-include", "math.h", "-I" + os.path.join(HERE, "engine"), "-I" + EIG]
NATF = ["-std=c++17", "-O2", "-g0", "-w", "-I" + os.path.join(HERE, "engine"), "-I" + EIG]
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def hfiles(fs):
    h = hashlib.sha256()
    for f in sorted(fs):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as x:
            h.update(x.read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_engine():
    e = os.path.join(HERE, "engine")
    key = hfiles(glob.glob(e + "/*.cpp") + glob.glob(e + "/*.hpp"))
    d = os.path.join(B, "engine-" + key)
    with Lock("engine"):
        if not os.path.exists(d + "/ok"):
            for o in glob.glob(os.path.join(B, "engine-*")):
                shutil.rmtree(o, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            lc = shutil.which("llvm-config-18") or "/usr/lib/llvm-18/bin/llvm-config"
            inc = sh([lc, "--cxxflags"]).split()
            jobs = [
                [CLANG, "-O1", "-fPIC", "-shared", "-fno-rtti"] + inc + ["-std=c++17", "-w", e + "/SymPass.cpp", "-o", d + "/SymPass.so"],
                ["g++", "-std=c++17", "-O2", "-w", "-c", "-I" + Z3 + "/include", "-I" + EIG, "-I" + e, e + "/runtime.cpp", "-o", d + "/runtime.o"],
                ["g++", "-std=c++17", "-O1", "-w", "-c", "-I" + EIG, "-I" + e, e + "/replay.cpp", "-o", d + "/replay.o"]]
            with cf.ThreadPoolExecutor(3) as ex:
                list(ex.map(sh, jobs))
            open(d + "/ok", "w").close()
    return d


def repo_sources(ifopt=False):
    s = []
    for root, _, fs in os.walk(REPO + "/src"):
        for f in fs:
            p = os.path.join(root, f)
            if f.endswith(".cpp") and (ifopt or not p.endswith(EXCL)):
                s.append(p)
    hs = []
    for root, _, fs in os.walk(REPO + "/include"):
        hs += [os.path.join(root, f) for f in fs]
    # headers kept next to the sources
    for root, _, fs in os.walk(REPO + "/src"):
        hs += [os.path.join(root, f) for f in fs if not f.endswith(".cpp")]
    return sorted(s), sorted(hs)


def build(prop, harnesses, eng, ifopt=False):
    """returns (sym executable, native executable); ifopt: also the sources
    that need ifopt, compiled against the stand-in of its interfaces"""
    srcs, hdrs = repo_sources(ifopt)
    stub = os.path.join(HERE, "ifopt_stub")
    stubh = glob.glob(stub + "/ifopt/*.h")
    ek = os.path.basename(eng)
    hk = hfiles(hdrs)
    ok = hfiles(glob.glob(HERE + "/harness/*.hpp"))
    lu_hdr = any(b"SparseLU" in open(h, "rb").read() for h in hdrs)
    objd = os.path.join(B, "obj")
    os.makedirs(objd, exist_ok=True)
    inc = ["-I" + REPO + "/include"]
    jobs = []

    def obj(src, kind, flags):
        with open(src, "rb") as x:
            body = x.read()
        if kind == "sym" and not src.startswith(HERE) and (b"SparseLU" in body or lu_hdr):
            flags = list(flags) + ["-include", HERE + "/engine/lustub.hpp"]
        k = hashlib.sha256(body + b"|".join([src.encode(), hk.encode(), ek.encode() if kind == "sym" or src.startswith(HERE) else b"", ok.encode() if src.startswith(HERE) else b"", kind.encode(), " ".join(flags).encode()])).hexdigest()[:20]
        o = os.path.join(objd, k + ".o")
        if kind == "sym":
            cmd = [CLANG, "-fpass-plugin=" + eng + "/SymPass.so"] + SYMF + inc + list(flags) + ["-c", src, "-o"]
        else:
            cmd = ["g++"] + NATF + inc + list(flags) + ["-c", src, "-o"]
        if not os.path.exists(o):
            jobs.append((cmd, o))
        return o

    def ex(s):
        return ["-I" + stub, "-DIFOPT_STUB=" + hfiles(stubh)] if ifopt and (s.startswith(HERE) or s.endswith(EXCL)) else []
    libsym = [obj(s, "sym", ex(s)) for s in srcs]
    libnat = [obj(s, "nat", ex(s)) for s in srcs]
    hsym = [obj(h, "sym", ex(h)) for h in harnesses]
    hnat = [obj(h, "nat", ex(h)) for h in harnesses]

    def run(j):
        cmd, o = j
        t = o + ".%d.tmp" % os.getpid()
        sh(cmd + [t])
        os.replace(t, o)
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0][-2]) - (10**6 if "harness" in j[0][-2] else 0))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(run, jobs))
    d = os.path.join(B, "bin", prop)
    os.makedirs(d, exist_ok=True)
    s, n = d + "/sym", d + "/native"
    sh([CLANG] + hsym + libsym + [eng + "/runtime.o", "-Wl,--wrap=malloc", "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-lgmpxx", "-lgmp", "-lpthread", "-o", s])
    sh(["g++"] + hnat + libnat + [eng + "/replay.o", "-Wl,--wrap=malloc", "-lpthread", "-o", n])
    return s, n


def read_jsonl(p):
    r = []
    try:
        with open(p, errors="replace") as f:
            for l in f:
                try:
                    r.append(json.loads(l))
                except ValueError:
                    r.append({"k": "unsupported", "what": "garbled record"})
    except FileNotFoundError:
        pass
    return r


class Native:
    def __init__(self, exe, tmp):
        self.exe, self.tmp, self.n = exe, tmp, 0

    def run(self, case, model=None, seed=None, tag="", timeout=60):
        base = os.path.join(self.tmp, "nat-%s-%s" % (case, tag))
        cmd = [self.exe, "--case", case, "--out", base + ".out"]
        if model is not None:
            with open(base + ".model", "w") as f:
                for k, v in model.items():
                    f.write("%s %r\n" % (k, v))
            cmd += ["--model", base + ".model"]
        if seed is not None:
            cmd += ["--random", str(seed)]
        try:
            subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
        except subprocess.TimeoutExpired:
            return [{"k": "hang"}]
        r = read_jsonl(base + ".out")
        for x in (base + ".out", base + ".model"):
            try:
                os.unlink(x)
            except OSError:
                pass
        return r


def fnum(x):
    return float(x)


def native_fail(recs):
    """first natively observed failure in a run (formal oracles are NaN and skipped)"""
    for r in recs:
        if r["k"] == "crash":
            return "crash", "crash", r
        if r["k"] == "exception":
            return "exception", "exception", r
        if r["k"] == "hang":
            return "hang", "hang", r
        if r["k"] == "true" and not r["c"]:
            return "true", r["l"], r
        if r["k"] == "eq":
            a, b = fnum(r["a"]), fnum(r["b"])
            if r["b"] == "nan" and r["a"] != "nan":
                continue
            if math.isnan(a) or math.isinf(a) or abs(a - b) > fnum(r["tol"]) * 1.0000001 + 1e-300:
                return "eq", r["l"], r
    return None


def reproduces(v, recs):
    t = v["type"]
    if t == "crash":
        return any(r["k"] == "crash" for r in recs)
    if t == "exception":
        return any(r["k"] == "exception" for r in recs)
    for r in recs:
        if r.get("l") != v["label"]:
            continue
        if t == "true" and r["k"] == "true":
            return not r["c"]
        if t == "eq" and r["k"] == "eq":
            a = fnum(r["a"])
            b = fnum(r["b"])
            if r["b"] == "nan":
                b = fnum(v["spec"])
                # formal oracle: the engine must also have predicted the implementation's value
                ip = fnum(v["impl"])
                if not (abs(a - ip) <= 1e-6 * (1 + abs(ip)) or math.isnan(a) or math.isinf(a)):
                    return False
            return not (abs(a - b) <= fnum(v["tol"]))
    # label not reached natively: accept only a crash/exception
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("-v", action="store_true")
    A = ap.parse_args()
    prop = A.prop
    if A.setup:
        eng = build_engine()
        for p, c in sorted(json.load(open(HERE + "/harness/config.json")).items()):
            try:
                build(p, [os.path.join(HERE, "harness", h) for h in c.get("sources", [p + ".cpp"])], eng, c.get("ifopt", False))
            except RuntimeError as e:  # the check itself reports what does not build
                log("setup:", p, str(e)[-300:])
            log("built", p)
        return 0
    tier = "thorough" if A.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = json.load(open(HERE + "/harness/config.json"))[prop]
    eng = build_engine()
    hs = [os.path.join(HERE, "harness", h) for h in cfg.get("sources", [prop + ".cpp"])]
    log("engine ready")
    symx, natx = build(prop, hs, eng, cfg.get("ifopt", False))
    log("built")
    tmp = os.path.join(B, "run", prop + ("" if A.case is None else "-dev"))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    nat = Native(natx, tmp)
    cases = [l.split("\t") for l in sh([symx, "--list"]).splitlines() if l.strip()]
    pat = cfg.get("cases")
    cases = [c for c, t in cases if (tier == "thorough" or t == "0") and (not A.case or re.search(A.case, c)) and (not pat or re.search(pat, c))]
    assert cases, "no cases"
    limit = cfg.get("limit", {}).get(tier, 240 if tier == "quick" else 1500)
    total = [720 if tier == "quick" else 1e9]  # seconds from the start; shortened once a violation is confirmed
    known = [json.loads(l) for l in open(HERE + "/known_findings.jsonl") if l.strip() and not l.startswith("#")] if os.path.exists(HERE + "/known_findings.jsonl") else []
    known = [k for k in known if k.get("status") == "open" and k["property"] == prop]

    bad_cases = set()  # cases with a violation that is not a listed finding

    def do(case):
        if len(bad_cases) >= 12:
            return None
        left = total[0] - (time.time() - T0)
        R = do1(case, min(limit, left)) if left > 5 else dict(blank(case), inconclusive=[{"k": "not-run", "why": "time budget of the tier used up"}])
        if any(not any(re.fullmatch(k["case"], case) and re.fullmatch(k["label"], v["label"]) for k in known) for v in R["viol"]):
            bad_cases.add(case)
            if tier == "quick":
                total[0] = min(total[0], time.time() - T0 + 60)
        return R

    def blank(case):
        return dict(case=case, wall=0.0, killed=False, paths=0, proved=0, inconclusive=[], viol=[], validated=0,
                    mismatched=[], fns=set(), stats={}, marks={}, notes={}, how={}, infeasible=0, samples=[])

    def do1(case, limit):
        out = os.path.join(tmp, "sym-%s.jsonl" % case)
        t = time.time()
        killed = False
        p = subprocess.Popen([symx, "--case", case, "--out", out, "--limit", str(limit * 0.8), "--seed", str(seed),
                              "--qt", str(cfg.get("qt", 15000))],
                             stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), start_new_session=True)
        while True:
            rest = min(t + limit, T0 + total[0]) - time.time()
            if rest <= 0:
                killed = True
                break
            try:
                p.wait(timeout=min(rest, 5))
                break
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        recs = read_jsonl(out)
        R = dict(blank(case), wall=time.time() - t, killed=killed)
        done = set()
        nv = 0
        for r in recs:
            k = r["k"]
            if k == "fns":
                R["fns"].update(r["v"])
            elif k == "stats":
                R["stats"] = r
            elif k == "proved":
                R["proved"] += 1
                R["how"][r["how"]] = R["how"].get(r["how"], 0) + 1
            elif k == "mark":
                R["marks"][r["l"]] = R["marks"].get(r["l"], 0) + 1
            elif k in ("inconclusive", "unsupported", "budget"):
                R["inconclusive"].append({x: r[x] for x in r if x != "t"})
            elif k in ("infeasible", "assume_false"):
                R["infeasible"] += 1
            elif k == "note":
                R["notes"][r["what"]] = R["notes"].get(r["what"], 0) + 1
            elif k == "violation":
                key = (r["type"], r["label"])
                if key in done:
                    continue
                n = nat.run(case, r["model"], tag="v%d" % nv)
                nv += 1
                if reproduces(r, n):
                    done.add(key)
                    R["viol"].append(dict(r, native=[x for x in n if x.get("l") == r["label"] or x["k"] in ("crash", "exception")][:3]))
                else:
                    R["inconclusive"].append({"k": "not-reproduced", "case": r.get("case"), "label": r["label"], "type": r["type"], "model": r["model"], "how": r.get("how"), "impl": r.get("impl"), "spec": r.get("spec")})
            elif k == "path":
                R["paths"] += 1
                if R["paths"] <= cfg.get("validate", 40) and r["sat"] == 1:
                    n = nat.run(case, r["model"], tag="p")
                    vals = {x["l"]: fnum(x["a"]) for x in n if x["k"] == "eq"}
                    bad = [(l, o[0], vals.get(l)) for l, o in r["obs"].items() if l not in vals or not abs(vals[l] - fnum(o[0])) <= 1e-6 * (1 + abs(fnum(o[0])))]
                    if bad:
                        R["mismatched"].append({"model": r["model"], "first": bad[0]})
                    else:
                        R["validated"] += 1
                        if len(R["samples"]) < 1:
                            R["samples"].append({"case": case, "inputs": r["model"], "observed": dict(list(vals.items())[:4])})
        if killed:
            R["inconclusive"].append({"k": "timeout"})
        if not R["stats"] and not killed:
            R["inconclusive"].append({"k": "no-stats"})
        # anything the solver left open: look for a concrete witness on the native build
        if R["inconclusive"] and not R["viol"]:
            for s in range(cfg.get("fallback", 150)):
                if time.time() - T0 > total[0] + (0 if bad_cases else 60):
                    break
                n = nat.run(case, seed=seed * 100000 + s, tag="r", timeout=30)
                f = native_fail(n)
                if f:
                    R["viol"].append({"type": f[0], "label": f[1], "how": "native search after an open query", "seed": seed * 100000 + s, "native": [f[2]], "model": None})
                    break
        if R["paths"] == 0 and not R["viol"] and not R["inconclusive"]:
            R["inconclusive"].append({"k": "vacuous"})
        return R

    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(do, cases))
    skipped = sum(r is None for r in res)
    res = [r for r in res if r is not None]
    viol, kf = 0, set()
    repd = os.path.join(HERE, "replays", prop)
    shutil.rmtree(repd, ignore_errors=True)
    for R in res:
        for v in R["viol"]:
            hit = [k for k in known if re.fullmatch(k["case"], R["case"]) and re.fullmatch(k["label"], v["label"])]
            if hit:
                kf.add("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
                continue
            os.makedirs(repd, exist_ok=True)
            viol += 1
            path = os.path.join(repd, "%s-%d.json" % (R["case"], viol))
            if viol <= 20:
                with open(path, "w") as f:
                    json.dump({"property": prop, "case": R["case"], "violation": v,
                               "reproduce": "%s --case %s --model <file with 'name value' lines>" % (natx, R["case"])}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            if viol <= 20 or A.v:
                log("violation", R["case"], v["type"], v["label"], v.get("how"), v.get("impl"), v.get("spec"), v.get("what", ""))
    for l in sorted(kf):
        print(l, flush=True)
    tot = lambda k: sum(R["stats"].get(k, 0) for R in res)
    inc = [dict(i, case=R["case"]) for R in res for i in R["inconclusive"]]
    mism = [dict(m, case=R["case"]) for R in res for m in R["mismatched"]]
    fns = set().union(*[R["fns"] for R in res])
    try:
        dem = subprocess.run(["c++filt"], input="\n".join(sorted(fns)), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        dem = sorted({re.sub(r"\(.*", "", d.replace("(anonymous namespace)", "anon")) for d in dem if d})
    except OSError:
        dem = sorted(fns)
    dem = [d for d in dem if d.startswith("gsplines::") or " gsplines::" in d]
    how = {}
    for R in res:
        for k, n in R["how"].items():
            how[k] = how.get(k, 0) + n
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": sum(R["paths"] for R in res),
              "transitions": tot("forks"),
              "traces_validated_against_impl": sum(R["validated"] for R in res),
              "samples": [s for R in res for s in R["samples"]][:4],
              "meaning": "states = complete symbolic paths through the real code (each stands for every input satisfying its path condition); transitions = solver-decided two-way branches; traces = path models re-run on the uninstrumented build whose observed values matched the symbolic prediction",
              "cases": len(res), "cases_skipped_after_violations": skipped, "assertions_proved_on_a_path": sum(R["proved"] for R in res),
              "proved_by": how,
              "solver_queries": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
              "linear_queries": tot("lra"), "nonlinear_queries": tot("nra"), "solver_seconds": round(tot("solver_s"), 3),
              "functions_encoded": dem, "functions_encoded_count": len(dem),
              "bounds": cfg["bounds"], "outside": cfg.get("outside", ""),
              "inconclusive": inc[:20], "inconclusive_count": len(inc),
              "prediction_mismatches": mism[:10], "prediction_mismatch_count": len(mism),
              "excluded_by_model": {k: sum(R["notes"].get(k, 0) for R in res) for R in res for k in R["notes"]},
              "per_case": {R["case"]: [R["paths"], R["proved"], round(R["wall"], 2)] for R in res}},
          "assumptions": cfg.get("assumptions", []) + [
              "double arithmetic on symbolic operands is modelled as exact real arithmetic; operations on concrete operands are executed natively; assertions carry a tolerance and every reported violation is confirmed on the native build",
              "NaN, infinity and overflow are outside the model; divisions by zero and square roots of negatives are excluded from the path when reachable (counted in excluded_by_model)",
              "clang 18 front end, the instrumentation pass, the runtime and z3 are trusted"],
          "wall_s": round(time.time() - T0, 2), "violations": viol}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    if A.case is None:
        with open(HERE + "/evidence/%s.json" % prop, "w") as f:
            json.dump(ev, f, indent=1)
    for R in res:
        if A.v:
            log("%-40s paths %4d proved %5d viol %d val %d mism %d inc %d %.1fs %s" % (R["case"], R["paths"], R["proved"], len(R["viol"]), R["validated"], len(R["mismatched"]), len(R["inconclusive"]), R["wall"], R["how"]))
    for i in inc[:12]:
        log("inconclusive", str(i)[:400])
    for m in mism[:5]:
        log("mismatch", str(m)[:300])
    log("%s %s: %d cases, %d paths, %d proved, %d queries, %d violations, %d inconclusive, %d validated, %d mismatches" % (
        prop, tier, len(res), sum(R["paths"] for R in res), sum(R["proved"] for R in res), tot("queries"), viol, len(inc), sum(R["validated"] for R in res), len(mism)))
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
