#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]  -- decide one property by solver-based symbolic execution
of /repo's current source.   check.py --setup builds the engine."""
import sys, os, json, subprocess, tempfile, shutil, time, glob, re, concurrent.futures as cf, hashlib, resource
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = os.path.join(HERE, "engine"); BUILD = os.path.join(HERE, "build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
sys.path.insert(0, HERE)
from runs import PROPS, TITLES

SYMFLAGS = ["-std=c++14", "-O1", "-g0", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fno-exceptions",
            "-ftrivial-auto-var-init=pattern", "-DEIGEN_DONT_VECTORIZE", "-ftemplate-depth=4096", "-Wno-everything", "-ferror-limit=3", "-ftemplate-backtrace-limit=2"]
NATFLAGS = ["-std=c++14", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-Wno-everything", "-ftemplate-depth=4096", "-ferror-limit=3", "-ftemplate-backtrace-limit=2"]
INC = ["-I" + ENG, "-I" + os.path.join(HERE, "harness"), "-I" + REPO + "/src", "-I/usr/include/eigen3"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stamp():
    h = hashlib.sha256()
    for f in ("SymPass.cpp", "symrt.cpp", "natrt.cpp", "symapi.h", "ufmodel.h"):
        h.update(open(os.path.join(ENG, f), "rb").read())
    return h.hexdigest()

def setup():
    s = stamp(); sf = os.path.join(BUILD, "stamp")
    if os.path.exists(sf) and open(sf).read() == s: return
    os.makedirs(BUILD, exist_ok=True)
    llvm = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    jobs = [["clang++", "-std=c++17", "-O1", "-fPIC", "-shared"] + [f for f in llvm if f.startswith(("-I", "-D"))] + ["-fno-rtti", ENG + "/SymPass.cpp", "-o", BUILD + "/SymPass.so"],
            ["g++", "-std=c++17", "-O2", "-g1", "-c", ENG + "/symrt.cpp", "-I" + Z3 + "/include", "-o", BUILD + "/symrt.o"],
            ["clang++"] + NATFLAGS + ["-c", ENG + "/natrt.cpp", "-I" + ENG, "-o", BUILD + "/natrt.o"]]
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda c: sh(c), jobs):
            if r.returncode: print(r.stdout); sys.exit(2)
    open(sf, "w").write(s)

def build(run, d):
    src = os.path.join(HERE, "harness", run["src"]); defs = ["-D" + x for x in run.get("defs", [])]
    name = run["name"]; o = os.path.join(d, name); os.makedirs(o, exist_ok=True)
    extra = ["-I" + os.path.join(HERE, x) for x in run.get("inc", [])]
    t0 = time.time()
    r = sh(["clang++"] + SYMFLAGS + defs + extra + INC + ["-fpass-plugin=" + BUILD + "/SymPass.so", "-c", src, "-o", o + "/h.o"])
    if r.returncode: return name, "sym compile failed:\n" + r.stdout[:500], 0
    bad = [l for l in r.stdout.splitlines() if "SYMPASS-UNSUPPORTED" in l]
    r2 = sh(["g++", o + "/h.o", BUILD + "/symrt.o", "-o", o + "/sym", "-L" + Z3 + "/lib", "-Wl,-rpath," + Z3 + "/lib", "-lz3", "-lgmpxx", "-lgmp", "-lpthread"])
    if r2.returncode: return name, "sym link failed:\n" + r2.stdout[:500], 0
    os.unlink(o + "/h.o")
    if bad: open(o + "/passwarn.txt", "w").write("\n".join(bad))
    return name, None, time.time() - t0

def build_native(run, d):
    src = os.path.join(HERE, "harness", run["src"]); defs = ["-D" + x for x in run.get("defs", [])]; o = os.path.join(d, run["name"]); os.makedirs(o, exist_ok=True)
    extra = ["-I" + os.path.join(HERE, x) for x in run.get("inc", [])]
    r = sh(["clang++"] + NATFLAGS + defs + extra + INC + [src, BUILD + "/natrt.o", "-o", o + "/nat"])
    return run["name"], (None if r.returncode == 0 else "native compile failed:\n" + r.stdout[:500])

def limits():
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))

def symrun(run, d, seed, jobs, deadline):
    o = os.path.join(d, run["name"])
    env = dict(os.environ, SYM_OUT=o, SYM_SEED=str(seed), SYM_JOBS=str(jobs), SYM_TIME=str(max(5, min(run.get("time", 300), deadline - time.time()))),
               SYM_MAXPATHS=str(run.get("maxpaths", 3000)), SYM_MAXWIT=str(run.get("maxwit", 12)), **run.get("env", {}))
    t0 = time.time()
    try:
        r = sh([o + "/sym"], env=env, preexec_fn=limits, timeout=max(10, min(run.get("time", 300) + 120, deadline + 60 - time.time())))
        rc = r.returncode; out = r.stdout
    except subprocess.TimeoutExpired:
        rc = -99; out = "timeout"
        sh(["pkill", "-9", "-f", o + "/sym"])
    recs = []
    try:
        for l in open(o + "/log.jsonl"):
            try: recs.append(json.loads(l))
            except Exception: recs.append({"t": "error", "m": "bad log line"})
    except FileNotFoundError: pass
    return rc, out, recs, time.time() - t0

ASAN = dict(os.environ, ASAN_OPTIONS="malloc_fill_byte=64:max_malloc_fill_size=1000000000:detect_leaks=0:abort_on_error=0:exitcode=99")
def native(o, inp, obs=None, timeout=30):
    try: r = sh([o + "/nat", inp] + ([obs] if obs else []), env=ASAN, timeout=timeout)
    except subprocess.TimeoutExpired: return -1, "timeout (native replay does not terminate)"
    return r.returncode, r.stdout

def numeq(x, y):
    if x == y: return True
    if x != x and y != y: return True
    if x in (float("inf"), float("-inf")) or y in (float("inf"), float("-inf")) or x != x or y != y: return False
    return abs(x - y) <= 1e-5 * (1 + abs(x) + abs(y))

def load_known():
    known = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) run=(\S+) label=(\S+) (.*)", l.strip())
            if m: known.append(m.groups())
    except FileNotFoundError: pass
    return known

def main():
    if sys.argv[1] == "--setup": setup(); return 0
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 7200)
    setup()
    spec = PROPS[pid]; runs = [r for r in spec["runs"] if (tier == "thorough" or not r.get("thorough")) and (not only or re.search(only, r["name"]))]
    d = tempfile.mkdtemp(prefix="verif_" + pid + "_")
    res = {}; errors = []; viols = []; known = []; samples = []; tot = dict(obligations=0, nf=0, lra=0, nra=0, unk=0, q=0, st=0.0, paths=0, forks=0, wit_ok=0, wit_bad=0, feasunk=0, pruned=0, nodes=0, dec=0)
    reachall = {}; kn = load_known(); detail = []
    seen_labels = set()
    try:
        ncpu = os.cpu_count() or 4
        with cf.ThreadPoolExecutor(ncpu) as ex:
            fsym = {r["name"]: ex.submit(build, r, d) for r in runs}
            fnat = {r["name"]: ex.submit(build_native, r, d) for r in runs}
            stop = []
            def go(r):
                n, err, bt = fsym[r["name"]].result()
                if stop: return r, None, "not run: a violation was already confirmed", bt
                if err: return r, None, err, bt
                return r, symrun(r, d, seed, r.get("jobs", 3 if len(runs) > 2 else 8), deadline), None, bt
            with cf.ThreadPoolExecutor(4 if len(runs) > 2 else 2) as ex2:
                futs = [ex2.submit(go, r) for r in runs]
                for f in futs:
                    if f.cancelled(): continue
                    r, sr, err, bt = f.result(); name = r["name"]; o = os.path.join(d, name)
                    if err: errors.append(name + ": " + err); continue
                    rc, out, recs, wall = sr
                    if os.environ.get("VERIF_DUMP"): print(out)
                    n2, nerr = fnat[name].result()
                    if nerr: errors.append(name + ": " + nerr)
                    paths = [x for x in recs if x["t"] == "path"]; ended = [x for x in paths if x["how"] == "end"]
                    reach = set()
                    for x in ended:
                        if x["wit"]: reach.update(x["reach"])
                    T = dict(obligations=sum(x["obl"] for x in paths), nf=sum(x["nf"] for x in paths), lra=sum(x["lra"] for x in paths), nra=sum(x["nra"] for x in paths), unk=sum(x["unk"] for x in paths),
                             q=sum(x["q"] for x in paths), st=round(sum(x["st"] for x in paths), 3), paths=len(ended), pruned=len(paths) - len(ended), forks=sum(x["forks"] for x in paths), feasunk=sum(x["feasunk"] for x in paths), nodes=sum(x["nodes"] for x in paths), dec=sum(x["dec"] for x in paths))
                    for k, v in T.items(): tot[k] += v
                    rv = []; 
                    # candidate violations -> native replay
                    for x in recs:
                        if x["t"] == "viol" and not nerr and (len(rv) < 8 or time.time() < deadline - 120):
                            c, outp = native(o, x["file"])
                            fl = re.findall(r"CHECK-FAIL (.*?): ", outp)
                            if c not in (0, 3):
                                lab = fl[0] if fl else ("crash: " + x["label"]); rv.append((x["label"], lab, x["file"], c, outp))
                            else: errors.append(f"{name}: counterexample for '{x['label']}' not reproduced natively (a={x['a']}, b={x['b']}, rc={c})")
                    # witnesses: native run must agree with the encoding
                    wok = wbad = 0; wdet = []
                    if not nerr:
                        for w in sorted(glob.glob(o + "/wit_*.txt")):
                            if rv and (len(rv) >= 8 or time.time() > deadline - 120): break
                            c, outp = native(o, w, w[:-4] + ".nat")
                            if c == 3: wbad += 1; wdet.append(os.path.basename(w) + ": assumption/prune differs natively"); continue
                            if c != 0:
                                fl = re.findall(r"CHECK-FAIL (.*?): ", outp); lab = fl[0] if fl else "crash/sanitizer in native run"
                                rv.append((lab, lab, w, c, outp)); continue
                            try:
                                A = [l.rsplit(" ", 2) for l in open(w[:-4] + ".obs")]; Bn = [l.rsplit(" ", 2) for l in open(w[:-4] + ".nat")]
                                good = len(A) == len(Bn) and all(p[0] == q[0] and numeq(float.fromhex(p[1]), float.fromhex(q[1])) and numeq(float.fromhex(p[2]), float.fromhex(q[2])) for p, q in zip(A, Bn))
                                if not good:
                                    why = f"{len(A)} vs {len(Bn)} observations"
                                    for p, q in zip(A, Bn):
                                        if p[0] != q[0] or not numeq(float.fromhex(p[1]), float.fromhex(q[1])) or not numeq(float.fromhex(p[2]), float.fromhex(q[2])): why += f"; first difference {p} vs {q}".replace("\n", ""); break
                                    wdet.append(os.path.basename(w) + ": " + why)
                            except Exception as e: good = False; wdet.append(str(e))
                            wok += good; wbad += not good
                            if good and len(samples) < 6: samples.append({"run": name, "inputs": open(w).read().split("\n")[:6], "observations_compared": len(A)})
                    tot["wit_ok"] += wok; tot["wit_bad"] += wbad
                    nonlocal_err = []
                    for x in recs:
                        if x["t"] in ("unsupported", "error", "childcrash", "z3exc", "forkfail"): nonlocal_err.append(f"{name}: {x['t']} {x.get('m', x.get('status'))}")
                        if x["t"] == "unknown": nonlocal_err.append(f"{name}: undecided obligation '{x['label']}' ({x['why']})")
                        if x["t"] == "path" and x["how"] in ("deadline", "pathlimit"): nonlocal_err.append(f"{name}: exploration incomplete ({x['how']})")
                    if rc != 0: nonlocal_err.append(f"{name}: engine exit {rc}: {out[-500:]}")
                    if not rv:
                        for need in r.get("reach", ["end"]):
                            if need not in reach: nonlocal_err.append(f"{name}: reachability witness '{need}' missing (vacuous)")
                        if wbad > max(0, 0.34 * (wok + wbad)): nonlocal_err.append(f"{name}: {wbad} of {wok+wbad} witnesses disagree between encoding and native code: {wdet[:2]}")
                    errors += sorted(set(nonlocal_err))[:12]
                    for (lab, nl, fn, c, outp) in rv:
                        m = [k for k in kn if k[0] == pid and re.fullmatch(k[1], name) and (re.fullmatch(k[2], lab) or re.fullmatch(k[2], nl))]
                        if m: known.append(m[0])
                        else: viols.append((name, lab, nl, fn, c, outp))
                    detail.append({"run": name, "functions": r.get("encodes", spec.get("encodes", "")), "bounds": r.get("bounds", ""), "build_s": round(bt, 1), "explore_s": round(wall, 1), "witness_ok": wok, "witness_differs": wbad, "witness_notes": wdet[:3], "reached": sorted(reach), **T})
                    if viols and tier == "quick" and len(viols) >= 1 and not only:
                        for g in futs: g.cancel()
                        if not stop: stop.append(1)
                        sh(["pkill", "-9", "-f", d + "/"])
                    sys.stdout.flush()
        # report
        rc = 0
        for k in sorted(set(known)): print(f"KNOWN-FINDING: property={pid} {k[3]}")
        if viols:
            rdir = os.path.join(HERE, "evidence", "replays", pid); os.makedirs(rdir, exist_ok=True); done = set()
            for (name, lab, nl, fn, c, outp) in viols:
                if (name, lab) in done: continue
                done.add((name, lab)); b = os.path.join(rdir, f"{name}_{len(done)}.txt"); shutil.copy(fn, b)
                with open(b + ".out", "w") as f: f.write(f"run {name}: {lab}\nnative exit {c}\n{outp[-4000:]}")
                if len(done) <= 5: print(f"VIOLATION property={pid} replay={b}"); print(f"  run={name} check='{lab}' native: {' | '.join(outp.strip().splitlines()[:3])[:400]}")
            rc = 1
        elif errors:
            rc = 2
        for e in errors[:30]: print("ERROR", e)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": tot["paths"], "transitions": tot["nodes"], "traces_validated_against_impl": tot["wit_ok"],
                           "state_rule": "a state is one end state of a feasible symbolic path through the compiled code under test (a set of concrete executions given by its path condition); a transition is one distinct symbolic floating-point operation, comparison or function application on such a path",
                           "branch_decisions_on_symbolic_data": tot["dec"], "obligations": tot["obligations"], "discharged": tot["nf"] + tot["lra"] + tot["nra"],
                           "checker_cmd": f"python3 check.py {pid} {tier}",
                           "trusted_base": ["clang 18 -O1 front end and optimiser", "engine/SymPass.cpp instrumentation", "engine/symrt.cpp term/normal-form layer", "z3 5.3 (linear and non-linear real arithmetic)", "real-arithmetic semantics of floating point (rounding abstracted; compared with native runs on path witnesses)"],
                           "discharged_by_exact_normal_form": tot["nf"], "discharged_by_linear_query": tot["lra"], "discharged_by_nonlinear_query": tot["nra"], "undecided": tot["unk"],
                           "solver_queries": tot["q"], "solver_time_s": round(tot["st"], 2), "paths": tot["paths"], "pruned_paths": tot["pruned"], "forks": tot["forks"], "branches_assumed_feasible": tot["feasunk"],
                           "path_witnesses_differing": tot["wit_bad"], "runs": detail, "samples": samples},
              "assumptions": spec.get("assumptions", []) + ["floating-point operations are interpreted as exact real operations on symbolic data (constants keep their exact double values, constant-only arithmetic stays IEEE)", "allocation does not fail"],
              "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
        print(f"{pid} {tier}: runs={len(runs)} paths={tot['paths']} obligations={tot['obligations']} (normal form {tot['nf']}, LRA {tot['lra']}, NRA {tot['nra']}, undecided {tot['unk']}) queries={tot['q']} solver={tot['st']:.1f}s witnesses={tot['wit_ok']}+{tot['wit_bad']} wall={time.time()-t0:.1f}s violations={len(viols)} errors={len(errors)}")
        if only or os.environ.get("VERIF_VERBOSE"):
            for x in detail: print("  ", {k: x[k] for k in ("run", "build_s", "explore_s", "paths", "pruned", "obligations", "nf", "lra", "nra", "unk", "witness_ok", "witness_differs", "witness_notes")})
        return rc
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(d, ignore_errors=True)
        else: print("kept", d)
sys.exit(main())
