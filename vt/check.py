"""Decides one property: extracts the sources, generates the obligations of its contract file, discharges them, and
writes the evidence.  See DESIGN.md, section "What a check does"."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

_PROG = None


def contract_files(pid):
    return sorted(glob.glob(os.path.join(VERIF, "contracts", pid.lower() + "*.cc")))


def header(path, key):
    out = []
    for l in open(path):
        m = re.match(r"//\s*%s:\s*(.*)" % key, l)
        if m: out += m.group(1).split()
    return out


def all_sources():
    fs = glob.glob(os.path.join(REPO, "src/maliput/**/*.cc"), recursive=True)
    return sorted(os.path.relpath(f, REPO) for f in fs if "/test_utilities/" not in f and "/drake/" not in f)


def existing(srcs):
    return [os.path.relpath(p, REPO) for s in srcs for p in sorted(glob.glob(os.path.join(REPO, s)))]


def where(fn):
    return "%s (%s:%s)" % (fn.q, fn.file.replace(REPO + "/", ""), fn.line)


# ---------------------------------------------------------------------- one proof, in a worker process
def work(job):
    """Generates and discharges the obligations of one proof.  Returns a plain dictionary."""
    import z3
    from . import run, solve
    name, bound, budget, thorough = job
    prog = _PROG
    fn = [f for (_, _, f) in prog.proofs if f.name == name][0]
    out = {"proof": name, "bound": bound, "obligations": [], "error": None}
    t0 = time.time()
    e = run.engine(prog, bound)
    try:
        import signal
        def onalarm(*a): raise TimeoutError("obligation generation took too long")
        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(240 if not thorough else 900)
        try: obls = run.run_proof(e, fn)
        finally: signal.alarm(0)
        out["gen_s"] = time.time() - t0
        solve.solve_all(e, obls, budget, jobs=3, thorough=thorough)
        for o in obls:
            out["obligations"].append({"name": o.name, "kind": o.kind, "where": o.where, "status": o.status, "backend": o.backend,
                                       "time": round(o.time, 3), "model": o.model, "quant": getattr(o, "quant", True)})
        bad = solve.vacuous(e)
        if bad: out["error"] = "the end of the proof is unreachable (contradictory hypotheses)"
    except Exception as x:
        out["error"] = "%s: %s" % (type(x).__name__, str(x)[:600])
        if os.environ.get("VERIF_DEBUG"): print("".join(traceback.format_exc().split("\n  File")[-6:]), file=sys.stderr)
        out["stack"] = [where(g) for g in e.curfn][-4:]
    out["functions"] = sorted({where(f) for f in e.inlined if "/contracts/" not in f.file})
    out["contracts"] = sorted(e.used_contracts)
    out["std"] = sorted(e.trusted_std)
    out["assumed"] = sorted(e.assumed)
    out["virtual"] = sorted(e.used_virtual)
    out["notes"] = sorted(set(e.notes))
    out["bounded_loops"] = e.loops_bounded
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def run_proofs(names, bound, budget, thorough, jobs=8):
    if not names: return []
    ctx = mp.get_context("fork")
    with ProcessPoolExecutor(min(jobs, len(names)), mp_context=ctx) as ex:
        futs = [ex.submit(work, (n, bound, budget, thorough)) for n in names]
        res = []
        for n, f in zip(names, futs):
            try: res.append(f.result())
            except Exception as x:
                res.append({"proof": n, "bound": bound, "obligations": [], "error": "worker failed: %r" % x, "functions": [], "contracts": [],
                            "std": [], "virtual": [], "notes": [], "bounded_loops": 0, "wall_s": 0})
        return res


def proved(r):
    return r["error"] is None and r["obligations"] and all(o["status"] == "proved" for o in r["obligations"])


# ---------------------------------------------------------------------- native replay
class Native:
    """The contract file compiled natively against the real sources."""

    def __init__(self, contract, names, sources):
        self.contract, self.names, self.sources = contract, names, sources
        self.dir = tempfile.mkdtemp(prefix="vn_")
        self.exe = None
        self.err = ""

    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

    def build(self):
        main = os.path.join(self.dir, "main.cc")
        with open(main, "w") as f:
            f.write('#define VC_NATIVE 1\n#include "%s"\n' % self.contract)
            f.write("static void register_proofs() {\n")
            for q in self.names: f.write('  vc::proofs().push_back({"%s", vc::runner(&%s)});\n' % (q.split("::")[-1], q))
            f.write("}\n")
            f.write('#include "%s/native/main.inc"\n' % VERIF)
        flags = ["-std=c++17", "-O1", "-w", "-I" + REPO + "/include", "-I/usr/include/eigen3", "-I" + VERIF + "/contracts", "-I" + REPO + "/src",
                 "-fno-access-control", "-D_GLIBCXX_ASSERTIONS", "-DVC_NATIVE"]
        srcs = [main] + [os.path.join(REPO, s) for s in self.sources]
        objs = [os.path.join(self.dir, "o%d.o" % i) for i in range(len(srcs))]
        def cc(p): return subprocess.run(["g++"] + flags + ["-c", p[0], "-o", p[1]], capture_output=True, text=True)
        with ThreadPoolExecutor(8) as ex:
            for (s, o), r in zip(zip(srcs, objs), ex.map(cc, zip(srcs, objs))):
                if r.returncode != 0:
                    self.err = "compiling %s: %s" % (s, r.stderr[:1500]); return False
        exe = os.path.join(self.dir, "run")
        r = subprocess.run(["g++", "-o", exe] + objs + ["-Wl,--unresolved-symbols=ignore-all", "-ldl", "-lpthread", "-lyaml-cpp"], capture_output=True, text=True)
        if r.returncode != 0:
            self.err = "linking: " + r.stderr[:1500]; return False
        self.exe = exe
        return True

    def run(self, only, seconds, seed, reals=(), ints=(), once=None):
        cmd = [self.exe, "--seconds", str(seconds)]
        cmd += ["--once", str(once)] if once is not None else ["--seed", str(seed)]
        for n in only: cmd += ["--proof", n]
        if reals: cmd += ["--reals", ",".join(repr(float(x)) for x in reals)]
        if ints: cmd += ["--ints", ",".join(str(int(x)) for x in ints)]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=seconds + 60, errors="replace")
            outp = r.stdout
        except subprocess.TimeoutExpired as x:
            outp = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        fails, runs = [], {}
        for l in outp.split("\n"):
            p = l.split("\t")
            if p[0] == "FAIL" and len(p) >= 5: fails.append({"proof": p[1], "seed": int(p[2]), "what": p[3], "input": p[4].strip(), "cmd": cmd[1:]})
            elif p[0] == "RUNS": runs[p[1]] = {"runs": int(p[2]), "skipped": int(p[3]), "checks": int(p[4])}
        return fails, runs

    def search(self, only, seconds, seed, reals=(), ints=()):
        """Searches with one process per core; crashes end only their process."""
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda k: self.run(only, seconds, seed * 1000 + k, reals if k % 2 else (), ints if k % 2 else ()), range(8)))
        fails = [f for fs, _ in rs for f in fs]
        runs = {}
        for _, r in rs:
            for k, v in r.items():
                d = runs.setdefault(k, {"runs": 0, "skipped": 0, "checks": 0})
                for q in d: d[q] += v[q]
        # confirm by re-running the very same input
        for f in fails:
            extra = [f["cmd"]]
            reals_ = reals if "--reals" in f["cmd"] else ()
            ints_ = ints if "--ints" in f["cmd"] else ()
            again, _ = self.run([f["proof"]], 1, 0, reals_, ints_, once=f["seed"])
            f["confirmed"] = any(a["seed"] == f["seed"] for a in again)
        return fails, runs


def literals(prog, fns):
    """Numeric literals of the functions under proof: candidate inputs for the native search."""
    reals, ints = set(), set()
    def walk(j):
        if isinstance(j, dict):
            k = j.get("k")
            if k in ("float", "FloatingLiteral"): reals.add(float(j.get("v")))
            elif k in ("int", "IntegerLiteral"):
                try: ints.add(int(j.get("v")))
                except Exception: pass
            for v in j.values(): walk(v)
        elif isinstance(j, list):
            for v in j: walk(v)
    for f in fns:
        try: walk(f.j)
        except Exception: pass
    ints = {i for i in ints if -10**6 < i < 10**6}
    reals |= {float(i) for i in ints if abs(i) > 1}
    return sorted(x for x in reals if abs(x) < 1e12)[:60], sorted(ints)[:40]


def numerals(res):
    out = set()
    for r in res:
        for o in r["obligations"]:
            for t in re.findall(r"\(/ (-?[\d.]+) (-?[\d.]+)\)", o.get("model") or ""):
                try: out.add(round(float(t[0]) / float(t[1]), 9))
                except Exception: pass
            for t in re.findall(r"(?<![\w!.])(\d+\.\d+)", o.get("model") or ""):
                if float(t) < 1e9: out.add(float(t))
    return sorted(out)[:60]


# ---------------------------------------------------------------------- the check
def load_all(contract, sources):
    from . import run
    return run.load(contract, existing(sources))


def missing_bodies(res):
    return any("no body" in (r["error"] or "") or "no definition" in (r["error"] or "") for r in res)


def check(pid, tier, seed):
    global _PROG
    t0 = time.time()
    thorough = tier == "thorough"
    known = known_findings(pid)
    files = contract_files(pid)
    total = []
    violations, findings, notes = [], [], []
    native_cov = {}
    titles = {}
    only = os.environ.get("VERIF_ONLY", "").split(",") if os.environ.get("VERIF_ONLY") else None
    for cf in files:
        sources = header(cf, "sources") or all_sources()
        native_src = header(cf, "native") or sources
        try:
            _PROG = load_all(cf, sources)
        except Exception as x:
            # the contract no longer type-checks against the code (an interface it names has changed)
            violations.append({"proof": os.path.basename(cf), "what": "the contract file no longer compiles against the code: %s" % str(x)[-1500:], "input": None})
            continue
        names = [f.name for (_, _, f) in _PROG.proofs if not only or f.name in only]
        quals = {f.name: f.q for (_, _, f) in _PROG.proofs}
        titles.update({f.name: t for (_, t, f) in _PROG.proofs})
        res = run_proofs(names, None, 600 if not thorough else 3000, thorough)
        if any(not proved(r) for r in res) and missing_bodies(res):
            _PROG = load_all(cf, all_sources())
            native_src = all_sources()
            redo = [r["proof"] for r in res if not proved(r)]
            rr = {r["proof"]: r for r in run_proofs(redo, None, 600, thorough)}
            res = [rr.get(r["proof"], r) for r in res]
        failed = [r for r in res if not proved(r)]
        for r in res: r["file"] = os.path.basename(cf)
        total += res
        # ---- what is not proved: search for a failing input on the real code, then decide up to a bound, then search again
        bounded = {}
        nat, fns = None, set()
        def search(target, seconds, extra, seed):
            """Native search; records confirmed failures.  Returns the proofs that failed."""
            bad = set()
            if nat is None: return bad
            reals, ints = literals(_PROG, fns)
            reals = sorted(set(reals) | set(extra))
            if os.environ.get("VERIF_NATIVE_S"): seconds = float(os.environ["VERIF_NATIVE_S"])
            fails, runs = nat.search(target, seconds, seed, reals, ints)
            for k, v in runs.items():
                d = native_cov.setdefault(k, {"runs": 0, "skipped": 0, "checks": 0})
                for q in d: d[q] += v[q]
            seen = set()
            for f in sorted(fails, key=lambda f: len(f["input"])):
                key = (f["proof"], f["what"])
                if not f["confirmed"] or key in seen: continue
                seen.add(key)
                kf = is_known(known, f["proof"], f["what"])
                if not kf: bad.add(f["proof"])
                (findings if kf else violations).append(kf or dict(f, contract=os.path.basename(cf), reals=reals, ints=ints))
            return bad
        try:
            if (failed or thorough) and not header(cf, "nonative"):
                n = Native(cf, [quals[n] for n in names], existing(native_src))
                if n.build():
                    nat = n
                    fns = {f for f in _PROG.fns.values() if f.file.startswith(REPO) and any(where(f) in r["functions"] for r in (failed or res))}
                else:
                    n.close()
                    notes.append("native build failed: " + n.err)
            if failed or thorough: bad = search([r["proof"] for r in failed] or names, 20 if failed else 60, [], seed)
            if failed:
                for k in (2, 3):
                    todo = [r["proof"] for r in failed if r["proof"] not in bad and (r["error"] or any(o["quant"] for o in r["obligations"] if o["status"] != "proved")) and
                            (r["proof"] not in bounded or proved(bounded[r["proof"]]))]
                    for b in run_proofs(todo, k, 90, False): bounded[b["proof"]] = b
                rest = [r["proof"] for r in failed if r["proof"] not in bad and not (r["proof"] in bounded and proved(bounded[r["proof"]]))]
                if rest: search(rest, 30, numerals(list(bounded.values())), seed + 7)
        finally:
            if nat: nat.close()
        for r in failed:
            b = bounded.get(r["proof"])
            open_ = [o for o in r["obligations"] if o["status"] != "proved"]
            r["bounded"] = b
            kf = None
            names_ = [o["name"] for o in open_] or [r["error"]]
            kfs = [is_known(known, r["proof"], n) for n in names_]
            if all(kfs):
                findings += kfs; continue
            if b is not None and proved(b):
                notes.append("proof %s: not all obligations proved without a bound; every one discharged for containers of at most 3 elements (bounded)" % r["proof"])
                continue
            if any(v.get("proof") == r["proof"] for v in violations): continue
            o = ([o for o in (b["obligations"] if b else []) if o["status"] == "sat"] or open_ or [{"name": r["error"], "where": r.get("stack"), "model": None}])[0]
            violations.append({"proof": r["proof"], "contract": os.path.basename(cf), "what": o["name"], "where": o.get("where"), "input": None,
                               "model": o.get("model"), "unproved": names_, "error": r["error"], "bounded_error": b and b["error"]})
    return finish(pid, tier, seed, t0, total, violations, findings, notes, native_cov, titles, files)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k["property"] == pid and k["status"] == "finding"]


def is_known(known, proof, what):
    for k in known:
        if k.get("proof") == proof and k.get("obligation") == what: return k
    return None


def finish(pid, tier, seed, t0, total, violations, findings, notes, native_cov, titles, files):
    from . import solve
    obs = [(r, o) for r in total for o in r["obligations"]]
    n = len(obs)
    ok = sum(1 for r, o in obs if o["status"] == "proved")
    back = {}
    for r, o in obs:
        if o["status"] == "proved": back[o["backend"]] = back.get(o["backend"], 0) + 1
    bounded = [r["proof"] for r in total if not proved(r)]
    kinds = {}
    for r, o in obs: kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    std = sorted({s for r in total for s in r["std"]})
    axioms = sorted({s for r in total for s in r.get("assumed", [])})
    virt = sorted({s for r in total for s in r["virtual"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": n, "discharged": ok,
            "checker_cmd": "bash check.sh %s %s" % (pid, tier),
            "trusted_base": [
                "exporter tool/cxxexport.cpp (clang AST to JSON) and VC generator vt/*.py",
                "SMT back ends z3-new and cvc5",
                "double arithmetic treated as exact real arithmetic; no NaN; infinity is one large real",
                "signed/unsigned integers treated as mathematical integers within their type's range facts",
                "destructors, log calls and exception message texts not executed; termination not proved",
            ] + (["trusted models of the standard library: " + ", ".join(std)] if std else [])
              + (["assumed mathematical facts: " + "; ".join(axioms)] if axioms else [])
              + (["const virtual functions of abstract interfaces assumed pure and unconstrained: " + ", ".join(virt)] if virt else []),
            "functions_under_contract": sorted({f for r in total for f in r["functions"]}),
            "contracts_used_at_calls": sorted({c for r in total for c in r["contracts"]}),
            "obligations_by_kind": kinds, "discharged_by_backend": back,
            "solver_s": round(sum(o["time"] or 0 for _, o in obs), 2),
            "proofs": [{"proof": r["proof"], "title": titles.get(r["proof"]), "file": r.get("file"), "obligations": len(r["obligations"]),
                        "discharged": sum(1 for o in r["obligations"] if o["status"] == "proved"), "loops_bounded": r["bounded_loops"],
                        "error": r["error"], "wall_s": r["wall_s"]} for r in total],
            "not_proved_bounded_only": bounded,
            "native_runs": native_cov,
            "contract_files": [os.path.basename(f) for f in files],
            "notes": notes,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    ev["coverage"]["assumptions_reported"] = sorted({x for r in total for x in r["notes"]})
    if findings: ev["coverage"]["known_findings"] = sorted({k["what"] for k in findings})
    rc = 0
    if violations or not total:
        rc = 1
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % pid)
        v = sorted(violations, key=lambda v: v.get("input") is None) or [{"what": "no proof was run", "input": None}]
        json.dump({"property": pid, "violations": v,
                   "how_to_replay": "python3-vt -m vt.replay %s   (in /verif; compiles the contract against /repo and re-runs the input)" % os.path.relpath(path, VERIF)},
                  open(path, "w"), indent=1, default=str)
        for x in v[:6]:
            print("  failed obligation: [%s] %s%s" % (x.get("proof"), x.get("what"), (" on input " + x["input"]) if x.get("input") else ""))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if v[0].get("input") is not None else " no-failing-input-found"))
    ev["coverage"]["violations"] = len(violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for k in {json.dumps(k, sort_keys=True) for k in findings}:
        print("KNOWN-FINDING: property=%s %s" % (pid, json.loads(k)["what"]))
    for x in notes: print("note:", x)
    print("%s: %d obligations, %d discharged, %d proofs, %.1f s%s" % (pid, n, ok, len(total), time.time() - t0, "" if rc == 0 else " -- VIOLATED"))
    return rc


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import run
    run.ensure_tool()
    sys.exit(check(pid, tier, seed))


if __name__ == "__main__":
    main(sys.argv[1:])
