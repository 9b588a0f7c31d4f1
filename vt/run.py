"""Builds a program from the extracted sources and generates the obligations of the proofs in a contract file."""
import os, subprocess, sys, tempfile, time, json
from concurrent.futures import ThreadPoolExecutor
import z3
from .prog import Program
from .sorts import Unsupported, kind, I
from .core import Engine, Loc, And, TRUE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = os.path.join(VERIF, "build", "cxxexport")
FLAGS = ["-I" + REPO + "/include", "-I/usr/include/eigen3", "-std=c++17", "-w", "-fparse-all-comments"]


def ensure_tool():
    if not os.path.exists(TOOL):
        subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def export(src, out, extra=()):
    roots = "%s/src/maliput/,%s/include/maliput/,%s/contracts/" % (REPO, REPO, VERIF)
    r = subprocess.run([TOOL, out, roots, src, "--"] + FLAGS + ["-I" + os.path.join(VERIF, "contracts"), "-I" + REPO + "/src", "-fno-access-control"] + list(extra),
                       capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("extraction of %s failed: %s" % (src, r.stderr[-2000:]))
    return out


def load(contract_file, sources, jobs=8):
    ensure_tool()
    prog = Program()
    with tempfile.TemporaryDirectory(prefix="vt_") as d:
        files = [(contract_file, "contract")] + [(os.path.join(REPO, s), s) for s in sources]
        outs = {}
        with ThreadPoolExecutor(jobs) as ex:
            for (f, n), o in zip(files, ex.map(lambda p: export(p[0], os.path.join(d, p[1].replace("/", "_") + ".json")), files)): outs[n] = o
        for f, n in files: prog.load(outs[n], n)
    prog.finish()
    for l in open(contract_file):
        if not l.startswith("//"): break
        if l.startswith("// pure:"): prog.pure.update(l.split()[2:])
        if l.startswith("// validates:"): prog.validators.update(l.split()[2:])
    prog.proofs = []
    for f in prog.fns.values():
        for a in f.annot:
            if a.startswith("proof:"):
                _, pid, title = a.split(":", 2)
                prog.proofs.append((pid, title, f))
    prog.proofs.sort(key=lambda x: x[2].line)
    return prog


def engine(prog, bound=None, opts=None):
    e = Engine(prog, bound, opts)
    for f in prog.fns.values():
        for a in f.annot:
            if a.startswith("inv:"):
                e.invariants[a[4:]] = f
            elif a.startswith("loopinv:"):
                e.loopinvs.setdefault(a[8:], []).append(f)
    return e


def run_proof(eng, fn):
    """Symbolically executes a proof function with arbitrary parameters.  Returns its obligations."""
    n0 = len(eng.obls)
    st = eng.new_state()
    args = []
    eng.ctx = fn.name
    eng.curfn.append(fn)
    eng.params = []
    try:
        for (pid, name, ty) in fn.params:
            v = eng.arbitrary(name, ty, st)
            eng.params.append((name, ty, v))
            if not isinstance(v, Loc):
                v = eng.tmp_loc(st, v, ty.deref()) if ty.isref() else v
            args.append(v)
    finally:
        eng.curfn.pop()
    rs = eng.inline(fn, None, args, st)
    reached = False
    for s, _ in rs:
        if s.infeasible(): continue
        if s.out is not None:
            eng.curfn.append(fn)
            eng.oblige(s, "unexpected exception %s" % (s.out[1] if len(s.out) > 1 else s.out,), z3.BoolVal(False), "exception")
            eng.curfn.pop()
        else: reached = True
    if not reached: raise Unsupported("proof %s never reaches its end" % fn.name)
    eng.end_states = [s for s, _ in rs if s.out is None and not s.infeasible()]
    return eng.obls[n0:]
