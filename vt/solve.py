"""Discharges obligations with external SMT solvers, in parallel."""
import json, os, subprocess, sys, tempfile, time, hashlib, itertools
from concurrent.futures import ThreadPoolExecutor
import z3
from .core import And, Or, Not, Implies
from .sorts import I, R, B, STR
from . import ideal

Z3 = "z3-new"
CVC5 = "cvc5"


def sum_axioms(eng):
    out = []
    ents = [e for e in eng.sumfun.values()]
    n = z3.Const("sumi", I)
    for f, body, outer in ents:
        if outer: continue
        x = z3.Const("sx", I)
        out.append(f(z3.IntVal(0)) == 0)
        out.append(z3.ForAll([x], Implies(x >= 0, f(x + 1) == f(x) + z3.substitute(body, (n, x))), patterns=[f(x + 1)]))
    for (f, a, o1), (g, b, o2) in itertools.combinations(ents, 2):
        if o1 or o2 or f.range() != g.range(): continue
        sk = z3.Function("sumsk_%s_%s" % (f.name(), g.name()), I, I)
        x = z3.Const("sx", I)
        k = sk(x)
        out.append(z3.ForAll([x], Or(f(x) == g(x), And(k >= 0, k < x, z3.substitute(a, (n, k)) != z3.substitute(b, (n, k)))), patterns=[z3.MultiPattern(f(x), g(x))]))
    return out


def background(eng):
    ax = list(eng.axioms)
    strs = list(eng.sorts.strs.values())
    if len(strs) > 1: ax.append(z3.Distinct(*strs))
    inf = z3.Const("INF", R)
    ax.append(inf > z3.RealVal(10) ** 300 if False else inf > z3.RealVal("1" + "0" * 300))
    ax.append(z3.Int("next0") > 1)
    ax += sum_axioms(eng)
    return ax


def formulas(eng, o, bg=None):
    return (bg if bg is not None else background(eng)) + [c for (_, c) in o.pc] + [Not(o.goal)]


def relevant_bg(bg, fs):
    """Keeps background axioms only when one of their symbols occurs."""
    from .core import consts_in
    names = set()
    for f in fs: names |= consts_in(f)
    out, rest = [], [(b, consts_in(b)) for b in bg]
    changed = True
    while changed:
        changed = False
        nrest = []
        for b, cs in rest:
            if not cs or cs & names:
                out.append(b)
                if cs - names: names |= cs; changed = True
            else: nrest.append((b, cs))
        rest = nrest
    return out


def to_smt2(fs):
    s = z3.Solver()
    for f in fs: s.add(f)
    return s.to_smt2()


def run_z3(text, timeout, model=False, opts=()):
    t = "(set-option :produce-models true)\n" + text.replace("(check-sat)", "(check-sat)" + ("\n(get-model)" if model else ""))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(t); p = f.name
    t0 = time.time()
    try:
        r = subprocess.run([Z3, "-T:%d" % timeout, "-memory:3000"] + list(opts) + [p], capture_output=True, text=True, timeout=timeout + 10)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    finally:
        os.unlink(p)
    head = out.strip().split("\n")[0] if out.strip() else "error"
    res = head if head in ("sat", "unsat", "unknown") else ("timeout" if "timeout" in head else "error:" + head[:200])
    return res, time.time() - t0, out


def run_cvc5(text, timeout):
    t = "(set-logic ALL)\n" + text
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(t); p = f.name
    t0 = time.time()
    try:
        r = subprocess.run([CVC5, "--tlimit=%d" % (timeout * 1000), "--full-saturate-quant", p], capture_output=True, text=True, timeout=timeout + 10)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    finally:
        os.unlink(p)
    head = out.strip().split("\n")[0] if out.strip() else "error"
    return (head if head in ("sat", "unsat", "unknown") else "timeout"), time.time() - t0, out


_nonlinear = {}


def nonlinear(fs):
    for f in fs:
        if f.get_id() not in _nonlinear: _nonlinear[f.get_id()] = (f, has_product([f]))
        if _nonlinear[f.get_id()][1]: return True
    return False


def has_product(fs):
    seen = set()
    todo = list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and t.sort() == z3.RealSort() and \
           sum(1 for c in t.children() if not z3.is_rational_value(c)) > 1: return True
        todo += t.children()
    return False


STRATEGIES = [
    ("z3", 6, ()),
    ("cases", 5, 2),
    ("z3-nomBQI", 8, ("smt.mbqi=false", "smt.qi.eager_threshold=100")),
    ("z3-nl", 15, ("smt.arith.solver=2",)),
    ("cases", 8, 6),
    ("cvc5", 20, None),
    ("z3", 40, ()),
]
NONLINEAR = [
    ("z3", 2, ()),
    ("z3-nl", 3, ("smt.arith.solver=2",)),
    ("nlsat", 4, None),
    ("ideal", 40, None),
    ("nlsat", 10, None),
    ("z3-nomBQI", 8, ("smt.mbqi=false", "smt.qi.eager_threshold=100")),
    ("cvc5", 20, None),
    ("z3", 40, ()),
]


LOCAL = [("z3", 5, ()), ("nlsat", 10, None)]
THOROUGH = [("z3", 200, ()), ("cvc5", 120, None)]
BOUNDED = [("z3", 40, ())]


def local_text(eng, o):
    """When the goal speaks about values named with vc::opaque: only the hypotheses about nothing else, without the definitions of
    the names."""
    from .core import consts_in
    if not eng.opaque: return None
    names = consts_in(o.goal)
    if not any(c.decl().name() in names for c, _ in eng.opaque): return None
    defs = {d.get_id() for _, d in eng.opaque}
    todo, hyps = [c for (_, c) in o.pc], []
    while todo:
        c = todo.pop()
        if c.get_id() in defs: continue
        if z3.is_and(c): todo += c.children()
        elif consts_in(c) <= names: hyps.append(c)
    return to_smt2(hyps + [Not(o.goal)])


def vacuous(eng):
    """Whether some end state of the proof has contradictory hypotheses everywhere."""
    bg = background(eng)
    for s in eng.end_states:
        fs = [c for (_, c) in s.pc]
        r, _, _ = run_z3(to_smt2(relevant_bg(bg, fs) + fs), 4)
        if r != "unsat": return False
    return True


def cases(text, t, depth):
    """Splits the problem on the conditions of its conditional terms; every case must be discharged."""
    t0 = time.time()
    p = subprocess.Popen([sys.executable, "-m", "vt.context", str(depth)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    try:
        out, _ = p.communicate(text, timeout=20)
        leaves = json.loads(out)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        return "unknown", time.time() - t0
    except ValueError:
        return "unknown", time.time() - t0
    for l in leaves:
        if run_z3(l, t)[0] != "unsat" and run_z3(l, t, opts=("smt.mbqi=false",))[0] != "unsat": return "unknown", time.time() - t0
    return "unsat", time.time() - t0


def discharge(text, strategies, nl=False):
    total = 0.0
    last = "unknown"
    for name, t, opts in strategies:
        if name == "ideal":
            if not nl: continue
            r, dt = ideal.run(text, t)
            total += dt
            if r.strip() == "unsat": return "unsat", name, total
            continue
        if name == "nlsat":
            if not nl: continue
            nt, dt = ideal.run(text, 20, "nra")
            total += dt
            if "(check-sat)" not in nt: continue
            r, dt, _ = run_z3(nt.replace("(check-sat)", "(check-sat-using (then simplify purify-arith elim-term-ite simplify solve-eqs elim-uncnstr simplify tseitin-cnf simplify nlsat))"), t)
            total += dt
            if r == "unsat": return "unsat", name, total
            continue
        if name == "cases":
            r, dt = cases(text, t, opts)
            total += dt
            if r == "unsat": return "unsat", name, total
            continue
        if name == "cvc5":
            if "(lambda" in text: continue
            r, dt, _ = run_cvc5(text, t)
        else: r, dt, _ = run_z3(text, t, opts=opts)
        total += dt
        if r == "unsat": return "unsat", name, total
        if r == "sat": return "sat", name, total
        last = r
    return last, None, total


def solve_all(eng, obls, budget=None, jobs=8, log=None, thorough=False):
    """Sets status on each obligation: proved / sat / unknown."""
    bg = background(eng)
    todo = []
    seen = {}
    for o in obls:
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            o.status, o.backend, o.time = "proved", "simplifier", 0.0
            continue
        fs = [c for (_, c) in o.pc] + [Not(o.goal)]
        fs = relevant_bg(bg, fs) + fs
        txt = to_smt2(fs)
        o.quant = "(forall" in txt or "(exists" in txt or "(lambda" in txt
        h = hashlib.sha1(txt.encode()).hexdigest()
        if h in seen: seen[h].append(o)
        else:
            seen[h] = [o]
            todo.append((h, txt, eng.bound_k is None and nonlinear(fs), local_text(eng, o)))

    t0 = time.time()
    def work(job):
        h, txt, nl, small = job
        if budget is not None and time.time() - t0 > budget: return h, ("unknown", None, 0.0)
        if small is not None:
            r = discharge(small, LOCAL, True)
            if r[0] == "unsat": return h, r
        return h, discharge(txt, BOUNDED if eng.bound_k is not None else (NONLINEAR if nl else STRATEGIES) + (THOROUGH if thorough else []), nl)
    with ThreadPoolExecutor(jobs) as ex:
        texts = {h: t for h, t, _, _ in todo}
        for h, (r, name, dt) in ex.map(work, todo):
            if r == "sat" and eng.bound_k is not None:
                _, _, out = run_z3(texts[h], 20, model=True)
                seen[h][0].model = out[:20000]
            for o in seen[h]:
                o.status = "proved" if r == "unsat" else ("sat" if r == "sat" else "unknown")
                o.backend, o.time = name, dt
            seen[h][0].time = dt
    return obls
