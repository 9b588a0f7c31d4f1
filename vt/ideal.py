"""Equational back end: a real equality follows when the difference of its sides reduces to zero modulo the hypotheses' equalities.

Terms that are not polynomial are opaque variables; a quotient a/b is a variable d with d*b = a, used only once b != 0 is
established by z3; a conditional term is used only once z3 decides its condition.
"""
import json, os, resource, subprocess, sys, time
import z3


class No(Exception):
    pass


def entails(hyps, goal, timeout=1500):
    s = z3.Solver()
    s.set("timeout", timeout)
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


class Conv:
    def __init__(self, hyps):
        self.hyps = hyps
        self.vars, self.keep, self.rels, self.cache = {}, [], [], {}
        self.inverse = {}

    def var(self, t):
        k = t.get_id()
        if k not in self.vars:
            self.vars[k] = "v%d" % len(self.vars)
            self.keep.append(t)
        return self.vars[k]

    def poly(self, t):
        """A python expression over the variables, as a string."""
        k = t.get_id()
        if k not in self.cache:
            self.keep.append(t)
            self.cache[k] = self.poly1(t)
        return self.cache[k]

    def decide(self, c):
        k = ("c", c.get_id())
        if k not in self.cache:
            self.keep.append(c)
            self.cache[k] = True if entails(self.hyps, c) else (False if entails(self.hyps, z3.Not(c)) else None)
        return self.cache[k]

    def poly1(self, t):
        if z3.is_rational_value(t): return "Q(%d,%d)" % (t.numerator_as_long(), t.denominator_as_long())
        if z3.is_int_value(t): return "Q(%d,1)" % t.as_long()
        if not z3.is_app(t): raise No("term")
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL: return self.poly(t.arg(0))
        if k == z3.Z3_OP_ADD: return "(" + "+".join(self.poly(c) for c in t.children()) + ")"
        if k == z3.Z3_OP_MUL: return "(" + "*".join(self.poly(c) for c in t.children()) + ")"
        if k == z3.Z3_OP_SUB: return "(" + "-".join(self.poly(c) for c in t.children()) + ")"
        if k == z3.Z3_OP_UMINUS: return "(-" + self.poly(t.arg(0)) + ")"
        if k == z3.Z3_OP_DIV:
            if z3.is_rational_value(t.arg(1)) and t.arg(1).numerator_as_long() != 0:
                b = t.arg(1)
                return "(%s*Q(%d,%d))" % (self.poly(t.arg(0)), b.denominator_as_long(), b.numerator_as_long())
            if not entails(self.hyps, t.arg(1) != 0): return self.var(t)
            d = self.var(t)
            b = self.poly(t.arg(1))
            self.rels.append("%s*%s-%s" % (d, b, self.poly(t.arg(0))))
            if b not in self.inverse:
                self.inverse[b] = "w%d" % len(self.inverse)
                self.rels.append("%s*%s-Q(1,1)" % (b, self.inverse[b]))
            return d
        if k == z3.Z3_OP_ITE:
            b = self.decide(t.arg(0))
            return self.var(t) if b is None else self.poly(t.arg(1 if b else 2))
        return self.var(t)


def arithmetic(f):
    todo, seen = [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): return False
        todo += t.children()
    return True


def split(g):
    """Simplified, but with conjunctions kept apart."""
    if z3.is_and(g): return z3.And([split(c) for c in g.children()])
    if z3.is_implies(g): return z3.Implies(z3.simplify(g.arg(0)), split(g.arg(1)))
    return z3.simplify(g, eq2ineq=False)


def problem(fs):
    """The reduction problem of an obligation (hypotheses and negated goal), or None."""
    hyps = [split(h) for h in fs[:-1] if arithmetic(h)]
    goal = fs[-1]
    if not (z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_NOT) or not arithmetic(goal): return None
    goal = z3.Not(split(goal.arg(0)))
    goals = []
    def flat(g):
        if z3.is_and(g):
            for c in g.children(): flat(c)
        elif z3.is_true(g): pass
        elif z3.is_app(g) and g.decl().kind() == z3.Z3_OP_EQ and g.arg(0).sort() == z3.RealSort(): goals.append(g)
        else: raise No("goal")
    try:
        flat(goal.arg(0))
        c = Conv(hyps)
        ps = ["%s-%s" % (c.poly(g.arg(0)), c.poly(g.arg(1))) for g in goals]
        def hyp(h):
            if z3.is_and(h):
                for x in h.children(): hyp(x)
            elif z3.is_app(h) and h.decl().kind() == z3.Z3_OP_EQ and h.arg(0).sort() == z3.RealSort():
                c.rels.append("%s-%s" % (c.poly(h.arg(0)), c.poly(h.arg(1))))
            elif z3.is_implies(h):
                x = h.arg(1)
                if any(y.decl().kind() == z3.Z3_OP_EQ for y in ([x] + (x.children() if z3.is_and(x) else []))) and entails(hyps, h.arg(0)): hyp(x)
        for h in hyps: hyp(h)
    except No:
        return None
    return json.dumps({"vars": list(c.vars.values()) + list(c.inverse.values()), "goals": ps, "rels": c.rels})


def run(text, timeout, mode="ideal"):
    """text: the obligation in SMT-LIB, the negated goal last."""
    t0 = time.time()
    p = subprocess.Popen([sys.executable, "-m", "vt.ideal", mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                         cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    try:
        out, _ = p.communicate(text, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        out = ""
    return out, time.time() - t0


def main():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    fs = list(z3.parse_smt2_string(sys.stdin.read()))
    if sys.argv[1] == "nra":
        from . import nra
        print(nra.text(fs) or ""); return
    text = problem(fs)
    if text is None: print("unknown"); return
    from sympy import QQ, ring
    from sympy.polys.orderings import grevlex
    from sympy.polys.groebnertools import groebner
    p = json.loads(text)
    sys.setrecursionlimit(100000)
    vs = p["vars"]
    Rg, *gens = ring(vs, QQ, grevlex)
    env = dict(zip(vs, gens))
    env["Q"] = lambda a, b: Rg.ground_new(QQ(a, b))
    ev = lambda s: Rg.ground_new(0) + eval(s, {"__builtins__": {}}, env)
    goals = [g for g in (ev(s) for s in p["goals"]) if g != 0]
    if not goals: print("unsat"); return
    rels = [r for r in (ev(s) for s in p["rels"]) if r != 0]
    if not rels: print("unknown"); return
    goals = [g for g in goals if g.rem(rels) != 0]
    if not goals: print("unsat"); return
    # Only relations connected to the goals.
    used = set()
    def vars_of(q): return {i for m in q.itermonoms() for i, e in enumerate(m) if e}
    for g in goals: used |= vars_of(g)
    changed, sel = True, []
    while changed:
        changed = False
        for r in rels:
            if r not in sel and vars_of(r) & used:
                sel.append(r); used |= vars_of(r); changed = True
    G = groebner(sel, Rg)
    print("unsat" if all(g.rem(G) == 0 for g in goals) else "unknown")


if __name__ == "__main__": main()
