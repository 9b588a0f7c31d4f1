"""Quantifier-free nonlinear real abstraction of an obligation, for nlsat."""
import z3


class NotReal(Exception):
    pass


def text(fs):
    """Quantifier-free nonlinear real abstraction: hypotheses that are not arithmetic are dropped or made opaque (sound for unsat)."""
    opaque, out = {}, []
    cache = {}
    def const(t):
        k = t.get_id()
        if k not in opaque:
            opaque[k] = (z3.Const("nra!%d" % len(opaque), t.sort() if t.sort() == z3.BoolSort() else z3.RealSort()), t)
        return opaque[k][0]
    ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_POWER}
    REL = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}
    BOOL = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR}
    def go(t):
        k = t.get_id()
        if k in cache: return cache[k][0]
        r = go1(t)
        cache[k] = (r, t)
        return r
    def go1(t):
        if z3.is_quantifier(t) or not z3.is_app(t): raise NotReal()
        k = t.decl().kind()
        if z3.is_bool(t):
            if z3.is_true(t) or z3.is_false(t): return t
            if k in BOOL: return t.decl()(*[go(c) for c in t.children()])
            if k == z3.Z3_OP_ITE: return z3.If(*[go(c) for c in t.children()])
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bool(t.arg(0)): return t.decl()(*[go(c) for c in t.children()])
            if k in REL and t.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
                cs = [go(c) for c in t.children()]
                f = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GE: lambda a, b: a >= b,
                     z3.Z3_OP_GT: lambda a, b: a > b, z3.Z3_OP_EQ: lambda a, b: a == b}.get(k)
                return f(*cs) if f else z3.Distinct(*cs)
            return const(t)
        if z3.is_rational_value(t): return t
        if z3.is_int_value(t): return z3.RealVal(t.as_long())
        if k == z3.Z3_OP_TO_REAL: return go(t.arg(0))
        if k in ARITH and t.sort() == z3.RealSort():
            cs = [go(c) for c in t.children()]
            if k == z3.Z3_OP_ADD: return z3.Sum(cs)
            if k == z3.Z3_OP_MUL: return z3.Product(cs)
            if k == z3.Z3_OP_UMINUS: return -cs[0]
            if k == z3.Z3_OP_SUB:
                r = cs[0]
                for c in cs[1:]: r = r - c
                return r
            if k == z3.Z3_OP_DIV: return cs[0] / cs[1]
            return cs[0] ** cs[1]
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and t.sort() == z3.IntSort():
            cs = [go(c) for c in t.children()]
            r = cs[0]
            for c in cs[1:]: r = r + c if k == z3.Z3_OP_ADD else r - c
            return r
        if k == z3.Z3_OP_ITE and t.sort() in (z3.RealSort(), z3.IntSort()):
            return z3.If(*[go(c) for c in t.children()])
        return const(t)
    n = len(fs)
    for i, f in enumerate(fs):
        try: out.append(go(z3.simplify(f) if not z3.is_quantifier(f) else f))
        except NotReal:
            if i == n - 1: return None
    if not any(True for _ in out): return None
    s = z3.Solver()
    for f in out: s.add(f)
    return s.to_smt2()
