"""Case distinction: rewrites a problem under its own literals and splits it on the conditions of conditional terms."""
import json, sys
import z3


def flat(fs):
    out, todo, seen = [], list(reversed(fs)), set()
    while todo:
        c = todo.pop()
        if z3.is_and(c): todo += reversed(c.children())
        elif z3.is_not(c) and z3.is_or(c.arg(0)): todo += [z3.Not(x) for x in reversed(c.arg(0).children())]
        elif z3.is_not(c) and z3.is_not(c.arg(0)): todo.append(c.arg(0).arg(0))
        elif not z3.is_true(c) and c.get_id() not in seen:
            seen.add(c.get_id())
            out.append(c)
    return out


def literal(c):
    return (c.arg(0), z3.BoolVal(False)) if z3.is_not(c) else (c, z3.BoolVal(True))


def context(fs, rounds=4):
    """Equivalent formulas where every hypothesis is replaced by its truth value inside the others."""
    fs = flat([z3.simplify(f) for f in fs])
    for _ in range(rounds):
        lits = [(j,) + literal(c) for j, c in enumerate(fs)]
        lits = [(j, a, v) for j, a, v in lits if not z3.is_quantifier(a) and not z3.is_true(a) and not z3.is_false(a)]
        eqs = [(j, a, v) for j, a, v in lits if z3.is_true(v) and z3.is_eq(a)]
        new, changed = [], False
        for k, c in enumerate(fs):
            a0 = literal(c)[0]
            subs = [(a, v) for j, a, v in lits if j != k and not a.eq(a0)]
            n = z3.simplify(z3.substitute(c, *subs)) if subs else c
            changed = changed or not n.eq(c)
            new.append(n)
        if not changed: break
        fs = flat(new)
    return fs


def size(t, memo):
    k = t.get_id()
    if k not in memo: memo[k] = 1 + sum(size(c, memo) for c in t.children())
    return memo[k]


def condition(fs):
    """The condition of the largest conditional term outside quantifiers; None when there is none."""
    best, seen, memo = None, set(), {}
    todo = list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            if closed(c):
                s = size(t, memo)
                if best is None or s > best[0]: best = (s, c)
        todo += t.children()
    return best[1] if best else None


_closed = {}


def closed(t):
    k = t.get_id()
    if k not in _closed:
        _closed[k] = (t, not z3.is_var(t) and not z3.is_quantifier(t) and all(closed(c) for c in t.children()))
    return _closed[k][1]


def pieces(c):
    """A condition to split on: a disjunct or conjunct rather than the whole."""
    while z3.is_not(c) or z3.is_or(c) or z3.is_and(c):
        c = c.arg(0)
    return c


def split(fs, depth, out, limit):
    fs = context(fs)
    if any(z3.is_false(f) for f in fs): return
    c = condition(fs) if depth > 0 and len(out) < limit else None
    if c is None:
        out.append(fs)
        return
    c = pieces(c)
    split(fs + [c], depth - 1, out, limit)
    split(fs + [z3.Not(c)], depth - 1, out, limit)


def main():
    depth = int(sys.argv[1])
    fs = list(z3.parse_smt2_string(sys.stdin.read()))
    out = []
    split(fs, depth, out, 40)
    res = []
    for f in out:
        s = z3.Solver()
        s.add(*f)
        res.append(s.to_smt2())
    json.dump(res, sys.stdout)


if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    main()
