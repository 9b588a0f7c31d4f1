"""Standard algorithms, executed through the loop engine with the caller's predicates."""
import z3
from .sorts import Unsupported, kind, I, R, B
from .core import Loc, Iter, Ins, Lst, Alias, And, Or, Not, If, TRUE, FALSE
from .loops import run_loop


def iv(n): return z3.IntVal(n)


def register(S, T, reg, simple):
    e = S.e

    def elem(st, it, i):
        return S.elem_at(st, it.cont, it.cty, it.idx + i)

    def loop(st, n, body, fin=None, node=None):
        """body(st, i) -> states (out None: continue, ('break',), throw)."""
        def it(z, i):
            c = e.simp(i < n)
            outs = []
            if not z3.is_true(c):
                x = z.copy().dec(Not(c)); x.out = ("exit",); outs.append(x)
            if not z3.is_false(c):
                outs += body(z.copy().dec(c), i)
            return e.join(len(z.pc), outs)
        base = len(st.pc)
        outs = run_loop(e, st, it, node or {}, None, fin, n)
        return e.join(base, outs)

    def span(st, a, b):
        x, y = S.val(st, a), S.val(st, b)
        if not isinstance(x, Iter) or not isinstance(y, Iter): raise Unsupported("algorithm range")
        return x, z3.simplify(y.idx - x.idx)

    def result(st, states, key):
        out = []
        for s in states:
            v = s.env.pop(key, None)
            out.append((s, v if s.out is None else None))
        return out

    def tmp(st, v):
        key = (st.frame, "alg!%d" % S.uid())
        st.env[key] = v
        return key

    def search(pred_of, neg=False):
        """find-like loop: stops at the first element satisfying the predicate; fin stores the outcome."""
        def run(st, x, n, setres, key):
            def body(z, i):
                outs = []
                for s, c in pred_of(z, i):
                    if s.out is not None: outs.append(s); continue
                    c = e.simp(Not(c) if neg else c)
                    if not z3.is_false(c):
                        y = s.copy().dec(c); y.out = ("break",); outs.append(y)
                    if not z3.is_true(c): outs.append(s.copy().dec(Not(c)))
                return outs
            def fin(s, k, i): s.env[key] = setres(s, k, i)
            return loop(st, n, body, fin)
        return run

    def pred1(st, f, x):
        def p(z, i):
            el = elem(z, x, i)
            if el.path and el.path[-1][0] == "me": el = Loc(("term", S.read_pair(z, el)), (), el.ty) if False else el
            return e.bind(e.apply(f, [el], z), lambda s, v: [(s, truth(S.val(s, v)))])
        return p

    def truth(v): return v if z3.is_bool(v) else v != 0

    def find_if(fn, a, st, node):
        st = st.copy()
        x, n = span(st, a[0], a[1])
        if fn.name == "find":
            val = S.val(st, a[2])
            ety = x.cty.args[0] if kind(x.cty) != "array" else x.cty.to
            p = lambda z, i: [(z, S.eq(z, S.val(z, elem(z, x, i)), e.term(z, val, ety), ety))]
            neg = False
        else:
            f = e.fn_from(S.val(st, a[2]))
            p = pred1(st, f, x)
            neg = fn.name == "find_if_not"
        key = tmp(st, iv(0))
        outs = search(p, neg)(st, x, n, lambda s, k, i: z3.simplify(x.idx + i), key)
        return e.merge_results(0, [(s, Iter(x.kind, x.cont, x.cty, v) if v is not None else None) for s, v in result(st, outs, key)]) if False else \
            [(s, Iter(x.kind, x.cont, x.cty, v) if s.out is None else None) for s, v in result(st, outs, key)]
    reg("std::find_if std::find std::find_if_not", find_if)

    def quant(fn, a, st, node):
        st = st.copy()
        x, n = span(st, a[0], a[1])
        f = e.fn_from(S.val(st, a[2]))
        key = tmp(st, FALSE)
        neg = fn.name == "all_of"
        hit = TRUE if fn.name == "any_of" else FALSE
        outs = search(pred1(st, f, x), neg)(st, x, n, lambda s, k, i: hit if k == "break" else Not(hit), key)
        return result(st, outs, key)
    reg("std::any_of std::all_of std::none_of", quant)

    def emit(st, out, i, v):
        """Writes v through an output iterator (i-th write)."""
        o = S.val(st, out) if not isinstance(out, Ins) else out
        if isinstance(o, Ins):
            l = o.loc
            k = kind(l.ty)
            fake = type("F", (), {"params": [], "record": l.ty, "name": "insert", "q0": "emit"})
            f = T["std::vector::push_back"] if k == "vec" else T["std::map::insert"] if k == "map" else T["std::set::insert"]
            return [s for s, _ in f(fake, [l, v], st, None)]
        if isinstance(o, Iter):
            ety = o.cty.args[0] if kind(o.cty) != "array" else o.cty.to
            l = elem(st, o, i)
            res = []
            for s, w in S.convert(st, v, ety):
                if s.out is None:
                    e.safety(s, And(o.idx + i >= 0, o.idx + i < S.iter_len(s, o)), "write outside the output range")
                    e.write(s, l, w)
                res.append(s)
            return res
        raise Unsupported("output iterator")

    def after(st, out, n):
        o = S.val(st, out) if not isinstance(out, Ins) else out
        return Iter(o.kind, o.cont, o.cty, z3.simplify(o.idx + n)) if isinstance(o, Iter) else o

    def value(st, el):
        return S.read_elem(st, el, el.ty) if isinstance(el, Loc) else el

    def transform(fn, a, st, node):
        st = st.copy()
        x, n = span(st, a[0], a[1])
        second = S.val(st, a[2]) if len(a) == 5 else None
        out, f = a[-2], e.fn_from(S.val(st, a[-1]))
        def body(z, i):
            args = [elem(z, x, i)] + ([elem(z, second, i)] if second is not None else [])
            outs = []
            for s, v in e.apply(f, args, z):
                if s.out is not None: outs.append(s)
                else: outs += emit(s, out, i, S.val(s, v))
            return outs
        return [(s, after(s, out, n) if s.out is None else None) for s in loop(st, n, body)]
    reg("std::transform", transform)

    def copy_if(fn, a, st, node):
        st = st.copy()
        if fn.name == "copy_n":
            x, n = S.val(st, a[0]), z3.simplify(S.val(st, a[1]))
        else:
            x, n = span(st, a[0], a[1])
        out = a[2]
        f = e.fn_from(S.val(st, a[3])) if fn.name == "copy_if" else None
        def body(z, i):
            el = elem(z, x, i)
            if f is None: return emit(z, out, i, value(z, el))
            outs = []
            for s, c in e.apply(f, [el], z):
                if s.out is not None: outs.append(s); continue
                c = e.simp(truth(S.val(s, c)))
                if not isinstance(S.val(s, out) if not isinstance(out, Ins) else out, Ins): raise Unsupported("copy_if output")
                if not z3.is_false(c): outs += emit(s.copy().dec(c), out, i, value(s, el))
                if not z3.is_true(c): outs.append(s.copy().dec(Not(c)))
            return outs
        return [(s, after(s, out, n) if s.out is None else None) for s in loop(st, n, body)]
    reg("std::copy_if std::copy std::copy_n", copy_if)

    def for_each(fn, a, st, node):
        st = st.copy()
        x, n = span(st, a[0], a[1])
        f = e.fn_from(S.val(st, a[2]))
        outs = loop(st, n, lambda z, i: [s for s, _ in e.apply(f, [elem(z, x, i)], z)])
        return [(s, f if s.out is None else None) for s in outs]
    reg("std::for_each", for_each)

    def accumulate(fn, a, st, node):
        st = st.copy()
        inner = fn.name == "inner_product"
        x, n = span(st, a[0], a[1])
        y = S.val(st, a[2]) if inner else None
        rest = a[3:] if inner else a[2:]
        ops = [e.fn_from(S.val(st, f)) for f in rest[1:]]
        rt = fn.ret
        acc = e.narrow(e.term(st, rest[0], rt), rt)
        key = tmp(st, acc)
        def body(z, i):
            p = elem(z, x, i)
            cur = z.env[key]
            def fold(s, t):
                t = S.val(s, t)
                if ops: rs = e.apply(ops[0], [cur, t], s)
                else: rs = [(s, e.arith(s, "+", cur, t, rt))]
                return e.bind(rs, lambda s2, v: (s2.env.__setitem__(key, e.narrow(e.term(s2, S.val(s2, v), rt), rt)), [(s2, None)])[1])
            if not inner: rs = fold(z, S.val(z, p) if not ops else p)
            else:
                q = elem(z, y, i)
                if len(ops) > 1: rs = e.bind(e.apply(ops[1], [p, q], z), fold)
                else: rs = fold(z, e.arith(z, "*", S.val(z, p), S.val(z, q), rt))
            return [s for s, _ in rs]
        outs = loop(st, n, body)
        return result(st, outs, key)
    reg("std::accumulate std::inner_product", accumulate)

    def count(fn, a, st, node):
        st = st.copy()
        x, n = span(st, a[0], a[1])
        ety = x.cty.args[0]
        f = e.fn_from(S.val(st, a[2])) if fn.name == "count_if" else None
        if f is None and e.bound_k is None and not (z3.is_int_value(n) and n.as_long() < 8):
            w = e.term(st, a[2], ety)
            return [(st, S.count_term(st, n, lambda i: S.eq(st, S.val(st, elem(st, x, i)), w, ety)))]
        key = tmp(st, iv(0))
        def body(z, i):
            if f is None: rs = [(z, S.eq(z, S.val(z, elem(z, x, i)), e.term(z, a[2], ety), ety))]
            else: rs = e.apply(f, [elem(z, x, i)], z)
            outs = []
            for s, c in rs:
                if s.out is None: s.env[key] = s.env[key] + If(truth(S.val(s, c)), iv(1), iv(0))
                outs.append(s)
            return outs
        return result(st, loop(st, n, body), key)
    reg("std::count std::count_if", count)

    def equal(fn, a, st, node):
        st = st.copy()
        x, n = span(st, a[0], a[1])
        y = S.val(st, a[2])
        rest = a[3:]
        key = tmp(st, FALSE)
        n2 = None
        if rest and isinstance(S.val(st, rest[0]), Iter):
            n2 = S.val(st, rest[0]).idx - y.idx
            rest = rest[1:]
        f = e.fn_from(S.val(st, rest[0])) if rest else None
        ety = x.cty.args[0]
        outs0 = []
        if n2 is not None:
            c = e.simp(n == n2)
            if not z3.is_true(c):
                s = st.copy().dec(Not(c)); s.env[key] = FALSE
                outs0.append(s)
            if z3.is_false(c): return result(st, outs0, key)
            st = st.copy().dec(c)
        def p(z, i):
            u, v = elem(z, x, i), elem(z, y, i)
            if f is None: return [(z, S.eq(z, S.val(z, u), S.val(z, v), ety))]
            return e.bind(e.apply(f, [u, v], z), lambda s, r: [(s, truth(S.val(s, r)))])
        outs = search(p, True)(st, x, n, lambda s, k, i: FALSE if k == "break" else TRUE, key)
        return result(st, outs0 + outs, key)
    reg("std::equal", equal)

    def is_permutation(fn, a, st, node):
        """An equivalence of sequences that implies equal lengths and equal sets of elements, and follows from them for distinct ones."""
        st = st.copy()
        x, n = span(st, a[0], a[1])
        if len(a) != 4: raise Unsupported("is_permutation arguments")
        y, m = span(st, a[2], a[3])
        ety = x.cty.args[0]
        if not all(z3.is_int_value(i.idx) and i.idx.as_long() == 0 and kind(i.cty) == "vec" for i in (x, y)) or x.cty.s != y.cty.s or e.bound_k is not None:
            raise Unsupported("is_permutation range")
        if not S.structural(st, ety): raise Unsupported("is_permutation of %s" % ety.s)
        d = e.sorts.info(x.cty)
        va, vb = (d.mk(k, d.get(e.read(st, i.cont), 1)) for i, k in ((x, n), (y, m)))
        VS = va.sort()
        p = e.func("perm!" + x.cty.s, VS, VS, z3.BoolSort())
        u, v, w = (z3.Const("perm%d!%d" % (k, S.uid()), VS) for k in range(3))
        i, j = (z3.Const("permi%d!%d" % (k, S.uid()), I) for k in range(2))
        at = lambda t, k: z3.Select(d.get(t, 1), k)
        sub = lambda s, t: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < d.get(s, 0)), z3.Exists([j], z3.And(j >= 0, j < d.get(t, 0), at(s, i) == at(t, j)))))
        dist = lambda s: z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < d.get(s, 0)), at(s, i) != at(s, j)))
        c = p(va, vb)
        for f in (p(va, va), p(vb, vb), p(va, vb) == p(vb, va), z3.Implies(c, z3.And(n == m, sub(va, vb), sub(vb, va))),
                  z3.Implies(z3.And(n == m, sub(va, vb), dist(va)), c), z3.Implies(z3.And(n == m, sub(vb, va), dist(vb)), c),
                  z3.ForAll([u, v, w], z3.Implies(z3.And(p(u, v), p(v, w)), p(u, w)), patterns=[z3.MultiPattern(p(u, v), p(v, w))])):
            st.fact(f)
        return [(st, c)]
    reg("std::is_permutation", is_permutation)

    def extremum(fn, a, st, node):
        st = st.copy()
        x, n = span(st, a[0], a[1])
        f = e.fn_from(S.val(st, a[2])) if len(a) > 2 else None
        key = tmp(st, iv(0))
        mx = fn.name == "max_element"
        def body(z, i):
            b = z.env[key]
            u, v = elem(z, x, i), elem(z, x, b)
            if mx: u, v = v, u
            if f is None: rs = [(z, S.val(z, u) < S.val(z, v))]
            else: rs = e.apply(f, [u, v], z)
            outs = []
            for s, c in rs:
                if s.out is None: s.env[key] = If(truth(S.val(s, c)), i, b)
                outs.append(s)
            return outs
        return [(s, Iter(x.kind, x.cont, x.cty, z3.simplify(x.idx + v)) if s.out is None else None) for s, v in result(st, loop(st, n, body), key)]
    reg("std::max_element std::min_element", extremum)

    def remove_if(fn, a, st, node):
        st = st.copy()
        x, n = span(st, a[0], a[1])
        if kind(x.cty) != "vec": raise Unsupported("remove_if container")
        ty = x.cty
        d = e.sorts.info(ty)
        key = tmp(st, S.vec_from_items(st, [], ty))
        tl = Loc(("var", key), (), ty)
        f = e.fn_from(S.val(st, a[2])) if fn.name == "remove_if" else None
        def body(z, i):
            el = elem(z, x, i)
            outs = []
            rs = e.apply(f, [el], z) if f is not None else [(z, S.eq(z, S.val(z, el), e.term(z, a[2], ty.args[0]), ty.args[0]))]
            for s, c in rs:
                if s.out is not None: outs.append(s); continue
                c = e.simp(truth(S.val(s, c)))
                if not z3.is_false(c): outs.append(s.copy().dec(c))
                if not z3.is_true(c): outs += emit(s.copy().dec(Not(c)), Ins(tl), i, value(s, el))
            return outs
        res = []
        for s in loop(st, n, body):
            if s.out is not None:
                s.env.pop(key, None); res.append((s, None)); continue
            t = s.env.pop(key)
            m, tarr = d.get(t, 0), d.get(t, 1)
            cur = e.read(s, x.cont)
            arr = d.get(cur, 1)
            na = e.fresh("rm", arr.sort())
            s = s.copy()
            if e.bound_k is not None:
                for j in range(e.bound_k + 1):
                    k = iv(j)
                    s.fact(Implies_(k < x.idx, z3.Select(na, k) == z3.Select(arr, k)))
                    s.fact(Implies_(And(k >= x.idx, k < x.idx + m), z3.Select(na, k) == z3.Select(tarr, k - x.idx)))
            else:
                q = z3.Const("rmq!%d" % S.uid(), I)
                s.fact(z3.ForAll([q], If(q < x.idx, z3.Select(na, q) == z3.Select(arr, q), z3.Or(q >= x.idx + m, z3.Select(na, q) == z3.Select(tarr, q - x.idx))), patterns=[z3.Select(na, q)]))
            e.write(s, x.cont, d.mk(d.get(cur, 0), na))
            res.append((s, Iter("vec", x.cont, ty, z3.simplify(x.idx + m))))
        return res
    reg("std::remove_if std::remove", remove_if)

    T["std::back_inserter"] = simple(lambda fn, a, st: Ins(a[0]))
    T["std::inserter"] = simple(lambda fn, a, st: Ins(a[0]))
    def fill(fn, a, st):
        l = a[0]
        d = e.sorts.info(l.ty)
        v = e.term(st, a[1], l.ty.args[0])
        e.write(st, l, d.mk(*[v] * len(d.accs)))
    T["std::array::fill"] = simple(fill)


def Implies_(a, b): return z3.Implies(a, b)
