"""Models of the C++ standard library used by the sources (trusted base), and the intrinsics of contracts/vc.h."""
import z3
from .sorts import Unsupported, kind, I, R, B, STR
from .core import (Loc, PtrTo, Alias, Closure, FnPtr, PyFn, Iter, Ins, Lst, Opaque, And, Or, Not, If, Implies, TRUE, FALSE, same, is_lit)

CONTAINERS = ("std::vector", "std::deque", "std::initializer_list", "std::list", "std::queue", "std::stack", "std::map", "std::unordered_map",
              "std::set", "std::unordered_set", "std::array", "std::basic_string")


def iv(n): return z3.IntVal(n)


class Stl:
    def __init__(self, eng):
        self.e = eng
        self.table = {}
        self.build()

    # ------------------------------------------------------------------ dispatch
    def find(self, fn):
        q = fn.q0
        m = self.table.get(q)
        if m is None:
            if q.startswith("maliput::common::Logger") or q in ("maliput::log", "maliput::common::set_log_level", "drake::log"):
                return lambda e, f, st: [(st, Opaque("log"))]
            if self.e.is_throw_fn(fn):
                def thr(e, f, st):
                    st = st.copy(); st.out = ("throw", "maliput::common::assertion_error")
                    return [(st, None)]
                return thr
            if q.startswith("vc::"):
                return lambda e, f, st: self.node(e, f, st, self.vcm)
            return None
        if getattr(m, "nodelevel", False): return m
        return lambda e, f, st: self.node(e, f, st, m)

    def find_raw(self, fn):
        m = self.table.get(fn.q0)
        if m is None: return None
        return lambda f, args, st: m(f, args, st, None)

    def node(self, e, fn, st, m):
        eng = self.e
        eng.trusted_std.add(fn.q0)
        nodes, how = [], []
        if e["k"] == "mcall":
            oty = eng.tu.ty(e["obj"]["t"])
            if e["arrow"]: objs = eng.bind(eng.rv(e["obj"], st), lambda s, p: [(s, eng.deref(s, p, oty, e))])
            else: objs = eng.ev(e["obj"], st)
            def f(s, l):
                return eng.bind(eng.seq(s, e["args"], ["x"] * len(e["args"])), lambda s2, a: m(fn, [l] + a, s2, e))
            return eng.bind(objs, f)
        return eng.bind(eng.seq(st, e["args"], ["x"] * len(e["args"])), lambda s, a: m(fn, a, s, e))

    def vcm(self, fn, args, st, e):
        return self.vc(fn, args, st, e)

    # ------------------------------------------------------------------ helpers
    def val(self, st, x): return self.e.val(st, x)

    def loc(self, st, x, ty=None):
        if isinstance(x, Alias): x = x.loc
        if isinstance(x, Loc): return x
        return Loc(("term", x), (), ty)

    def take(self, st, a, pty):
        """Value of an argument; marks the source of an rvalue reference as moved from."""
        v = self.val(st, a)
        if isinstance(a, (Loc, Alias)) and pty is not None and pty.k == "rref":
            l = a.loc if isinstance(a, Alias) else a
            if l.root[0] == "var" or l.root[0] in ("heap", "hfield"):
                if not pty.const_to: self.e.moved_from(st, l, l.ty)
        return v

    def obj_ty(self, fn, a):
        if isinstance(a, Alias): a = a.loc
        if isinstance(a, Loc) and kind(a.ty) == kind(fn.record): return a.ty
        return fn.record

    def vparts(self, st, x, ty=None):
        """(len, arr) of a vector value; also handles Lst."""
        v = self.val(st, x)
        if isinstance(v, Lst): return iv(len(v.items)), v
        d = self.e.sorts.dt_of(v)
        return d.get(v, 0), d.get(v, 1)

    def vec_from_items(self, st, items, ty):
        d = self.e.sorts.info(ty)
        es = self.e.sorts.sort(ty.args[0])
        arr = self.e.fresh("vec", z3.ArraySort(I, es)) if not items else z3.K(I, items[0])
        for i, x in enumerate(items): arr = z3.Store(arr, iv(i), x)
        return d.mk(iv(len(items)), arr)

    def empty_map(self, ty):
        d = self.e.sorts.info(ty)
        ks = self.e.sorts.sort(ty.args[0])
        if kind(ty) == "map":
            vs = self.e.sorts.sort(ty.args[1])
            return d.mk(z3.K(ks, FALSE), self.e.fresh("mval", z3.ArraySort(ks, vs)), iv(0), self.e.fresh("mord", z3.ArraySort(I, ks)), self.e.fresh("mpos", z3.ArraySort(ks, I)))
        return d.mk(z3.K(ks, FALSE), iv(0), self.e.fresh("sord", z3.ArraySort(I, ks)), self.e.fresh("spos", z3.ArraySort(ks, I)))

    def default(self, ty, st):
        k = kind(ty)
        e = self.e
        if k == "vec": return self.vec_from_items(st, [], ty)
        if k in ("map", "set"): return self.empty_map(ty)
        if k == "opt": return self.opt_none(ty, st)
        if k == "str": return e.sorts.strlit("")
        if k in ("uptr", "func", "nullptr"): return iv(0)
        if k in ("arr", "array"):
            d = e.sorts.info(ty)
            return d.mk(*[e.term(st, e.default_value(t, st), t) for t in d.tys])
        if k == "tup":
            d = e.sorts.info(ty)
            return d.mk(*[e.term(st, e.zero(t, st), t) for t in d.tys])
        if k == "var":
            d = e.sorts.info(ty)
            vals = [iv(0)] + [e.term(st, e.default_value(ty.args[0], st), ty.args[0])]
            for t in ty.args[1:]: vals.append(e.fresh("var", e.sorts.sort(t)))
            return d.mk(*vals)
        if k in ("opaque",): return Opaque(ty.s)
        if k == "iter": return iv(0)
        raise Unsupported("default value of %s" % ty.s)

    def opt_none(self, ty, st):
        return self.e.sorts.info(ty).mk(FALSE, self.e.fresh("none", self.e.sorts.sort(ty.args[0])))

    def opt_some(self, ty, v): return self.e.sorts.info(ty).mk(TRUE, v)

    def throw(self, st, cond, what):
        """Splits st: [(thrown state)], normal state continues with not cond."""
        c = self.e.simp(cond)
        out = []
        if not z3.is_false(c):
            t = st.copy().dec(c)
            t.out = ("throw", what)
            out.append((t, None))
        if z3.is_true(c): return out, None
        n = st.copy().dec(Not(c)) if not z3.is_false(c) else st
        return out, n

    # ------------------------------------------------------------------ equality
    def eq(self, st, a, b, ty):
        """The value of a == b for C++ values of type ty."""
        e = self.e
        k = kind(ty)
        a, b = self.val(st, a), self.val(st, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return e.fresh("eq", B)
        if k in ("vec", "arr", "array") and (isinstance(a, Lst) or isinstance(b, Lst)):
            a, b = e.term(st, a, ty), e.term(st, b, ty)
        if k == "vec":
            d = e.sorts.info(ty)
            la, lb = d.get(a, 0), d.get(b, 0)
            body = lambda i: self.eq(st, z3.Select(d.get(a, 1), i), z3.Select(d.get(b, 1), i), ty.args[0])
            return And(la == lb, self.forall_int(st, iv(0), la, body))
        if k == "opt":
            d = e.sorts.info(ty)
            return And(d.get(a, 0) == d.get(b, 0), Implies(d.get(a, 0), self.eq(st, d.get(a, 1), d.get(b, 1), ty.args[0])))
        if k in ("arr", "array", "tup"):
            d = e.sorts.info(ty)
            return And(*[self.eq(st, d.get(a, i), d.get(b, i), t) for i, t in enumerate(d.tys)])
        if k == "map":
            d = e.sorts.info(ty)
            def body(x):
                return And(z3.Select(d.get(a, 0), x) == z3.Select(d.get(b, 0), x),
                           Implies(z3.Select(d.get(a, 0), x), self.eq(st, z3.Select(d.get(a, 1), x), z3.Select(d.get(b, 1), x), ty.args[1])))
            return And(d.get(a, 2) == d.get(b, 2), self.forall_keys(st, a, b, ty, body))
        if k == "set":
            d = e.sorts.info(ty)
            return And(d.get(a, 1) == d.get(b, 1),
                       self.forall_keys(st, a, b, ty, lambda x: z3.Select(d.get(a, 0), x) == z3.Select(d.get(b, 0), x)))
        if k == "var":
            d = e.sorts.info(ty)
            return And(d.get(a, 0) == d.get(b, 0), *[Implies(d.get(a, 0) == i, self.eq(st, d.get(a, i + 1), d.get(b, i + 1), t)) for i, t in enumerate(ty.args)])
        if k == "cls" and not e.sorts.is_heap_class(ty):
            f = self.user_eq(ty)
            if f is None: raise Unsupported("no operator== for %s" % ty.s)
            n = len(st.pc)
            s = st.copy()
            if f.method: rs = e.call_fn(f, self.loc(s, a, ty), [Loc(("term", b), (), ty)], s)
            else: rs = e.call_fn(f, None, [Loc(("term", a), (), ty), Loc(("term", b), (), ty)], s)
            v, facts = e.pure_result(rs, n)
            for f_ in facts: st.fact(f_)
            return v
        return a == b

    def structural(self, st, ty):
        """Whether == of a type is equality of its values."""
        e = self.e
        key = ("structural", ty.s)
        if key not in e.globals_cache:
            z = st.copy()
            n = len(z.pc)
            x, y = (e.fresh("seq", e.sorts.sort(ty)) for _ in range(2))
            c = self.eq(z, x, y, ty)
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*[f for _, f in z.pc[n:]])
            s.add(c != (x == y))
            e.globals_cache[key] = s.check() == z3.unsat
        return e.globals_cache[key]

    def user_eq(self, ty):
        e = self.e
        key = ("ueq", ty.s)
        if key not in e.globals_cache:
            r = None
            for f in e.prog.fns.values():
                if f.name != "operator==": continue
                ps = [p[2].deref().s for p in f.params]
                if f.method and f.record is not None and not f.has_body: continue
                if f.method and f.record is not None and f.record.s == ty.s and ps == [ty.s]: r = f
                elif not f.method and ps == [ty.s, ty.s] and f.has_body: r = f
            if r is None:
                for b in e.all_bases(ty):
                    r = r or self.user_eq(b)
                if r is None:
                    # Template base operators (VectorBase<N, D>, TypeSpecificIdentifier<T>...)
                    pass
            e.globals_cache[key] = r
        return e.globals_cache[key]

    def forall_int(self, st, lo, hi, body, exists=False):
        """ForAll/Exists i in [lo, hi): body(i); body may add facts to st (skolemised over i)."""
        e = self.e
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        comb = Or if exists else And
        if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() <= 64:
            return comb(*[body(iv(i)) for i in range(lo.as_long(), hi.as_long())])
        if e.bound_k is not None:
            out = []
            for j in range(e.bound_k + 1):
                i = z3.simplify(lo + j)
                out.append(And(i < hi, body(i)) if exists else Implies(i < hi, body(i)))
            return comb(*out)
        x = z3.Const("q!%d" % self.uid(), I)
        g = And(x >= lo, x < hi)
        if e.nonneg(z3.simplify(lo)): e.nn[x.get_id()] = x
        n = len(st.pc)
        e.bstack.append(x)
        try:
            b = body(x)
        finally:
            e.bstack.pop()
        new = st.pc[n:]
        del st.pc[n:]
        for (_, c) in new: st.fact(z3.ForAll([x], Implies(g, c)))
        if is_lit(b): return (FALSE if z3.is_false(b) else lo < hi) if exists else (TRUE if z3.is_true(b) else lo >= hi)
        return z3.Exists([x], And(g, b)) if exists else z3.ForAll([x], Implies(g, b))

    def uid(self):
        self.e.nfresh += 1
        return self.e.nfresh

    def forall_sort(self, st, sort, body, exists=False, guard=None):
        e = self.e
        x = z3.Const("q!%d" % self.uid(), sort)
        n = len(st.pc)
        e.bstack.append(x)
        try:
            b = body(x)
        finally:
            e.bstack.pop()
        new = st.pc[n:]
        del st.pc[n:]
        g = guard(x) if guard else TRUE
        for (_, c) in new: st.fact(z3.ForAll([x], Implies(g, c)))
        return z3.Exists([x], And(g, b)) if exists else z3.ForAll([x], Implies(g, b))

    def forall_keys(self, st, a, b, ty, body):
        e = self.e
        if e.bound_k is None: return self.forall_sort(st, e.sorts.sort(ty.args[0]), body)
        out = []
        for m in (a, b):
            dom, _, size, ord_, pos = e.map_parts(m, ty)
            for j in range(e.bound_k):
                x = z3.Select(ord_, iv(j))
                out.append(Implies(size > j, body(x)))
        return And(*out)

    # ------------------------------------------------------------------ iterators
    def iter_len(self, st, it):
        return self.container_len(st, it.cont, it.cty)

    def container_len(self, st, cont, cty):
        k = kind(cty)
        if k in ("arr",): return iv(cty.args[1])
        if k == "array": return iv(cty.n)
        v = self.val(st, cont)
        if isinstance(v, Lst): return iv(len(v.items))
        d = self.e.sorts.dt_of(v)
        if k == "vec": return d.get(v, 0)
        if k == "map": return d.get(v, 2)
        if k == "set": return d.get(v, 1)
        raise Unsupported("length of %s" % cty.s)

    def elem_at(self, st, cont, cty, i, key=None):
        """Location of the i-th element."""
        k = kind(cty)
        l = self.loc(st, cont, cty)
        i = z3.simplify(i)
        if k == "vec": return self.heap_ref(st, l.add(("vi", i), cty.args[0]))
        if k in ("arr", "array"):
            ety = cty.args[0] if k == "arr" else cty.to
            return l.add(("ai", i.as_long()) if z3.is_int_value(i) else ("ax", i), ety)
        v = self.val(st, l)
        dom, val, size, ord_, pos = self.e.map_parts(v, cty)
        x = key if key is not None else z3.Select(ord_, i)
        if k == "set": return Loc(("term", x), (), cty.args[0])
        return l.add(("me", x), self.pair_ty(cty))

    def heap_ref(self, st, l):
        return l

    def pair_ty(self, cty):
        from .prog import Ty
        key = ("pairof", cty.s)
        t = self.e.globals_cache.get(key)
        if t is None:
            for c in ("std::pair<const %s, %s>" % (cty.args[0].s, cty.args[1].s),):
                t = Ty.table.get(("rec", c))
            if t is None:
                t = Ty()
                t.k, t.s, t.name = "rec", "std::pair<const %s, %s>" % (cty.args[0].s, cty.args[1].s), "std::pair"
                t.args = [cty.args[0], cty.args[1]]
                Ty.table[("rec", t.s)] = t
            self.e.globals_cache[key] = t
        return t

    def in_range(self, st, it):
        if isinstance(it.key, tuple) and it.key[0] == "find": return it.key[2]
        if isinstance(it.key, tuple) and it.key[0] == "end": return FALSE
        return And(it.idx >= 0, it.idx < self.iter_len(st, it))

    def iter_deref(self, st, it):
        if isinstance(it, Ins): raise Unsupported("deref inserter")
        self.e.safety(st, self.in_range(st, it), "iterator dereference outside the sequence")
        key = it.key[1] if isinstance(it.key, tuple) and it.key[0] == "find" else None
        return self.elem_at(st, it.cont, it.cty, it.idx, key)

    def iter_binop(self, st, op, a, b):
        if op in ("==", "!="):
            r = None
            ka = a.key[0] if isinstance(a.key, tuple) else None
            kb = b.key[0] if isinstance(b.key, tuple) else None
            if ka == "find" and kb == "end": r = Not(a.key[2])
            elif kb == "find" and ka == "end": r = Not(b.key[2])
            elif ka == "end" and kb == "end": r = TRUE
            else: r = z3.simplify(a.idx == b.idx)
            return r if op == "==" else Not(r)
        if op == "-": return a.idx - b.idx
        return {"<": a.idx < b.idx, ">": a.idx > b.idx, "<=": a.idx <= b.idx, ">=": a.idx >= b.idx}[op]

    def iter_arith(self, st, op, a, n):
        if op == "+": return Iter(a.kind, a.cont, a.cty, z3.simplify(a.idx + n))
        if op == "-": return Iter(a.kind, a.cont, a.cty, z3.simplify(a.idx - n))
        raise Unsupported("iterator arithmetic")

    def iteration(self, st, r, rty):
        """Number of elements and element access for a range-for; the container is read at loop start (it must not be resized)."""
        k = kind(rty)
        if k in ("vec", "map", "set", "arr", "array"):
            n = z3.simplify(self.container_len(st, r, rty))
            return n, (lambda s, i: self.elem_at(s, r, rty, i))
        if k == "cls":
            raise Unsupported("range-for over class %s" % rty.s)
        raise Unsupported("range-for over %s" % rty.s)

    def read_elem(self, st, el, ty):
        if isinstance(el, Loc) and el.path and el.path[-1][0] == "me": return self.read_pair(st, el)
        return self.val(st, el)

    def read_pair(self, st, l):
        d = self.e.sorts.info(l.ty)
        a, b = self.pair_member(st, l, 0, l.ty), self.pair_member(st, l, 1, l.ty)
        return d.mk(self.e.term(st, a, l.ty.args[0]), self.e.term(st, b, l.ty.args[1]))

    def pair_member(self, st, l, i, bt):
        if l.path and l.path[-1][0] == "me":
            key = l.path[-1][1]
            base = Loc(l.root, l.path[:-1], None)
            if i == 0: return Loc(("term", key), (), l.ty.args[0])
            return Loc(l.root, l.path[:-1] + (("mv", key),), l.ty.args[1])
        if l.root[0] == "term" and isinstance(l.root[1], Lst) and not l.path:
            x = l.root[1].items[i]
            return x.loc if isinstance(x, Alias) else self.loc(st, x, bt.args[i])
        t = bt.args[i]
        ll = l.add(("tu", i), t.deref() if t is not None else None)
        return ll

    # ------------------------------------------------------------------ construction of std types
    def construct(self, node, fn, ty, st):
        e = self.e
        k = kind(ty)
        args = node["args"]
        e.trusted_std.add(fn.q0)
        if k == "opaque" and (fn.q0.startswith("std::") or not (ty.rec and ty.rec.inroots)):
            nm = ty.name or ty.s
            if nm.startswith(("std::equal_to", "std::plus", "std::minus", "std::less", "std::multiplies")):
                return [(st, self.functor(ty))]
            return [(st, Opaque(ty.s))]
        if k == "str":
            if not args: return [(st, e.sorts.strlit(""))]
            def fs(s, a):
                v = self.val(s, a[0])
                if isinstance(v, Loc): v = e.read(s, v)
                if fn.ctor == "move" and isinstance(a[0], Loc): e.moved_from(s, a[0], ty)
                if isinstance(v, z3.ExprRef) and v.sort() == STR: return [(s, v)]
                return [(s, Opaque("str"))]
            return e.bind(e.seq(st, args, ["x"] * len(args)), fs)
        def f(s, a): return self.construct_vals(fn, a, ty, s, node)
        return e.bind(e.seq(st, args, ["x"] * len(args)), f)

    def functor(self, ty):
        nm = ty.name
        op = {"std::equal_to": "==", "std::plus": "+", "std::minus": "-", "std::less": "<", "std::multiplies": "*", "std::not_equal_to": "!="}.get(nm)
        if op is None: raise Unsupported("functor %s" % nm)
        def call(args, st):
            a, b = self.val(st, args[0]), self.val(st, args[1])
            if op == "==" and isinstance(args[0], Loc): return [(st, self.eq(st, a, b, args[0].ty))]
            t = ty.args[0] if ty.args else None
            t = t.deref() if t is not None and t.k != "void" else (args[0].ty if isinstance(args[0], Loc) else None)
            if t is not None and t.rec is not None and t.rec.inroots:
                f = self.user_op("operator" + op, t)
                if f is None: raise Unsupported("no operator%s for %s" % (op, t.s))
                la, lb = [x if isinstance(x, Loc) else Loc(("term", x), (), t) for x in args]
                return self.e.call_fn(f, la, [lb], st) if f.method else self.e.call_fn(f, None, [la, lb], st)
            return [(st, self.e.arith(st, op, a, b, None))]
        return PyFn(call)

    def user_op(self, name, ty):
        """The user-defined binary operator for two values of a class: a member (own or inherited) or a free function."""
        for t in [ty] + self.e.all_bases(ty):
            for f in self.e.prog.fns.values():
                if f.name != name or not f.has_body: continue
                ps = [p[2].deref().s for p in f.params]
                if f.method and f.record is not None and f.record.s == t.s and ps == [t.s]: return f
                if not f.method and ps == [t.s, t.s]: return f
        return None

    def construct_vals(self, fn, args, ty, st, node=None):
        e = self.e
        k = kind(ty)
        if fn.ctor in ("copy", "move") or (len(args) == 1 and isinstance(args[0], Loc) and kind(args[0].ty) == k and args[0].ty.s == ty.s):
            a = args[0]
            if isinstance(a, Loc) and a.path and a.path[-1][0] == "me": v = self.read_pair(st, a)
            else: v = self.val(st, a)
            if fn.ctor == "move" and isinstance(a, Loc): e.moved_from(st, a, ty)
            if isinstance(v, Lst) and k in ("vec", "arr", "set", "map"): return self.from_list(v, ty, st)
            return [(st, v)]
        if k == "vec":
            if not args: return [(st, self.vec_from_items(st, [], ty))]
            v = self.val(st, args[0])
            if isinstance(v, Lst): return self.from_list(v, ty, st)
            if isinstance(v, Iter): return self.vec_from_range(v, self.val(st, args[1]), ty, st)
            if isinstance(v, z3.ExprRef) and v.sort() == I and len(args) >= 1:
                d = e.sorts.info(ty)
                if len(args) >= 2 and not isinstance(self.val(st, args[1]), Opaque): x = e.term(st, args[1], ty.args[0])
                else: x = e.term(st, e.default_value(ty.args[0], st, zero=True), ty.args[0])
                return [(st, d.mk(v, z3.K(I, x)))]
            if isinstance(v, z3.ExprRef) and v.sort() == e.sorts.sort(ty): return [(st, v)]
            if isinstance(v, Opaque): return [(st, self.vec_from_items(st, [], ty))]
            raise Unsupported("vector constructor")
        if k in ("map", "set"):
            if not args: return [(st, self.empty_map(ty))]
            v = self.val(st, args[0])
            if isinstance(v, Lst): return self.from_list(v, ty, st)
            if isinstance(v, Iter): return self.set_from_range(v, self.val(st, args[1]), ty, st)
            if isinstance(v, z3.ExprRef) and v.sort() == e.sorts.sort(ty): return [(st, v)]
            if isinstance(v, (Opaque, z3.ExprRef)): return [(st, self.empty_map(ty))]   # (bucket count / allocator)
            raise Unsupported("map constructor")
        if k == "opt":
            if not args: return [(st, self.opt_none(ty, st))]
            return self.to_opt(st, args[0], fn.params[0][2] if fn.params else None, ty, args)
        if k in ("uptr",):
            if not args: return [(st, iv(0))]
            v = self.val(st, args[0])
            if isinstance(args[0], Loc): e.moved_from(st, args[0], ty) if ty.name == "std::unique_ptr" and kind(args[0].ty) == "uptr" else None
            if isinstance(v, PtrTo): v = e.term(st, v, ty)
            if isinstance(v, z3.ExprRef): self.upcast(st, v, args[0], ty)
            return [(st, v)]
        if k == "func":
            if not args: return [(st, iv(0))]
            v = self.val(st, args[0])
            return [(st, v)]
        if k == "tup":
            if not args: return [(st, self.default(ty, st))]
            if any(t is not None and t.isref() for t in ty.args):
                return [(st, Lst([Alias(a) if isinstance(a, Loc) else a for a in args], None))]
            d = e.sorts.info(ty)
            if len(args) == 1 and len(ty.args) > 1:
                v = self.val(st, args[0])
                if isinstance(args[0], Loc) and args[0].path and args[0].path[-1][0] == "me": return [(st, self.read_pair(st, args[0]))]
                if isinstance(v, z3.ExprRef) and v.sort() == e.sorts.sort(ty): return [(st, v)]
                if isinstance(v, z3.ExprRef):
                    d2 = e.sorts.dt_of(v)
                    if d2 is not None and len(d2.accs) == len(ty.args):
                        return self.conv_list(st, [d2.get(v, i) for i in range(len(ty.args))], list(ty.args), lambda s, vs: [(s, d.mk(*vs))])
                raise Unsupported("tuple conversion")
            if len(args) == 3 and ty.name == "std::pair": raise Unsupported("piecewise pair")
            pts = [p[2] for p in fn.params] if fn.params and len(fn.params) == len(args) else [None] * len(args)
            vals = [self.take(st, a, pt) for a, pt in zip(args, pts)]
            return self.conv_list(st, vals, list(ty.args), lambda s, vs: [(s, d.mk(*vs))])
        if k == "var":
            if not args: return [(st, self.default(ty, st))]
            a = args[0]
            v = self.val(st, a)
            d = e.sorts.info(ty)
            aty = a.ty if isinstance(a, Loc) else None
            for i, t in enumerate(ty.args):
                if (aty is not None and aty.s == t.s) or (aty is None and isinstance(v, z3.ExprRef) and e.sorts.sort(t) == v.sort()):
                    vals = [iv(i)] + [v if j == i else e.fresh("alt", e.sorts.sort(u)) for j, u in enumerate(ty.args)]
                    return [(st, d.mk(*vals))]
            raise Unsupported("variant constructor")
        if k == "arr":
            if not args: return [(st, self.default(ty, st))]
            return [(st, self.val(st, args[0]))]
        if k == "iter":
            v = self.val(st, args[0]) if args else iv(0)
            return [(st, v)]
        if k == "lambda":
            return [(st, self.val(st, args[0]))]
        raise Unsupported("construct %s" % ty.s)

    def upcast(self, st, v, a, ty):
        at = a.ty if isinstance(a, Loc) else None
        if at is not None and kind(at) == "uptr": self.e.note_dyn(v, at.args[0])

    def conv_list(self, st, vals, tys, then):
        """Implicit conversions of values to the given types (optional/string/class wrapping)."""
        e = self.e
        res = [(st, [])]
        for v, t in zip(vals, tys):
            nxt = []
            for s, acc in res:
                if s.out is not None: nxt.append((s, None)); continue
                for s2, w in self.convert(s, v, t): nxt.append((s2, acc + [w] if s2.out is None else None))
            res = nxt
        out = []
        for s, acc in res: out += [(s, None)] if s.out is not None else then(s, acc)
        return out

    def convert(self, st, v, t):
        e = self.e
        k = kind(t)
        if isinstance(v, (Loc, Alias)): v = self.val(st, v)
        want = e.sorts.sort(t)
        if isinstance(v, z3.ExprRef) and v.sort() == want: return [(st, v)]
        if k == "opt": return self.to_opt(st, v, None, t, [v])
        if k == "cls" and not e.sorts.is_heap_class(t):
            try:
                return [(st, e.term(st, v, t))]
            except Unsupported:
                c = self.pick_ctor(t, [v], st)
                return e.construct(c, [v], t, st)
        if k == "vec" and isinstance(v, Lst): return self.from_list(v, t, st)
        if k in ("map", "set") and isinstance(v, Lst): return self.from_list(v, t, st)
        return [(st, e.term(st, v, t))]

    def to_opt(self, st, a, pty, ty, args):
        e = self.e
        d = e.sorts.info(ty)
        v = self.val(st, a)
        if isinstance(v, Opaque) and v.what == "std::nullopt": return [(st, self.opt_none(ty, st))]
        if isinstance(v, Opaque) and "nullopt" in str(v.what): return [(st, self.opt_none(ty, st))]
        if isinstance(v, Opaque) and "in_place" in str(v.what):
            return self.make(st, ty.args[0], args[1:], None, lambda s, x: [(s, self.opt_some(ty, x))])
        if isinstance(a, Loc) and pty is not None: self.take(st, a, pty)
        if isinstance(v, z3.ExprRef):
            if v.sort() == d.sort: return [(st, v)]
            d2 = e.sorts.dt_of(v)
            if d2 is not None and d2.kind == "opt" and e.sorts.sort(ty.args[0]) != v.sort():
                def g(s, x): return [(s, d.mk(d2.get(v, 0), x))]
                return e.bind(self.convert(st, d2.get(v, 1), ty.args[0]), g)
        return e.bind(self.convert(st, v, ty.args[0]), lambda s, x: [(s, self.opt_some(ty, x))])

    def from_list(self, v, ty, st):
        e = self.e
        k = kind(ty)
        if k == "vec":
            return self.conv_list(st, v.items, [ty.args[0]] * len(v.items), lambda s, vs: [(s, self.vec_from_items(s, vs, ty))])
        if k == "arr": return [(st, e.term(st, v, ty))]
        if k == "set":
            def fs(s, vs):
                t = self.empty_map(ty)
                for x in vs: t = self.set_insert(s, t, ty, x)[0]
                return [(s, t)]
            return self.conv_list(st, v.items, [ty.args[0]] * len(v.items), fs)
        if k == "map":
            pt = self.pair_ty(ty)
            def fm(s, vs):
                t = self.empty_map(ty)
                d = e.sorts.info(pt)
                for x in vs: t = self.map_insert(s, t, ty, d.get(x, 0), d.get(x, 1), "insert")[0]
                return [(s, t)]
            its = []
            for x in v.items:
                w = self.val(st, x)
                d2 = e.sorts.dt_of(w)
                its.append((d2.get(w, 0), d2.get(w, 1)))
            def fm2(s, vs):
                t = self.empty_map(ty)
                for j in range(0, len(vs), 2): t = self.map_insert(s, t, ty, vs[j], vs[j + 1], "insert")[0]
                return [(s, t)]
            flat = [y for p in its for y in p]
            return self.conv_list(st, flat, list(ty.args[:2]) * len(its), fm2)
        raise Unsupported("list to %s" % ty.s)

    def vec_from_range(self, a, b, ty, st):
        d = self.e.sorts.info(ty)
        n = z3.simplify(b.idx - a.idx)
        if z3.is_int_value(n):
            items = [self.e.term(st, self.val(st, self.elem_at(st, a.cont, a.cty, a.idx + j)), ty.args[0]) for j in range(n.as_long())]
            return [(st, self.vec_from_items(st, items, ty))]
        st = st.copy()
        arr = self.e.fresh("rng", z3.ArraySort(I, self.e.sorts.sort(ty.args[0])))
        s0 = st
        def body(i):
            el = self.elem_at(s0, a.cont, a.cty, a.idx + i)
            return z3.Select(arr, i) == self.e.term(s0, self.read_elem(s0, el, ty.args[0]), ty.args[0])
        st.fact(self.forall_int(st, iv(0), n, body))
        return [(st, d.mk(n, arr))]

    def set_from_range(self, a, b, ty, st):
        if kind(ty) != "set": raise Unsupported("map from range")
        e = self.e
        st = st.copy()
        v = e.fresh("setrng", e.sorts.sort(ty))
        for f in e.map_wf(v, ty): st.fact(f)
        dom, _, size, ord_, pos = e.map_parts(v, ty)
        n = z3.simplify(b.idx - a.idx)
        def el(i): return e.term(st, self.val(st, self.elem_at(st, a.cont, a.cty, a.idx + i)), ty.args[0])
        w = e.func("srcidx!%d" % self.uid(), e.sorts.sort(ty.args[0]), I)
        st.fact(self.forall_int(st, iv(0), n, lambda i: z3.Select(dom, el(i))))
        if e.bound_k is None:
            x = z3.Const("sx!%d" % self.uid(), e.sorts.sort(ty.args[0]))
            st.fact(z3.ForAll([x], Implies(z3.Select(dom, x), And(w(x) >= 0, w(x) < n, el(w(x)) == x)), patterns=[z3.Select(dom, x)]))
        else:
            for j in range(e.bound_k):
                o = z3.Select(ord_, iv(j))
                st.fact(Implies(size > j, Or(*[And(n > i, el(iv(i)) == o) for i in range(e.bound_k)])))
        st.fact(size <= n)
        return [(st, v)]

    # ------------------------------------------------------------------ make T from arguments
    def pick_ctor(self, ty, args, st):
        e = self.e
        key = ("ctors", ty.s)
        cs = e.globals_cache.get(key)
        if cs is None:
            cs = [f for f in e.prog.fns.values() if f.ctor and f.record is not None and f.record.s == ty.s]
            e.globals_cache[key] = cs
        best = None
        for c in cs:
            if len(c.params) < len(args) or c.ctor in ("copy", "move"): continue
            if len(c.params) > len(args):
                if not all("def" in p for p in c.j["params"][len(args):]): continue
            score = 0
            for (pid, pn, pt), a in zip(c.params, args):
                sc = self.match(a, pt, st)
                if sc is None: score = None; break
                score += sc
            if score is None: continue
            if best is None or score > best[0]: best = (score, c)
        if best is None: raise Unsupported("constructor of %s for %d arguments" % (ty.s, len(args)))
        return best[1]

    def match(self, a, pt, st):
        e = self.e
        t = pt.deref()
        at = a.ty if isinstance(a, Loc) else None
        if at is not None:
            if at.s == t.s: return 3
            if at.rec is not None and t.rec is not None and e.derives(at, t): return 2
        v = self.val(st, a) if not (isinstance(a, Loc) and a.root[0] == "hobj") else a.root[2]
        k = kind(t)
        try:
            want = e.sorts.sort(t)
        except Unsupported:
            return None
        if isinstance(v, z3.ExprRef):
            if v.sort() == want:
                if at is not None and kind(at) != k: return 1 if k in ("int", "enum", "bool") and kind(at) in ("int", "enum", "bool") else (1 if {kind(at), k} <= {"ptr", "uptr", "nullptr"} else None)
                return 2
            if want == R and v.sort() == I: return 1
            if k == "opt":
                d = e.sorts.info(t)
                if e.sorts.sort(t.args[0]) == v.sort(): return 1
            if k == "cls":
                d = e.sorts.dt_of(v)
                if d is not None and d.kind == "cls" and d.ty is not None and e.derives(d.ty, t): return 1
            return None
        if isinstance(v, Opaque): return 1 if (k == "opt" and "nullopt" in v.what) or k == "str" else None
        if isinstance(v, (Closure, FnPtr, PyFn)): return 1 if k in ("func", "lambda") else None
        if isinstance(v, Lst): return 1 if k in ("vec", "arr", "set", "map") else None
        if isinstance(v, PtrTo): return 1 if k == "ptr" else None
        return None

    def make(self, st, ty, args, fn_params, then):
        """Direct-initialises a value of type ty from arguments (emplace semantics)."""
        e = self.e
        k = kind(ty)
        vals = [self.take(st, a, pt) for a, pt in zip(args, fn_params or [None] * len(args))] if k != "cls" else args
        if k == "cls" and not e.sorts.is_heap_class(ty):
            if len(args) == 1:
                a = args[0]
                at = a.ty if isinstance(a, Loc) else None
                v = self.val(st, a)
                if isinstance(v, z3.ExprRef) and v.sort() == e.sorts.sort(ty):
                    if fn_params: self.take(st, a, fn_params[0])
                    return then(st, v)
            if not args: return then(st, e.default_value(ty, st))
            c = self.pick_ctor(ty, args, st)
            args2 = []
            for (pid, pn, pt), a in zip(c.params, args):
                args2.append(a if pt.isref() and isinstance(a, Loc) and a.ty.s == pt.to.s else None)
            def run(s, vs):
                full = [x if x is not None else v for x, v in zip(args2, vs)]
                return e.bind(self.with_defaults(c, full, s, ty), then)
            cv = [self.val(st, a) if x is None else None for a, x in zip(args, args2)]
            return self.conv_list2(st, cv, [p[2].deref() for p in c.params[:len(args)]], run)
        if k == "tup" and len(vals) == len(ty.args):
            d = e.sorts.info(ty)
            return self.conv_list(st, vals, list(ty.args), lambda s, vs: then(s, d.mk(*vs)))
        if not vals: return then(st, e.zero(ty, st) if k in ("bool", "int", "real", "enum", "ptr") else e.default_value(ty, st))
        if k == "vec" and len(vals) >= 1 and not (isinstance(vals[0], z3.ExprRef) and vals[0].sort() == e.sorts.sort(ty)):
            class F: ctor = None; params = []
            return e.bind(self.construct_vals(F, args, ty, st), then)
        return e.bind(self.convert(st, vals[0], ty), then)

    def conv_list2(self, st, vals, tys, then):
        idx = [i for i, v in enumerate(vals) if v is not None]
        def g(s, vs):
            out = list(vals)
            for i, v in zip(idx, vs): out[i] = v
            return then(s, out)
        return self.conv_list(st, [vals[i] for i in idx], [tys[i] for i in idx], g)

    def with_defaults(self, c, args, st, ty):
        e = self.e
        if len(args) < len(c.params):
            e.curfn.append(c)
            try:
                for p in c.j["params"][len(args):]:
                    rs = [r for r in e.rv(p["def"], st) if r[0].out is None]
                    if len(rs) != 1: raise Unsupported("default argument")
                    st = rs[0][0]
                    args = args + [rs[0][1]]
            finally:
                e.curfn.pop()
        return e.construct(c, args, ty, st)

    # ------------------------------------------------------------------ maps and sets
    def map_insert(self, st, m, ty, k, v, mode):
        """mode insert: keeps an existing value; assign: overwrites.  Returns (new map, inserted?)."""
        e = self.e
        d = e.sorts.info(ty)
        dom, val, size, ord_, pos = e.map_parts(m, ty)
        present = z3.Select(dom, k)
        ks = e.sorts.sort(ty.args[0])
        no, np = e.fresh("mord", z3.ArraySort(I, ks)), e.fresh("mpos", z3.ArraySort(ks, I))
        new = d.mk(self.named_dom(st, z3.Store(dom, k, TRUE)), z3.Store(val, k, v), size + 1, no, np)
        for f in e.map_wf(new, ty): st.fact(f) if e.bound_k is None else st.fact(Implies(size + 1 <= e.bound_k, f))
        if e.bound_k is not None: st.fact(Or(present, size + 1 <= e.bound_k))
        if mode == "insert": r = If(present, m, new)
        else: r = If(present, d.mk(dom, z3.Store(val, k, v), size, ord_, pos), new)
        return r, Not(present)

    def named_dom(self, st, dom):
        """A key set whose term cannot serve in patterns gets a name."""
        from .loops import pattern_ok
        if self.e.bound_k is not None or pattern_ok(dom.arg(0)): return dom
        n = self.e.fresh("dom", dom.sort())
        st.fact(n == dom)
        return n

    def set_insert(self, st, m, ty, k):
        e = self.e
        d = e.sorts.info(ty)
        dom, _, size, ord_, pos = e.map_parts(m, ty)
        present = z3.Select(dom, k)
        ks = e.sorts.sort(ty.args[0])
        no, np = e.fresh("sord", z3.ArraySort(I, ks)), e.fresh("spos", z3.ArraySort(ks, I))
        new = d.mk(self.named_dom(st, z3.Store(dom, k, TRUE)), size + 1, no, np)
        for f in e.map_wf(new, ty): st.fact(f)
        if e.bound_k is not None: st.fact(Or(present, size + 1 <= e.bound_k))
        return If(present, m, new), Not(present)

    def map_erase(self, st, m, ty, k):
        e = self.e
        d = e.sorts.info(ty)
        dom, val, size, ord_, pos = e.map_parts(m, ty)
        present = z3.Select(dom, k)
        ks = e.sorts.sort(ty.args[0])
        no, np = e.fresh("eord", z3.ArraySort(I, ks)), e.fresh("epos", z3.ArraySort(ks, I))
        parts = [self.named_dom(st, z3.Store(dom, k, FALSE))] + ([val] if kind(ty) == "map" else []) + [size - 1, no, np]
        new = d.mk(*parts)
        for f in e.map_wf(new, ty): st.fact(Implies(present, f))
        return If(present, new, m), present

    # ------------------------------------------------------------------ table
    def build(self):
        T = self.table
        e = self.e

        def reg(names, f):
            for n in names.split(): T[n] = f

        VEC = ["std::vector", "std::deque", "std::initializer_list", "std::list"]
        MAPS = ["std::map", "std::unordered_map"]
        SETS = ["std::set", "std::unordered_set"]

        def each(conts, names, f):
            for c in conts:
                for n in names.split(): T[c + "::" + n] = f

        def simple(g):
            return lambda fn, a, st, n: [(st, g(fn, a, st))]

        # sizes
        each(VEC + MAPS + SETS + ["std::array"], "size length", simple(lambda fn, a, st: self.container_len(st, a[0], self.obj_ty(fn, a[0]))))
        each(VEC + MAPS + SETS + ["std::queue", "std::stack"], "empty", simple(lambda fn, a, st: self.container_len(st, a[0], self.obj_ty(fn, a[0])) == 0))
        each(["std::queue", "std::stack"], "size", simple(lambda fn, a, st: self.container_len(st, a[0], self.obj_ty(fn, a[0]))))
        each(VEC + MAPS + SETS, "reserve shrink_to_fit rehash", simple(lambda fn, a, st: None))

        # begin/end
        def begin(fn, a, st):
            ty = self.obj_ty(fn, a[0])
            return Iter(kind(ty), self.loc(st, a[0], ty), ty, iv(0))

        def end(fn, a, st):
            ty = self.obj_ty(fn, a[0])
            n = z3.simplify(self.container_len(st, a[0], ty))
            return Iter(kind(ty), self.loc(st, a[0], ty), ty, n, ("end",) if kind(ty) in ("map", "set") else None)
        each(VEC + MAPS + SETS + ["std::array"], "begin cbegin", simple(begin))
        each(VEC + MAPS + SETS + ["std::array"], "end cend", simple(end))
        T["std::begin"] = lambda fn, a, st, n: [(st, Iter(kind(a[0].ty), a[0], a[0].ty, iv(0)))]
        T["std::end"] = lambda fn, a, st, n: [(st, Iter(kind(a[0].ty), a[0], a[0].ty, z3.simplify(self.container_len(st, a[0], a[0].ty))))]
        T["std::cbegin"], T["std::cend"] = T["std::begin"], T["std::end"]
        T["std::basic_string::begin"] = T["std::basic_string::end"] = simple(lambda fn, a, st: Opaque("striter"))

        # element access
        def at_checked(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            i = self.val(st, a[1])
            out, s = self.throw(st, Or(i < 0, i >= self.container_len(st, a[0], ty)), "std::out_of_range")
            if s is not None: out.append((s, self.elem_at(s, a[0], ty, i)))
            return out

        def at_unchecked(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            i = self.val(st, a[1])
            e.safety(st, And(i >= 0, i < self.container_len(st, a[0], ty)), "index outside the container", node)
            return [(st, self.elem_at(st, a[0], ty, i))]
        each(VEC + ["std::array"], "at", at_checked)
        each(VEC + ["std::array"], "operator[]", at_unchecked)

        def front(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            e.safety(st, self.container_len(st, a[0], ty) > 0, "front() of an empty container", node)
            return [(st, self.elem_at(st, a[0], ty, iv(0)))]

        def back(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            n = self.container_len(st, a[0], ty)
            e.safety(st, n > 0, "back() of an empty container", node)
            return [(st, self.elem_at(st, a[0], ty, n - 1))]
        each(VEC + ["std::array", "std::queue"], "front", front)
        each(VEC + ["std::array", "std::queue"], "back", back)
        T["std::stack::top"] = back

        # modifiers
        def push_back(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0])
            pts = [p[2] for p in fn.params]
            def then(s, v):
                d = e.sorts.info(ty)
                cur = e.term(s, e.read(s, l), ty)
                n, arr = d.get(cur, 0), d.get(cur, 1)
                if e.bound_k is not None: s.fact(n + 1 <= max(e.bound_k, 2) + 1)
                e.write(s, l, d.mk(z3.simplify(n + 1), z3.Store(arr, n, v)))
                return [(s, self.elem_at(s, l, ty, n))]
            return self.make(st, ty.args[0], a[1:], pts, then)
        each(VEC + ["std::queue"], "push_back emplace_back push emplace", push_back)
        T["std::vector::emplace"] = None
        del T["std::vector::emplace"]
        T["std::stack::push"] = push_back

        def pop_back(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0])
            d = e.sorts.info(ty)
            cur = e.read(st, l)
            n = d.get(cur, 0)
            e.safety(st, n > 0, "pop from an empty container", node)
            e.write(st, l, d.mk(z3.simplify(n - 1), d.get(cur, 1)))
            return [(st, None)]
        each(VEC + [], "pop_back", pop_back)
        T["std::stack::pop"] = pop_back

        def pop_front(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0])
            d = e.sorts.info(ty)
            cur = e.read(st, l)
            n, arr = d.get(cur, 0), d.get(cur, 1)
            e.safety(st, n > 0, "pop from an empty container", node)
            st = st.copy()
            x = z3.Const("sh!%d" % self.uid(), I)
            e.write(st, l, d.mk(z3.simplify(n - 1), z3.Lambda([x], z3.Select(arr, x + 1))))
            return [(st, None)]
        T["std::queue::pop"] = pop_front
        T["std::deque::pop_front"] = pop_front

        def clear(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            e.write(st, self.loc(st, a[0]), self.default(ty, st))
            return [(st, None)]
        each(VEC + MAPS + SETS, "clear", clear)

        def resize(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0])
            d = e.sorts.info(ty)
            cur = e.read(st, l)
            n, arr = d.get(cur, 0), d.get(cur, 1)
            m = self.val(st, a[1])
            x = z3.Const("rs!%d" % self.uid(), I)
            v = e.term(st, a[2], ty.args[0]) if len(a) > 2 else e.term(st, e.default_value(ty.args[0], st, zero=True), ty.args[0])
            e.write(st, l, d.mk(m, z3.Lambda([x], If(x < n, z3.Select(arr, x), v))))
            return [(st, None)]
        T["std::vector::resize"] = resize

        def vinsert(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0])
            d = e.sorts.info(ty)
            cur = e.read(st, l)
            n, arr = d.get(cur, 0), d.get(cur, 1)
            p = self.val(st, a[1])
            st = st.copy()
            x = z3.Const("in!%d" % self.uid(), I)
            if len(a) == 4:   # range
                f, g = self.val(st, a[2]), self.val(st, a[3])
                m = g.idx - f.idx
                src = lambda j: e.term(st, self.read_elem(st, self.elem_at(st, f.cont, f.cty, f.idx + j), ty.args[0]), ty.args[0])
            else:
                m = iv(1)
                v = e.term(st, a[2], ty.args[0])
                src = lambda j: v
            na = e.fresh("ins", z3.ArraySort(I, e.sorts.sort(ty.args[0])))
            nn = z3.simplify(n + m)
            def body(i): return z3.Select(na, i) == If(i < p.idx, z3.Select(arr, i), If(i < p.idx + m, src(i - p.idx), z3.Select(arr, i - m)))
            st.fact(self.forall_int(st, iv(0), nn, body))
            e.write(st, l, d.mk(nn, na))
            return [(st, Iter("vec", l, ty, p.idx))]
        T["std::vector::insert"] = vinsert

        def verase(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0])
            d = e.sorts.info(ty)
            cur = e.read(st, l)
            n, arr = d.get(cur, 0), d.get(cur, 1)
            p = self.val(st, a[1])
            m = iv(1) if len(a) == 2 else self.val(st, a[2]).idx - p.idx
            e.safety(st, And(p.idx >= 0, p.idx + m <= n), "erase outside the container", node)
            na = e.fresh("ers", z3.ArraySort(I, e.sorts.sort(ty.args[0])))
            nn = z3.simplify(n - m)
            st.fact(self.forall_int(st, iv(0), nn, lambda i: z3.Select(na, i) == If(i < p.idx, z3.Select(arr, i), z3.Select(arr, i + m))))
            e.write(st, l, d.mk(nn, na))
            return [(st, Iter("vec", l, ty, p.idx))]
        T["std::vector::erase"] = verase

        def assign(fn, a, st, node):
            l = self.loc(st, a[0])
            ty = l.ty
            v = self.take(st, a[1], fn.params[0][2] if fn.params else None)
            k = kind(ty)
            if isinstance(v, Lst) and k in ("vec", "map", "set"):
                return e.bind(self.from_list(v, ty, st), lambda s, w: (e.write(s, l, w), [(s, l)])[1])
            if isinstance(a[0], Loc) and l.root[0] == "term" and isinstance(l.root[1], Lst):   # std::tie
                d = e.sorts.dt_of(v)
                for i, x in enumerate(l.root[1].items): e.write(st, x.loc, d.get(v, i))
                return [(st, l)]
            if k == "opt":
                return e.bind(self.to_opt(st, v, None, ty, [v]), lambda s, w: (e.write(s, l, w), [(s, l)])[1])
            if k == "uptr":
                if isinstance(v, PtrTo): v = e.term(st, v, ty)
                if isinstance(v, z3.ExprRef): self.upcast(st, v, a[1], ty)
            if k == "var" and isinstance(v, z3.ExprRef) and v.sort() != e.sorts.sort(ty):
                class F: ctor = None; params = []
                return e.bind(self.construct_vals(F, [a[1]], ty, st), lambda s, w: (e.write(s, l, w), [(s, l)])[1])
            if k == "str" and isinstance(v, Opaque): v = e.fresh("str", STR)
            if k == "tup" and isinstance(v, z3.ExprRef) and v.sort() != e.sorts.sort(ty):
                class F2: ctor = None; params = []
                return e.bind(self.construct_vals(F2, [a[1]], ty, st), lambda s, w: (e.write(s, l, w), [(s, l)])[1])
            e.write(st, l, v)
            return [(st, l)]
        each(VEC + MAPS + SETS + ["std::array", "std::optional", "std::basic_string", "std::unique_ptr", "std::shared_ptr", "std::function", "std::pair", "std::tuple",
                                  "std::variant", "__gnu_cxx::__normal_iterator", "std::queue"], "operator=", assign)

        # maps
        def mfind(fn, a, st):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0], ty)
            v = e.read(st, l)
            dom, val, size, ord_, pos = e.map_parts(v, ty)
            k = e.term(st, a[1], ty.args[0])
            c = z3.Select(dom, k)
            return Iter(kind(ty), l, ty, If(c, z3.Select(pos, k), size), ("find", k, c))
        each(MAPS + SETS, "find", simple(mfind))

        def mcount(fn, a, st):
            ty = self.obj_ty(fn, a[0])
            dom = e.map_parts(self.val(st, a[0]), ty)[0]
            return If(z3.Select(dom, e.term(st, a[1], ty.args[0])), iv(1), iv(0))
        each(MAPS + SETS, "count", simple(mcount))
        each(MAPS + SETS, "contains", simple(lambda fn, a, st: mcount(fn, a, st) == 1))

        def mat(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0], ty)
            dom = e.map_parts(e.read(st, l), ty)[0]
            k = e.term(st, a[1], ty.args[0])
            out, s = self.throw(st, Not(z3.Select(dom, k)), "std::out_of_range")
            if s is not None: out.append((s, l.add(("mv", k), ty.args[1])))
            return out
        each(MAPS, "at", mat)

        def mindex(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0], ty)
            k = e.term(st, a[1], ty.args[0])
            m = e.read(st, l)
            dv = e.term(st, e.zero(ty.args[1], st), ty.args[1])
            new, ins = self.map_insert(st, m, ty, k, dv, "insert")
            e.write(st, l, new)
            return [(st, l.add(("mv", k), ty.args[1]))]
        each(MAPS, "operator[]", mindex)

        def pair_iter_bool(st, it, ins, fn):
            return Lst([it, ins], None)

        def memplace(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0], ty)
            pts = [p[2] for p in fn.params]
            def ins(s, k, v):
                m = e.read(s, l)
                new, inserted = self.map_insert(s, m, ty, k, v, "assign" if fn.name == "insert_or_assign" else "insert")
                dom = e.map_parts(m, ty)[0]
                inserted = Not(z3.Select(dom, k))
                e.write(s, l, new)
                np = e.map_parts(new, ty)[4]
                it = Iter(kind(ty), l, ty, z3.Select(np, k), ("find", k, TRUE))
                return [(s, Lst([it, inserted], None))]
            if len(a) == 2:     # a pair
                p = a[1]
                if isinstance(p, Loc) and p.path and p.path[-1][0] == "me": w = self.read_pair(st, p)
                else: w = self.take(st, p, pts[0] if pts else None)
                d = e.sorts.dt_of(w)
                if d is None: raise Unsupported("map insert")
                return self.conv_list(st, [d.get(w, 0), d.get(w, 1)], list(ty.args[:2]), lambda s, vs: ins(s, vs[0], vs[1]))
            if any(isinstance(self.val(st, x), Opaque) and "piecewise" in self.val(st, x).what for x in a[1:2]): raise Unsupported("piecewise")
            kx = self.val(st, a[1])
            return self.make(st, ty.args[0], [a[1]], pts[:1], lambda s, k: self.make(s, ty.args[1], a[2:], pts[1:], lambda s2, v: ins(s2, k, v)))
        each(MAPS, "emplace insert insert_or_assign try_emplace", memplace)

        def minsert_range(fn, a, st, node): raise Unsupported("range insert")

        def sinsert(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0], ty)
            pts = [p[2] for p in fn.params]
            if len(a) == 3: return self.set_insert_range(st, l, ty, self.val(st, a[1]), self.val(st, a[2]))
            if isinstance(self.val(st, a[1]), Lst): raise Unsupported("set insert of a list")
            def then(s, k):
                m = e.read(s, l)
                dom = e.map_parts(m, ty)[0]
                new, ins = self.set_insert(s, m, ty, k)
                e.write(s, l, new)
                return [(s, Lst([Iter(kind(ty), l, ty, z3.Select(e.map_parts(new, ty)[4], k), ("find", k, TRUE)), Not(z3.Select(dom, k))], None))]
            return self.make(st, ty.args[0], a[1:], pts, then)
        each(SETS, "insert emplace", sinsert)

        def merase(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            l = self.loc(st, a[0], ty)
            m = e.read(st, l)
            x = self.val(st, a[1])
            if isinstance(x, Iter):
                if len(a) == 3: raise Unsupported("range erase")
                e.safety(st, self.in_range(st, x), "erase of an invalid iterator", node)
                k = x.key[1] if isinstance(x.key, tuple) and x.key[0] == "find" else z3.Select(e.map_parts(m, ty)[3], x.idx)
                new, p = self.map_erase(st, m, ty, k)
                e.write(st, l, new)
                return [(st, Opaque("iterator"))]
            k = e.term(st, x, ty.args[0])
            new, p = self.map_erase(st, m, ty, k)
            e.write(st, l, new)
            return [(st, If(p, iv(1), iv(0)))]
        each(MAPS + SETS, "erase", merase)

        # comparison operators of std types
        def opeq(fn, a, st, node):
            neg = fn.name == "operator!="
            if len(a) != 2: raise Unsupported("operator== arity")
            x, y = self.val(st, a[0]), self.val(st, a[1])
            if isinstance(x, Iter) or isinstance(y, Iter):
                if isinstance(x, Opaque) or isinstance(y, Opaque): raise Unsupported("iterator comparison")
                return [(st, self.iter_binop(st, fn.name[8:], x, y))]
            if isinstance(x, Lst) and isinstance(y, Lst) and len(x.items) == len(y.items):
                r = And(*[self.eq(st, p, q, (p.loc if isinstance(p, Alias) else p).ty) for p, q in zip(x.items, y.items)])
                return [(st, Not(r) if neg else r)]
            tx = a[0].ty if isinstance(a[0], Loc) else fn.params[0][2].deref()
            ty_ = a[1].ty if isinstance(a[1], Loc) else fn.params[-1][2].deref()
            kx, ky = kind(tx), kind(ty_)
            if kx == "opt" or ky == "opt":
                if isinstance(x, Opaque) or isinstance(y, Opaque):
                    o = y if isinstance(x, Opaque) else x
                    r = Not(e.sorts.dt_of(o).get(o, 0))
                elif kx == "opt" and ky == "opt" and x.sort() == y.sort(): r = self.eq(st, x, y, tx)
                else:
                    o, v, t, vt = (x, y, tx, ty_) if kx == "opt" else (y, x, ty_, tx)
                    d = e.sorts.dt_of(o)
                    v = e.term(st, v, t.args[0])
                    r = And(d.get(o, 0), self.eq(st, d.get(o, 1), v, t.args[0]))
            elif kx in ("uptr", "ptr", "nullptr", "func") or ky in ("uptr", "ptr", "nullptr", "func"):
                if isinstance(x, (Closure, FnPtr, PyFn)) or isinstance(y, (Closure, FnPtr, PyFn)): r = FALSE
                else: r = e.arith(st, "==", x, y, None)
            elif isinstance(x, Opaque) or isinstance(y, Opaque): r = e.fresh("opq", B)
            else: r = self.eq(st, x, y, tx)
            return [(st, Not(r) if neg else r)]
        for n in ("std::operator==", "std::operator!=", "__gnu_cxx::operator==", "__gnu_cxx::operator!=", "std::__detail::operator==", "std::__detail::operator!=",
                  "std::_Rb_tree_const_iterator::operator==", "std::_Rb_tree_const_iterator::operator!=", "std::_Rb_tree_iterator::operator==", "std::_Rb_tree_iterator::operator!=",
                  "__gnu_cxx::__normal_iterator::operator=="):
            T[n] = opeq

        def oplt(fn, a, st, node):
            x, y = self.val(st, a[0]), self.val(st, a[1])
            op = fn.name[8:]
            if isinstance(x, Iter): return [(st, self.iter_binop(st, op, x, y))]
            if isinstance(x, z3.ExprRef) and x.sort() == STR:
                f = e.func("strlt", STR, STR, B)
                r = {"<": f(x, y), ">": f(y, x), "<=": Not(f(y, x)), ">=": Not(f(x, y))}[op]
                return [(st, r)]
            if isinstance(x, Lst) and isinstance(y, Lst):
                xs = [self.val(st, p) for p in x.items]; ys = [self.val(st, p) for p in y.items]
            elif isinstance(x, z3.ExprRef) and e.sorts.dt_of(x) is not None and e.sorts.dt_of(x).kind == "tup":
                d = e.sorts.dt_of(x)
                xs = [d.get(x, i) for i in range(len(d.accs))]; ys = [d.get(y, i) for i in range(len(d.accs))]
            elif isinstance(x, z3.ExprRef) and e.sorts.dt_of(x) is not None and e.sorts.dt_of(x).kind == "opt":
                # optional < optional, or optional < value
                d = e.sorts.dt_of(x)
                raise Unsupported("optional ordering")
            else: return [(st, e.arith(st, op, x, y, None))]
            if op in (">", "<="): xs, ys = ys, xs
            r = FALSE
            for p, q in reversed(list(zip(xs, ys))): r = Or(p < q, And(p == q, r))
            return [(st, Not(r) if op in ("<=", ">=") else r)]
        for n in "< > <= >=".split():
            T["std::operator" + n] = oplt
            T["__gnu_cxx::operator" + n] = oplt

        # iterators
        ITS = ["__gnu_cxx::__normal_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator",
               "std::_Deque_iterator", "std::back_insert_iterator", "std::insert_iterator"]

        def itderef(fn, a, st, node):
            v = self.val(st, a[0])
            if isinstance(v, Ins): return [(st, a[0])]
            if not isinstance(v, Iter): raise Unsupported("iterator value")
            l = self.iter_deref(st, v)
            if fn.name == "operator->":
                if kind(l.ty) in ("ptr",): return [(st, PtrTo(l))]
                return [(st, PtrTo(l))]
            return [(st, l)]
        each(ITS, "operator* operator->", itderef)

        def itinc(fn, a, st, node):
            d = 1 if fn.name == "operator++" else -1
            v = self.val(st, a[0])
            if isinstance(v, Ins): return [(st, a[0])]
            if not isinstance(v, Iter): raise Unsupported("iterator value")
            nv = Iter(v.kind, v.cont, v.cty, z3.simplify(v.idx + d))
            if isinstance(a[0], Loc): e.write(st, a[0], nv)
            return [(st, v if len(fn.params) else a[0] if isinstance(a[0], Loc) else nv)]
        each(ITS, "operator++ operator--", itinc)

        def itadd(fn, a, st, node):
            v, n = self.val(st, a[0]), self.val(st, a[1])
            if isinstance(n, Iter): return [(st, self.iter_binop(st, "-", v, n))]
            return [(st, self.iter_arith(st, fn.name[8:9], v, n))]
        each(ITS, "operator+ operator-", itadd)
        T["__gnu_cxx::operator-"] = itadd

        def itaddeq(fn, a, st, node):
            v, n = self.val(st, a[0]), self.val(st, a[1])
            e.write(st, a[0], self.iter_arith(st, fn.name[8:9], v, n))
            return [(st, a[0])]
        each(ITS, "operator+= operator-=", itaddeq)
        T["std::distance"] = simple(lambda fn, a, st: self.val(st, a[1]).idx - self.val(st, a[0]).idx)

        def advance(fn, a, st):
            v = self.val(st, a[0])
            n = self.val(st, a[1]) if len(a) > 1 else iv(1)
            return Iter(v.kind, v.cont, v.cty, z3.simplify(v.idx + n if fn.name == "next" else v.idx - n))
        T["std::next"] = T["std::prev"] = simple(advance)

        # pointers
        P = ["std::unique_ptr", "std::shared_ptr"]
        each(P, "get", simple(lambda fn, a, st: self.val(st, a[0])))
        each(P, "operator->", simple(lambda fn, a, st: self.val(st, a[0])))
        def pstar(fn, a, st, node):
            ty = self.obj_ty(fn, a[0])
            return [(st, e.deref(st, self.val(st, a[0]), ty, node))]
        each(P, "operator*", pstar)
        def pbool(fn, a, st):
            v = self.val(st, a[0])
            return e.ptr_truth(st, v)
        for p in P: T[p + "::operator bool"] = simple(pbool)
        def prelease(fn, a, st):
            v = self.val(st, a[0]); e.write(st, self.loc(st, a[0]), iv(0)); return v
        each(P, "release", simple(prelease))
        def preset(fn, a, st):
            e.write(st, self.loc(st, a[0]), e.term(st, a[1], a[0].ty) if len(a) > 1 else iv(0))
        each(P, "reset", simple(preset))
        def make_ptr(fn, a, st, node):
            ty = fn.ret.args[0]
            if e.sorts.is_heap_class(ty) or kind(ty) == "cls":
                if kind(ty) == "cls" and not e.sorts.is_heap_class(ty):
                    def then(s, v):
                        ref = e.alloc(s, ty)
                        e.write(s, Loc(("heap", ty.s, ref, ty), (), ty), v)
                        return [(s, ref)]
                    return self.make(st.copy(), ty, a, [p[2] for p in fn.params], then)
                if not a:
                    f = e.default_ctor(ty)
                    s = st.copy()
                    if f is None:
                        ref = e.alloc(s, ty)
                        return [(x, ref) for x, _ in e.default_into(Loc(("hobj", ty, ref), (), ty), ty, s)]
                    return e.alloc_construct(s, ty, ctor=f, args=[])
                c = self.pick_ctor(ty, a, st)
                # Conversions of arguments (e.g. const char* to string, Derived to Base pointers).
                s = st.copy()
                a2 = []
                for (pid, pn, pt), x in zip(c.params, a):
                    if isinstance(x, Loc) and (x.root[0] == "hobj" or pt.isref()): a2.append(x)
                    else:
                        v = self.take(s, x, fn.params[len(a2)][2])
                        try: v = e.term(s, v, pt.deref()) if not isinstance(v, (Closure, FnPtr, PyFn, PtrTo)) else v
                        except Unsupported:
                            rs = self.convert(s, v, pt.deref())
                            if len(rs) != 1: raise
                            s, v = rs[0]
                        a2.append(v)
                if len(a2) < len(c.params):
                    e.curfn.append(c)
                    try:
                        for p in c.j["params"][len(a2):]:
                            rs = [r for r in e.rv(p["def"], s) if r[0].out is None]
                            if len(rs) != 1: raise Unsupported("default argument")
                            s = rs[0][0]; a2.append(rs[0][1])
                    finally:
                        e.curfn.pop()
                # rvalue-reference constructor parameters take the source over.
                rs = e.alloc_construct(s, ty, ctor=c, args=a2)
                return rs
            def then2(s, v):
                ref = e.alloc(s, ty)
                e.write(s, Loc(("heap", ty.s, ref, ty), (), ty), v)
                return [(s, ref)]
            return self.make(st.copy(), ty, a, [p[2] for p in fn.params], then2)
        T["std::make_unique"] = T["std::make_shared"] = make_ptr

        # move / forward / misc
        for n in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref"):
            def mv(fn, a, st, node, n=n):
                if n == "std::move" and len(a) == 3: return self.copy_range(st, a)
                return [(st, a[0])]
            T[n] = mv
        T["std::addressof"] = simple(lambda fn, a, st: a[0].root[2] if a[0].root[0] == "hobj" else PtrTo(a[0]))
        def swap(fn, a, st):
            x, y = self.val(st, a[0]), self.val(st, a[1])
            e.write(st, a[0], y); e.write(st, a[1], x)
        T["std::swap"] = simple(swap)

        # optional
        def opt_has(fn, a, st):
            v = self.val(st, a[0]); return e.sorts.dt_of(v).get(v, 0)
        T["std::optional::has_value"] = T["std::optional::operator bool"] = simple(opt_has)
        def opt_value(fn, a, st, node):
            l = self.loc(st, a[0], fn.record)
            v = self.val(st, l)
            out, s = self.throw(st, Not(e.sorts.dt_of(v).get(v, 0)), "std::bad_optional_access")
            if s is not None: out.append((s, self.opt_inner(s, l)))
            return out
        T["std::optional::value"] = opt_value
        def opt_star(fn, a, st, node):
            l = self.loc(st, a[0], fn.record)
            v = self.val(st, l)
            e.safety(st, e.sorts.dt_of(v).get(v, 0), "dereference of an empty optional", node)
            r = self.opt_inner(st, l)
            return [(st, PtrTo(r) if fn.name == "operator->" else r)]
        T["std::optional::operator*"] = T["std::optional::operator->"] = opt_star
        def opt_reset(fn, a, st):
            l = self.loc(st, a[0]); e.write(st, l, self.opt_none(l.ty, st))
        T["std::optional::reset"] = simple(opt_reset)
        def opt_value_or(fn, a, st):
            v = self.val(st, a[0]); d = e.sorts.dt_of(v)
            return If(d.get(v, 0), d.get(v, 1), e.term(st, a[1], self.obj_ty(fn, a[0]).args[0]))
        T["std::optional::value_or"] = simple(opt_value_or)
        def make_opt(fn, a, st, node):
            return self.make(st, fn.ret.args[0], a, [p[2] for p in fn.params], lambda s, v: [(s, self.opt_some(fn.ret, v))])
        T["std::make_optional"] = make_opt
        def opt_emplace(fn, a, st, node):
            l = self.loc(st, a[0])
            return self.make(st, l.ty.args[0], a[1:], [p[2] for p in fn.params], lambda s, v: (e.write(s, l, self.opt_some(l.ty, v)), [(s, self.opt_inner(s, l))])[1])
        T["std::optional::emplace"] = opt_emplace

        # tuples
        def make_pair(fn, a, st, node):
            ty = fn.ret
            d = e.sorts.info(ty)
            pts = [p[2] for p in fn.params]
            vals = [self.take(st, x, p) for x, p in zip(a, pts)]
            return self.conv_list(st, vals, list(ty.args), lambda s, vs: [(s, d.mk(*vs))])
        T["std::make_pair"] = T["std::make_tuple"] = make_pair
        T["std::tie"] = simple(lambda fn, a, st: Lst([Alias(x) if isinstance(x, Loc) else x for x in a], None))
        def get(fn, a, st, node):
            i = self.targ(fn)
            x = a[0]
            ty = x.ty if isinstance(x, Loc) else fn.params[0][2].deref()
            l = self.loc(st, x, ty)
            k = kind(ty)
            if k == "var":
                j = self.alt_index(ty, i)
                v = self.val(st, l)
                d = e.sorts.dt_of(v)
                out, s = self.throw(st, d.get(v, 0) != j, "std::bad_variant_access")
                if s is not None: out.append((s, l.add(("va", j), ty.args[j])))
                return out
            if k in ("arr", "array"): return [(st, self.elem_at(st, l, ty, iv(i)))]
            return [(st, self.pair_member(st, l, i, ty))]
        T["std::get"] = get
        def get_if(fn, a, st, node):
            i = self.targ(fn)
            p = self.val(st, a[0])
            if not isinstance(p, PtrTo): raise Unsupported("get_if pointer")
            l = p.loc
            j = self.alt_index(l.ty, i)
            v = self.val(st, l)
            c = e.sorts.dt_of(v).get(v, 0) == j
            n = len(st.pc)
            s1, s2 = st.copy().dec(c), st.copy().dec(Not(c))
            return [(s1, PtrTo(l.add(("va", j), l.ty.args[j]))), (s2, iv(0))]
        T["std::get_if"] = get_if
        def holds(fn, a, st):
            l = a[0]
            v = self.val(st, l)
            return e.sorts.dt_of(v).get(v, 0) == self.alt_index(l.ty, self.targ(fn))
        T["std::holds_alternative"] = simple(holds)
        T["std::variant::index"] = simple(lambda fn, a, st: e.sorts.dt_of(self.val(st, a[0])).get(self.val(st, a[0]), 0))

        # function
        def func_call(fn, a, st, node):
            f = self.val(st, a[0])
            fty = a[0].ty if isinstance(a[0], Loc) else fn.record
            return self.call_function(f, fty, a[1:], st, node, fn)
        T["std::function::operator()"] = func_call
        def func_bool(fn, a, st):
            f = self.val(st, a[0])
            return TRUE if isinstance(f, (Closure, FnPtr, PyFn)) else f != 0
        T["std::function::operator bool"] = simple(func_bool)
        for nm in ("equal_to", "plus", "minus", "less", "multiplies"):
            def fc(fn, a, st, node): return e.apply(self.val(st, a[0]), a[1:], st, node)
            T["std::%s::operator()" % nm] = fc
        T["std::not_fn"] = simple(lambda fn, a, st: self.notfn(self.val(st, a[0])))

        # math
        def unary(name, f):
            for n in (name, "std::" + name): T[n] = simple(lambda fn, a, st: f(st, self.real(st, a[0])))
        def absf(fn, a, st):
            v = self.val(st, a[0]); return If(v >= 0, v, -v)
        for n in ("abs", "std::abs", "fabs", "std::fabs", "std::fabsf", "fabsf"): T[n] = simple(absf)
        unary("sqrt", self.sqrt)
        unary("sin", lambda st, x: self.trig(st, "sin", x))
        unary("cos", lambda st, x: self.trig(st, "cos", x))
        unary("tan", lambda st, x: e.func("tan", R, R)(x))
        unary("acos", lambda st, x: self.unk(st, "acos", x))
        unary("asin", lambda st, x: self.unk(st, "asin", x))
        unary("log10", lambda st, x: self.unk(st, "log10", x))
        unary("exp", lambda st, x: self.unk(st, "exp", x))
        unary("ceil", lambda st, x: z3.ToReal(-z3.ToInt(-x)))
        unary("floor", lambda st, x: z3.ToReal(z3.ToInt(x)))
        for n in ("atan2", "std::atan2"): T[n] = simple(lambda fn, a, st: e.func("atan2", R, R, R)(self.real(st, a[0]), self.real(st, a[1])))
        for n in ("pow", "std::pow"):
            def powf(fn, a, st):
                x, y = self.real(st, a[0]), z3.simplify(self.real(st, a[1]))
                if z3.is_rational_value(y) and y.denominator_as_long() == 1 and 0 <= y.numerator_as_long() <= 4:
                    r = z3.RealVal(1)
                    for _ in range(y.numerator_as_long()): r = r * x
                    return r
                return e.func("pow", R, R, R)(x, y)
            T[n] = simple(powf)
        for n in ("hypot", "std::hypot"): T[n] = simple(lambda fn, a, st: self.sqrt(st, sum((self.real(st, x) * self.real(st, x) for x in a), z3.RealVal(0))))
        for n in ("copysign", "std::copysign"):
            T[n] = simple(lambda fn, a, st: (lambda x, y: If(y >= 0, If(x >= 0, x, -x), If(x >= 0, -x, x)))(self.real(st, a[0]), self.real(st, a[1])))
        for n in ("isnan", "std::isnan", "isinf", "std::isinf"): T[n] = simple(lambda fn, a, st: FALSE)
        for n in ("isfinite", "std::isfinite"): T[n] = simple(lambda fn, a, st: TRUE)
        def minmax(fn, a, st):
            if len(a) == 1:
                v = self.val(st, a[0])
                items = [self.val(st, x) for x in v.items]
                r = items[0]
                for x in items[1:]: r = If(x < r, x, r) if fn.name == "min" else If(r < x, x, r)
                return r
            if len(a) == 3: raise Unsupported("min with comparator")
            x, y = self.val(st, a[0]), self.val(st, a[1])
            if fn.name == "min": return If(y < x, y, x)
            return If(x < y, y, x)
        T["std::min"] = T["std::max"] = simple(minmax)
        def clamp(fn, a, st):
            v, lo, hi = [self.val(st, x) for x in a[:3]]
            return If(v < lo, lo, If(hi < v, hi, v))
        T["std::clamp"] = simple(clamp)
        def inf(fn, a, st):
            c = z3.Const("INF", R)
            return c
        T["std::numeric_limits::infinity"] = simple(inf)
        T["std::numeric_limits::epsilon"] = simple(lambda fn, a, st: z3.RealVal("1/4503599627370496"))
        def nmax(fn, a, st):
            t = fn.ret
            if kind(t) == "real":
                return {"max": z3.Const("DBLMAX", R), "lowest": -z3.Const("DBLMAX", R), "min": z3.RealVal("1/" + str(2 ** 1022))}[fn.name]
            hi = 2 ** (t.bits - (1 if t.signed else 0)) - 1
            return iv(hi if fn.name == "max" else (-hi - 1 if t.signed else 0))
        for n in ("max", "min", "lowest"): T["std::numeric_limits::" + n] = simple(nmax)
        T["std::numeric_limits::quiet_NaN"] = simple(lambda fn, a, st: z3.Const("NAN_", R))

        # strings
        def node_level(f):
            f.nodelevel = True
            return f
        def strcat(en, fn, st):
            eng = e
            try:
                n_ob = len(e.obls)
                rs = e.seq(st.copy(), en["args"] if en["k"] != "mcall" else [en["obj"]] + en["args"], ["x"] * (len(en["args"]) + (en["k"] == "mcall")))
            except Unsupported:
                del e.obls[n_ob:]
                return [(st, Opaque("str"))]
            def g(s, a):
                x, y = self.val(s, a[0]), self.val(s, a[1])
                if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort() == STR and y.sort() == STR:
                    return [(s, e.func("strcat", STR, STR, STR)(x, y))]
                if isinstance(x, Iter): return itadd(fn, a, s, en)
                return [(s, Opaque("str"))]
            return e.bind(rs, g)
        T["std::operator+"] = node_level(strcat)
        def tostr(fn, a, st):
            v = self.val(st, a[0])
            if isinstance(v, z3.ExprRef): return e.func("tostr", v.sort(), STR)(v)
            return Opaque("str")
        T["std::to_string"] = simple(tostr)
        T["std::basic_string::empty"] = simple(lambda fn, a, st: (lambda v: v == e.sorts.strlit("") if isinstance(v, z3.ExprRef) else e.fresh("empty", B))(self.val(st, a[0])))
        T["std::basic_string::c_str"] = T["std::basic_string::data"] = simple(lambda fn, a, st: self.val(st, a[0]))
        def strsize(fn, a, st):
            v = self.val(st, a[0])
            r = e.func("strlen", STR, I)(v) if isinstance(v, z3.ExprRef) else e.fresh("strlen", I)
            st.fact(r >= 0)
            return r
        T["std::basic_string::size"] = T["std::basic_string::length"] = simple(strsize)
        for n in ("find", "find_first_of", "find_last_of", "rfind", "substr", "operator+=", "append", "compare", "operator[]"):
            T["std::basic_string::" + n] = simple(lambda fn, a, st: Opaque("str") if kind(fn.ret.deref()) in ("str",) else e.fresh_ty("str", fn.ret.deref(), st))
        def ostream(en, fn, st): return [(st, Opaque("ostream"))]
        for n in ("std::operator<<", "std::basic_ostream::operator<<", "std::endl", "std::setprecision", "std::fixed", "std::ios_base::precision"):
            T[n] = node_level(lambda en, fn, st: [(st, Opaque("ostream"))])
        for n in ("std::basic_stringstream::str", "std::basic_ostringstream::str"): T[n] = node_level(lambda en, fn, st: [(st, Opaque("str"))])
        def hashop(fn, a, st):
            v = self.val(st, a[1])
            if not isinstance(v, z3.ExprRef): return e.fresh("hash", I)
            return e.func("hash", v.sort(), I)(v)
        T["std::hash::operator()"] = simple(hashop)

        # algorithms
        from . import algo
        algo.register(self, T, reg, simple)

    # ------------------------------------------------------------------ small helpers for the table
    def opt_inner(self, st, l):
        ty = l.ty
        return l.add(("ov",), ty.args[0])

    def targ(self, fn):
        t = fn.targs
        if not t: raise Unsupported("template argument of %s" % fn.q)
        a = t[0]
        if isinstance(a, dict):
            if "i" in a: return a["i"]
            return fn.tu.ty(a["t"])
        return a

    def alt_index(self, ty, i):
        if isinstance(i, int): return i
        for j, t in enumerate(ty.args):
            if t.s == i.s: return j
        raise Unsupported("variant alternative")

    def real(self, st, a):
        v = self.val(st, a)
        return z3.ToReal(v) if v.sort() == I else v

    def sqrt(self, st, x):
        x = z3.simplify(x)
        f = self.e.func("sqrt", R, R)
        r = f(x)
        st.fact(Implies(x >= 0, And(r >= 0, r * r == x)))
        return r

    def trig(self, st, name, x):
        s, c = self.e.func("sin", R, R)(x), self.e.func("cos", R, R)(x)
        st.fact(s * s + c * c == 1)
        st.fact(And(s >= -1, s <= 1, c >= -1, c <= 1))
        return s if name == "sin" else c

    def unk(self, st, name, x):
        return self.e.func(name, R, R)(x)

    def notfn(self, f):
        def call(args, st):
            return self.e.bind(self.e.apply(f, args, st), lambda s, v: [(s, Not(self.val(s, v)))])
        return PyFn(call)

    def call_function(self, f, fty, args, st, node, fn):
        e = self.e
        try:
            g = e.fn_from(f)
        except Unsupported:
            g = "unknown"
        if g is None:
            st = st.copy(); st.out = ("throw", "std::bad_function_call"); return [(st, None)]
        if g != "unknown":
            def conv(s, v):
                v = self.val(s, v) if not fn.ret.isref() else v
                return [(s, v)]
            return e.bind(e.apply(g, args, st, node), conv)
        # Unknown callable (an arbitrary pure function): uninterpreted function of its identity and arguments.
        ts = [f] + [e.term(st, a, p[2].deref()) for a, p in zip(args, fn.params)]
        rt = fn.ret.deref()
        if rt.k == "void":
            if e.unreachable(st): return []
            raise Unsupported("call of an unknown procedure")
        F = e.func("F:" + fn.record.s, *[t.sort() for t in ts], e.sorts.sort(rt))
        r = F(*ts)
        e.used_virtual.add("std::function argument (assumed pure)")
        for w in e.wf(r, rt, st): st.fact(w)
        return [(st, r)]

    def copy_range(self, st, a): raise Unsupported("range move")

    def set_insert_range(self, st, l, ty, a, b):
        e = self.e
        m = e.read(st, l)
        st = st.copy()
        rs = self.set_from_range(a, b, ty, st)
        st, add = rs[0]
        v = e.fresh("setunion", e.sorts.sort(ty))
        for f in e.map_wf(v, ty): st.fact(f)
        d0, d1, d2 = e.map_parts(m, ty)[0], e.map_parts(add, ty)[0], e.map_parts(v, ty)[0]
        x = z3.Const("sx!%d" % self.uid(), e.sorts.sort(ty.args[0]))
        st.fact(d2 == z3.Lambda([x], z3.Or(z3.Select(d0, x), z3.Select(d1, x))))
        e.write(st, l, v)
        return [(st, None)]

    # ------------------------------------------------------------------ intrinsics
    def spec_bool(self, st, f, args, what):
        """Evaluates a specification closure to a Bool term in state st (facts are added to st)."""
        e = self.e
        n = len(st.pc)
        s = st.copy()
        rs = e.apply(f, args, s)
        for x, v in rs:
            if x.out is not None and not x.infeasible():
                e.oblige(x, "specification expression is defined (%s)" % what, FALSE, "spec")
        v, facts = e.pure_result(rs, n)
        for c in facts: st.fact(c)
        return v

    def vc(self, fn, args, st, node):
        e = self.e
        n = fn.name
        V = lambda i: self.val(st, args[i])
        if n == "assume":
            st = st.copy(); st.fact(V(0)); return [(st, None)]
        if n == "axiom":
            t = str(V(1)).strip("|")
            e.assumed.add(t[5:-1] if t.startswith('str:"') else t)
            st = st.copy(); st.fact(V(0)); return [(st, None)]
        if n == "opaque":
            # a name for a value: obligations over the name alone are first tried without its definition (see solve.py)
            v = V(0)
            c = z3.Const("opq!%d" % len(e.opaque), v.sort())
            st = st.copy(); st.fact(c == v); e.opaque.append((c, c == v))
            return [(st, c)]
        if n == "check":
            name = "check"
            if len(args) > 1:
                t = V(1)
                name = str(t)
                if name.startswith('|'): name = name.strip("|")
                if name.startswith('str:"'): name = name[5:-1]
            st = st.copy()
            e.oblige(st, name, V(0), "property", node)
            st.fact(V(0))
            return [(st, None)]
        if n == "cover":
            t = str(V(0)); 
            e.covers.append((t, list(st.pc)))
            return [(st, None)]
        if n in ("forall", "exists"):
            f = e.fn_from(V(2))
            lo, hi = V(0), V(1)
            def body(i):
                k = len(st.pc)
                s = st.copy()
                s.fact(And(i >= lo, i < hi))
                k2 = len(s.pc)
                r = self.spec_bool(s, f, [i], n)
                for (d, c) in s.pc[k2:]: st.pc.append((False, c if e.bound_k is None or True else c))
                return r
            return [(st, self.forall_int(st, lo, hi, body, n == "exists"))]
        if n in ("forall_v", "exists_v"):
            f = e.fn_from(V(0))
            ty = self.targ(fn)
            guard_facts = []
            def body(x):
                s = st.copy()
                w = e.wf(x, ty, s)
                guard_facts.extend(w)
                for c in w: s.fact(c)
                k2 = len(s.pc)
                r = self.spec_bool(s, f, [Loc(("term", x), (), ty)], n)
                for (d, c) in s.pc[k2:]: st.pc.append((False, c))
                return (And(And(*w), r) if n == "exists_v" else Implies(And(*w), r)) if w else r
            return [(st, self.forall_sort(st, e.sorts.sort(ty), body, n == "exists_v"))]
        if n == "any":
            ty = fn.ret.deref()
            st = st.copy()
            return [(st, e.arbitrary("any", ty, st))]
        if n == "any_ref":
            ty = fn.ret.deref()
            st = st.copy()
            r = e.arbitrary("ref", ty, st)
            return [(st, r)]
        if n == "throws":
            f = e.fn_from(V(0))
            k = len(st.pc)
            rs = e.apply(f, [], st.copy(), node)
            outs = []
            for s, v in rs:
                if s.infeasible(): continue
                if s.out is not None and s.out[0] == "throw":
                    s.out = None; outs.append((s, TRUE))
                elif s.out is None: outs.append((s, FALSE))
                else: raise Unsupported("throws()")
            return e.merge(k, [s for s, _ in outs], [v for _, v in outs])
        if n == "same":
            return [(st, e.term(st, args[0], args[0].ty) == e.term(st, args[1], args[0].ty))]
        if n == "eq": return [(st, V(0) == V(1))]
        if n == "le": return [(st, V(0) <= V(1))]
        if n == "implies": return [(st, Implies(V(0), V(1)))]
        if n == "sum":
            f = e.fn_from(V(2))
            lo, hi = V(0), V(1)
            def term(i):
                s = st.copy()
                s.fact(And(i >= lo, i < hi))
                k2 = len(s.pc)
                r = self.spec_val(s, f, [i])
                for (d, c) in s.pc[k2:]: st.pc.append((False, Implies(And(i >= lo, i < hi), c)))
                return r
            return [(st, self.sum_term(st, lo, hi, term))]
        if n == "typed": return [(st, And(*e.wf(e.term(st, args[0], args[0].ty), args[0].ty, st)))]
        raise Unsupported("vc::%s" % n)

    def spec_val(self, st, f, args):
        n = len(st.pc)
        s = st.copy()
        rs = self.e.apply(f, args, s)
        v, facts = self.e.pure_result(rs, n)
        for c in facts: st.fact(c)
        return v

    def sum_term(self, st, lo, hi, body):
        """Sum of body(i) for lo <= i < hi as Sum_f(hi) - Sum_f(lo), Sum_f(0) = 0."""
        e = self.e
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() < 40:
            r = z3.RealVal(0)
            for j in range(lo.as_long(), hi.as_long()): r = r + body(iv(j))
            return r
        if e.bound_k is not None:
            r = z3.RealVal(0)
            for j in range(e.bound_k + 1): r = r + If(lo + j < hi, body(z3.simplify(lo + j)), z3.RealVal(0))
            return r
        x = z3.Const("sumi", I)
        n = len(st.pc)
        e.bstack.append(x)
        try: b = body(x)
        finally: e.bstack.pop()
        new = st.pc[n:]; del st.pc[n:]
        for (_, c) in new: st.fact(z3.ForAll([x], Implies(And(x >= lo, x < hi), c)))
        s = self.sum_fn(b, x)
        return s(hi) - s(lo)

    def sum_fn(self, b, x): return self.sum_fn_sorted(b, x, R)

    def sum_fn_sorted(self, b, x, sort):
        """Registers body b(x); returns a Python function n -> term for sum_{0<=j<n} b(j)."""
        e = self.e
        b = z3.simplify(b)
        bs = z3.substitute(b, (x, z3.Const("sumi", I)))
        key = bs.sexpr()
        ent = e.sumfun.get(key)
        # free bound symbols (outer indices) become arguments
        from .loops import contains
        outer = [y for y in e.bstack if not y.eq(x) and contains(bs, {y.get_id()})]
        if ent is None:
            f = z3.Function("Sum!%d" % len(e.sumfun), *[y.sort() for y in outer], I, sort)
            ent = (f, z3.substitute(b, (x, z3.Const("sumi", I))), tuple(outer))
            e.sumfun[key] = ent
        f = ent[0]
        return lambda n: f(*outer, n)

    def count_term(self, st, n, body):
        """How many i, 0 <= i < n, satisfy body(i): a function of the predicate's parameters and n.
        Predicates that differ only in terms free of i share the function."""
        e = self.e
        x = z3.Const("cnti", I)
        m = len(st.pc)
        e.bstack.append(x)
        try: b = z3.simplify(body(x))
        finally: e.bstack.pop()
        new = st.pc[m:]; del st.pc[m:]
        for (_, c) in new: st.fact(z3.ForAll([x], Implies(And(x >= 0, x < n), c)))
        from .loops import contains
        args, pars, seen = [], [], {}
        def lift(t):
            if z3.is_var(t) or z3.is_quantifier(t): return None
            if t.eq(x): return t
            if not contains(t, {x.get_id()}):
                if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t): return t
                if t.get_id() not in seen:
                    p = z3.Const("cp!%d!%s" % (len(args), t.sort()), t.sort())
                    seen[t.get_id()] = p; args.append(t); pars.append(p)
                return seen[t.get_id()]
            cs = [lift(c) for c in t.children()]
            if any(c is None for c in cs): return None
            return t.decl()(*cs)
        sk = lift(b)
        if sk is None: raise Unsupported("count with a quantified predicate")
        key = sk.sexpr()
        f = e.countfun.get(key)
        if f is None:
            f = z3.Function("Count!%d" % len(e.countfun), *[p.sort() for p in pars], I, I)
            e.countfun[key] = f
            k = z3.Const("ck", I)
            at = lambda j: z3.substitute(sk, (x, j))
            t = f(*pars, k)
            w = z3.Function(f.name() + "!w", *[p.sort() for p in pars], I, I)(*pars, k)
            ax = [Implies(k <= 0, t == 0), Implies(k >= 0, And(t >= 0, t <= k)),
                  Implies(t > 0, And(w >= 0, w < k, at(w)))]
            e.axioms.append(z3.ForAll(pars + [k], And(*ax), patterns=[t]))
        return f(*args, n)
