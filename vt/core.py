"""Symbolic executor over the extracted AST: computes, function by function, the obligations of a proof harness."""
import z3
from fractions import Fraction
from .prog import strip_targs
from .sorts import Sorts, Unsupported, kind, I, R, B, STR, DT

z3.set_param("rewriter.hoist_ite", False) if False else None
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


# ------------------------------------------------------------------ values
class Loc:
    """An lvalue: a root plus a path; ty is the static type of the designated object, dyn its dynamic type where that differs."""
    __slots__ = ("root", "path", "ty", "dyn")

    def __init__(self, root, path, ty, dyn=None):
        self.root, self.path, self.ty, self.dyn = root, path, ty, dyn

    def add(self, step, ty):
        return Loc(self.root, self.path + (step,), ty)

    def __repr__(self):
        return "Loc(%s,%s,%s)" % (self.root, self.path, self.ty.s)


class PtrTo:
    __slots__ = ("loc",)

    def __init__(self, loc): self.loc = loc


class Alias:
    __slots__ = ("loc",)

    def __init__(self, loc): self.loc = loc


class Closure:
    __slots__ = ("ops", "caps", "this", "uid")

    def __init__(self, ops, caps, this):
        self.ops, self.caps, self.this = ops, caps, this


class FnPtr:
    __slots__ = ("fn",)

    def __init__(self, fn): self.fn = fn


class PyFn:
    """A callable implemented by the executor (for std::function fields etc.)."""
    __slots__ = ("f",)

    def __init__(self, f): self.f = f


class Iter:
    """Iterator into a container: kind vec|map|set|arr|list; cont is a Loc or a term."""
    __slots__ = ("kind", "cont", "cty", "idx", "key")

    def __init__(self, kind_, cont, cty, idx, key=None):
        self.kind, self.cont, self.cty, self.idx, self.key = kind_, cont, cty, idx, key


class Ins:
    """back_inserter / inserter."""
    __slots__ = ("loc",)

    def __init__(self, loc): self.loc = loc


class Lst:
    """Initializer list / C array rvalue of known length."""
    __slots__ = ("items", "ety")

    def __init__(self, items, ety): self.items, self.ety = items, ety


class Opaque:
    __slots__ = ("what",)

    def __init__(self, what): self.what = what


def same(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if type(a) is not type(b): return False
    if isinstance(a, Loc): return a.ty is b.ty and same_root(a.root, b.root) and len(a.path) == len(b.path) and all(same_step(x, y) for x, y in zip(a.path, b.path))
    if isinstance(a, (PtrTo, Alias, Ins)): return same(a.loc, b.loc)
    if isinstance(a, Iter): return a.kind == b.kind and same(a.cont, b.cont) and same(a.idx, b.idx)
    if isinstance(a, Closure):
        return a.ops == b.ops and a.caps.keys() == b.caps.keys() and all(same(a.caps[k], b.caps[k]) for k in a.caps) and same(a.this, b.this)
    if isinstance(a, FnPtr): return a.fn is b.fn
    if isinstance(a, Lst): return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Opaque): return True
    return a == b


def same_root(a, b):
    return len(a) == len(b) and all(same(x, y) if not isinstance(x, (str, int)) else x == y for x, y in zip(a, b))


same_step = same_root


class St:
    __slots__ = ("env", "heap", "pc", "out", "frame", "this", "next", "fids")

    def copy(self):
        s = St()
        s.env, s.heap, s.pc = dict(self.env), dict(self.heap), list(self.pc)
        s.out, s.frame, s.this, s.next = self.out, self.frame, self.this, self.next
        return s

    def dec(self, c):
        """Adds a branch decision."""
        if z3.is_true(c): return self
        self.pc.append((True, c))
        return self

    def fact(self, f):
        if z3.is_true(f): return self
        self.pc.append((False, f))
        return self

    def infeasible(self):
        return any(z3.is_false(c) for (_, c) in self.pc)


def pc_formula(pc):
    return [c for (_, c) in pc]


def is_lit(t):
    return z3.is_true(t) or z3.is_false(t)


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a): return FALSE
    if not a: return TRUE
    if len(a) == 1: return a[0]
    return z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a): return TRUE
    if not a: return FALSE
    if len(a) == 1: return a[0]
    # complementary literals
    ids = {x.get_id() for x in a}
    for x in a:
        if z3.is_not(x) and x.arg(0).get_id() in ids: return TRUE
    return z3.Or(*a)


def Not(a):
    if z3.is_true(a): return FALSE
    if z3.is_false(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b): return c
        if z3.is_false(a) and z3.is_true(b): return Not(c)
        if z3.is_true(a): return Or(c, b)
        if z3.is_false(a): return And(Not(c), b)
        if z3.is_true(b): return Or(Not(c), a)
        if z3.is_false(b): return And(c, a)
    return z3.If(c, a, b)


def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return TRUE
    return z3.Implies(a, b)


_consts = {}


def consts_in(e):
    """Set of (name) of uninterpreted constants/functions in e."""
    k = e.get_id()
    if k not in _consts: _consts[k] = (e, frozenset(consts_of(e)))
    return _consts[k][1]


def consts_of(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            todo.extend(x.children())
    return out


class Obligation:
    def __init__(self, name, kind_, pc, goal, where, ctx):
        self.name, self.kind, self.pc, self.goal, self.where, self.ctx = name, kind_, pc, goal, where, ctx
        self.status, self.time, self.backend, self.model = None, 0.0, None, None


class PureFn:
    """The contract of a function named in a contract file's `pure:` line: it returns, without effects, a function of the values
    of its arguments.  Its body is under contract elsewhere."""
    def apply(self, e, fn, this, args, st, node):
        e.used_contracts.add("%s: a pure function of its arguments" % fn.q0)
        ts = []
        if this is not None:
            if e.sorts.is_heap_class(fn.record):
                # the object's own data does not change between the calls: proofs that use this only change what holds the object
                if this.root[0] != "hobj" or this.path: raise Unsupported("pure contract of a method of a local object")
                ts.append(this.root[2])
            else: ts.append(e.read(st, Loc(this.root, this.path, fn.record)))
        for (pid, pn, pt), a in zip(fn.params, args): ts.append(e.term(st, a, pt.deref()))
        f = e.func("P:" + fn.q0 + "#%d:" % len(ts) + ",".join(p[2].deref().s for p in fn.params), *[t.sort() for t in ts], e.sorts.sort(fn.ret))
        v = f(*ts)
        for w in e.wf(v, fn.ret, st): st.fact(w)
        return [(st, v)]


class ValidatorFn:
    """The contract of a function named in a contract file's `validates:` line: without other effects, it throws an assertion error
    or returns, depending on the values of its arguments only.  Which ones is under contract elsewhere."""
    def apply(self, e, fn, this, args, st, node):
        e.used_contracts.add("%s: throws depending on its arguments only" % fn.q0)
        ts = [e.term(st, a, pt.deref()) for (pid, pn, pt), a in zip(fn.params, args)]
        t = e.func("T:" + fn.q0 + "#%d" % len(ts), *[t.sort() for t in ts], z3.BoolSort())(*ts)
        a, b = st.copy().dec(t), st.copy().dec(Not(t))
        a.out = ("throw", "maliput::common::assertion_error")
        return [(a, None), (b, None)]


class Engine:
    MAX_INLINE = 40

    def __init__(self, prog, bound=None, opts=None):
        self.prog = prog
        self.sorts = Sorts()
        self.bound_k = bound
        self.opts = opts or {}
        self.nfresh = 0
        self.bstack = []          # symbolic bound variables in scope (loop indices, quantified variables)
        self.obls = []
        self.frames = 0
        self.contracts = {}       # fn key -> contract
        self.invariants = {}      # type s -> fn (class invariant)
        self.loopinvs = {}        # function q -> [fn]
        self.ctx = ""
        self.curfn = []
        self.inlined = set()
        self.opaque = []
        self.heap_wf = set()
        self.nn = {}              # constants known not to be negative
        self.assumed = set()      # names of trusted models used
        self.used_contracts = set()
        self.used_virtual = set()
        self.assumed = set()
        self.trusted_std = set()
        self.assumed = set()
        self.loops_bounded = 0
        self.unsupported_hits = []
        self.depth = 0
        self.suppress = 0         # >0: no obligations are emitted (re-execution of already checked code)
        self.symfun = {}
        self.globals_cache = {}
        self.sumfun = {}
        self.countfun = {}
        self.notes = []
        self.dyncls = {}
        self.dynrefs = {}
        self.same_ref = {}
        self.sqrt_args = []
        self.wf_busy = set()
        self.covers = []
        self.axioms = []          # global facts
        self.axiom_seen = set()
        from . import stl
        self.stl = stl.Stl(self)

    # ------------------------------------------------------------------ fresh symbols
    def fresh(self, name, sort):
        self.nfresh += 1
        n = "%s!%d" % (name, self.nfresh)
        if self.bstack:
            f = z3.Function(n, *[b.sort() for b in self.bstack], sort)
            return f(*self.bstack)
        return z3.Const(n, sort)

    def fresh_const(self, name, sort):
        self.nfresh += 1
        return z3.Const("%s!%d" % (name, self.nfresh), sort)

    def arbitrary(self, name, ty, st):
        """An arbitrary object of a C++ type: a value, or a location for heap classes."""
        ty = ty.deref()
        if self.sorts.is_heap_class(ty):
            r = self.fresh(name, I)
            st.fact(And(r > 0, r < z3.Int("next0"), self.func("subkind", I, I)(r) == 0))
            self.note_dyn(r, ty)
            return Loc(("hobj", ty, r), (), ty)
        return self.fresh_ty(name, ty, st)

    def func(self, name, *sorts):
        if name in ("sqrt", "sin", "cos", "tan", "acos", "asin", "exp", "atan2", "pow", "log10"): name = "fn." + name  # cvc5 reserves some of these
        key = (name,) + tuple(s.sexpr() for s in sorts)
        f = self.symfun.get(key)
        if f is None:
            nm = name
            if any(k[0] == name for k in self.symfun): nm = "%s'%d" % (name, len(self.symfun))
            f = z3.Function(nm, *sorts)
            self.symfun[key] = f
        return f

    def fresh_ty(self, name, ty, st, wf=True):
        """Arbitrary value of a C++ type, with its type facts assumed."""
        v = self.fresh(name, self.sorts.sort(ty))
        if wf:
            for f in self.wf(v, ty, st): st.fact(f)
        return v

    # ------------------------------------------------------------------ type facts
    def wf(self, v, ty, st=None, depth=0):
        """Facts every value of the type satisfies (ranges, container shape, registered class invariants)."""
        out = []
        k = kind(ty)
        if k == "int":
            if ty.bits:
                if not ty.signed: out.append(v >= 0)
                if ty.bits <= 32:
                    hi = 2 ** (ty.bits - (1 if ty.signed else 0))
                    out.append(v < hi)
                    if ty.signed: out.append(v >= -hi)
        elif k == "enum":
            if ty.enumerators:
                vals = sorted(x[1] for x in ty.enumerators)
                out.append(And(v >= vals[0], v <= vals[-1]))
        elif k in ("ptr", "uptr"):
            out.append(v >= 0)
            out.append(v < z3.Int("next0"))
        elif k == "vec":
            d = self.sorts.info(ty)
            n, arr = d.get(v, 0), d.get(v, 1)
            out.append(n >= 0)
            if self.bound_k is not None: out.append(n <= self.bound_k)
            out += self.wf_all(lambda i: self.wf(z3.Select(arr, i), ty.args[0], st, depth + 1), I, lambda i: And(i >= 0, i < n),
                               lambda i: z3.Select(arr, i), n)
        elif k in ("map", "set"):
            out += self.map_wf(v, ty)
            if k == "map":
                d = self.sorts.info(ty)
                val, dom = d.get(v, 1), d.get(v, 0)
                out += self.wf_all(lambda x: self.wf(z3.Select(val, x), ty.args[1], st, depth + 1), self.sorts.sort(ty.args[0]),
                                   lambda x: z3.Select(dom, x), lambda x: z3.Select(val, x), None)
            d = self.sorts.info(ty)
            dom = d.get(v, 0)
            out += self.wf_all(lambda x: self.wf(x, ty.args[0], st, depth + 1), self.sorts.sort(ty.args[0]),
                               lambda x: z3.Select(dom, x), lambda x: z3.Select(dom, x), None)
        elif k == "opt":
            d = self.sorts.info(ty)
            fs = self.wf(d.get(v, 1), ty.args[0], st, depth + 1)
            out += [Implies(d.get(v, 0), f) for f in fs]
        elif k == "tup" or k == "arr" or k == "array":
            d = self.sorts.info(ty)
            for i, t in enumerate(d.tys): out += self.wf(d.get(v, i), t, st, depth + 1)
        elif k == "var":
            d = self.sorts.info(ty)
            tag = d.get(v, 0)
            out.append(And(tag >= 0, tag < len(ty.args)))
            for i, t in enumerate(ty.args):
                out += [Implies(tag == i, f) for f in self.wf(d.get(v, i + 1), t, st, depth + 1)]
        elif k == "cls":
            if self.sorts.is_heap_class(ty): return out
            d = self.sorts.info(ty)
            for i, t in enumerate(d.tys): out += self.wf(d.get(v, i), t, st, depth + 1)
            invs = []
            inv = self.invariants.get(ty.s)
            if inv is not None: invs.append(inv)
            for b in self.all_bases(ty):
                if b.s in self.invariants: invs.append(self.invariants[b.s])
            for inv in invs:
                if ty.s in self.wf_busy: continue
                self.wf_busy.add(ty.s)
                try:
                    term, facts = self.pure_call(inv, [v], [ty])
                finally:
                    self.wf_busy.discard(ty.s)
                out += facts
                out.append(term)
        return [f for f in out if not z3.is_true(f)]

    def wf_all(self, mk, sort, guard, pat, n):
        x = z3.FreshConst(sort, "w")
        self.bstack.append(x)
        try:
            fs = mk(x)
        finally:
            self.bstack.pop()
        if not fs: return []
        if self.bound_k is not None and n is not None and sort == I:
            out = []
            for j in range(self.bound_k):
                out += [z3.substitute(Implies(guard(x), f), (x, z3.IntVal(j))) for f in fs]
            return out
        body = Implies(guard(x), And(*fs))
        p = pat(x)
        try:
            return [z3.ForAll([x], body, patterns=[p])] if z3.is_app(p) and not z3.is_const(p) else [z3.ForAll([x], body)]
        except z3.Z3Exception:
            return [z3.ForAll([x], body)]

    def map_parts(self, v, ty):
        d = self.sorts.info(ty)
        if kind(ty) == "map":
            dom, val, size, ord_, pos = [d.get(v, i) for i in range(5)]
        else:
            dom, size, ord_, pos = [d.get(v, i) for i in range(4)]
            val = None
        return dom, val, size, ord_, pos

    def map_wf(self, v, ty):
        dom, val, size, ord_, pos = self.map_parts(v, ty)
        ks = self.sorts.sort(ty.args[0])
        out = [size >= 0]
        if self.bound_k is not None:
            K = self.bound_k
            out.append(size <= K)
            for i in range(K):
                o = z3.Select(ord_, z3.IntVal(i))
                out.append(Implies(size > i, And(z3.Select(dom, o), z3.Select(pos, o) == i)))
        else:
            i = z3.FreshConst(I, "wi")
            o = z3.Select(ord_, i)
            out.append(z3.ForAll([i], Implies(And(i >= 0, i < size), And(z3.Select(dom, o), z3.Select(pos, o) == i)), patterns=[o]))
        x = z3.FreshConst(ks, "wk")
        px = z3.Select(pos, x)
        from .loops import forall_p
        out.append(forall_p([x], Implies(z3.Select(dom, x), And(px >= 0, px < size, z3.Select(ord_, px) == x)), patterns=[z3.Select(dom, x)]))
        return out

    def all_bases(self, ty):
        out = []
        if ty.rec is None: return out
        for b in ty.rec.bases:
            out.append(b)
            out += self.all_bases(b)
        return out

    # ------------------------------------------------------------------ locations
    def tmp_loc(self, st, val, ty):
        self.nfresh += 1
        key = (st.frame, "t%d" % self.nfresh)
        st.env[key] = val
        return Loc(("var", key), (), ty)

    def heap_get(self, st, key, sort, ty=None):
        h = st.heap.get(key)
        if h is None:
            name = "H:" + "/".join(key)
            h = z3.Const(name, z3.ArraySort(I, sort))
            st.heap[key] = h
            if ty is not None and key not in self.heap_wf:
                # What every stored value of the type satisfies, in the arbitrary state the proof starts from.
                self.heap_wf.add(key)
                saved, self.bstack = self.bstack, []
                try:
                    x = z3.Const("hr", I)
                    self.bstack.append(x)
                    try: fs = self.wf(z3.Select(h, x), ty, None)
                    finally: self.bstack.pop()
                    if fs: self.axioms.append(z3.ForAll([x], And(*fs), patterns=[z3.Select(h, x)]))
                finally:
                    self.bstack = saved
        return h

    def base_term(self, st, loc):
        r = loc.root
        if r[0] == "var":
            v = st.env.get(r[1])
            if v is None: raise Unsupported("read of dead variable %s" % (r[1],))
            if isinstance(v, Alias):
                raise Unsupported("alias root")
            return v
        if r[0] == "heap":       # ("heap", typekey, ref, ty)
            h = self.heap_get(st, ("*", r[1]), self.sorts.sort(r[3]), r[3])
            return z3.Select(h, r[2])
        if r[0] == "hfield":     # ("hfield", owner, field, ref, ty)
            h = self.heap_get(st, (r[1], r[2]), self.sorts.sort(r[4]), r[4])
            return z3.Select(h, r[3])
        if r[0] == "term":
            return r[1]
        if r[0] == "glob":
            return r[1]
        raise Unsupported("root %s" % (r[0],))

    def step_get(self, term, step):
        s = step[0]
        if isinstance(term, Lst):
            if s == "vi":
                i = step[1]
                i = z3.simplify(i)
                if z3.is_int_value(i): return term.items[i.as_long()]
            raise Unsupported("list index")
        if not isinstance(term, z3.ExprRef): raise Unsupported("path into %s" % type(term).__name__)
        d = self.sorts.dt_of(term)
        if s == "f": return d.get(term, self.fidx(d, step))
        if s == "vi": return z3.Select(d.get(term, 1), step[1])
        if s == "ai": return d.get(term, step[1])
        if s == "ax":
            n = len(d.accs)
            r = d.get(term, n - 1)
            for j in range(n - 2, -1, -1): r = If(step[1] == j, d.get(term, j), r)
            return r
        if s == "ov": return d.get(term, 1)
        if s == "mv": return z3.Select(d.get(term, 1), step[1])
        if s == "mk": return step[1]
        if s == "me": raise Unsupported("map element as a value")
        if s == "tu": return d.get(term, step[1])
        if s == "va": return d.get(term, step[1] + 1)
        raise Unsupported("step %s" % s)

    def fidx(self, d, step):
        i = d.index.get((step[1], step[2]))
        if i is None:
            raise Unsupported("no field %s::%s in %s" % (step[1], step[2], d.sort.name()))
        return i

    def step_set(self, term, step, v):
        s = step[0]
        d = self.sorts.dt_of(term)
        if s == "f": return d.set(term, self.fidx(d, step), v)
        if s == "vi": return d.set(term, 1, z3.Store(d.get(term, 1), step[1], v))
        if s == "ai": return d.set(term, step[1], v)
        if s == "ax": return d.ctor(*[If(step[1] == j, v, d.get(term, j)) for j in range(len(d.accs))])
        if s == "ov": return d.set(term, 1, v)
        if s == "mv": return d.set(term, 1, z3.Store(d.get(term, 1), step[1], v))
        if s == "tu": return d.set(term, step[1], v)
        if s == "va": return d.set(term, step[1] + 1, v)
        raise Unsupported("write step %s" % s)

    def read(self, st, loc):
        if isinstance(loc, Alias): loc = loc.loc
        if loc.root[0] == "hobj":
            # Reference to a heap object used as a value: its reference.
            return loc.root[2]
        t = self.base_term(st, loc)
        for step in loc.path: t = self.step_get(t, step)
        if isinstance(t, z3.ExprRef) and kind(loc.ty) == "cls" and not self.sorts.is_heap_class(loc.ty):
            want = self.sorts.sort(loc.ty)
            if t.sort() != want: t = self.slice(t, loc.ty)
        return t

    def slice(self, t, ty):
        d, b = self.sorts.dt_of(t), self.sorts.info(ty)
        if d is None: raise Unsupported("slice %s" % ty.s)
        return b.mk(*[d.get(t, d.index[k]) for k in b.keys])

    def write(self, st, loc, v):
        if isinstance(loc, Alias): loc = loc.loc
        r = loc.root
        if r[0] == "term": raise Unsupported("write to rvalue")
        if r[0] == "hobj":
            raise Unsupported("whole-object write to heap class %s" % loc.ty.s)
        if not loc.path:
            cur_sort = None
            if r[0] == "var":
                old = st.env.get(r[1])
                if isinstance(v, z3.ExprRef) and isinstance(old, z3.ExprRef) and old.sort() != v.sort():
                    d, b = self.sorts.dt_of(old), self.sorts.dt_of(v)
                    if d is not None and b is not None and d.kind == "cls" and b.kind == "cls":
                        for k, i in b.index.items(): old = d.set(old, d.index[k], b.get(v, i))
                        v = old
                st.env[r[1]] = v
                return
            v = self.term(st, v, r[3] if r[0] == "heap" else r[4])
        else:
            # Rebuild the path.
            terms = [self.base_term(st, loc)]
            for step in loc.path[:-1]: terms.append(self.step_get(terms[-1], step))
            if not all(isinstance(t, z3.ExprRef) for t in terms): raise Unsupported("write into non-term")
            v = self.term(st, v, loc.ty)
            # Base sub-object write into a derived object.
            cur = self.step_get(terms[-1], loc.path[-1])
            if isinstance(cur, z3.ExprRef) and cur.sort() != v.sort():
                d, b = self.sorts.dt_of(cur), self.sorts.dt_of(v)
                if d is None or b is None: raise Unsupported("write sort mismatch %s <- %s" % (cur.sort(), v.sort()))
                for k, i in b.index.items(): cur = d.set(cur, d.index[k], b.get(v, i))
                v = cur
            for t, step in zip(reversed(terms), reversed(loc.path)): v = self.step_set(t, step, v)
            if r[0] == "var":
                st.env[r[1]] = v
                return
        if r[0] == "heap":
            key = ("*", r[1])
            st.heap[key] = z3.Store(self.heap_get(st, key, self.sorts.sort(r[3])), r[2], v)
        elif r[0] == "hfield":
            key = (r[1], r[2])
            st.heap[key] = z3.Store(self.heap_get(st, key, self.sorts.sort(r[4])), r[3], v)
        else:
            raise Unsupported("write root %s" % r[0])

    def val(self, st, x):
        return self.read(st, x) if isinstance(x, (Loc, Alias)) else x

    def narrow(self, v, ty):
        """A double stored in a float loses digits: an unknown function of it, except for constants."""
        if ty.s.replace("const ", "") != "float" or not isinstance(v, z3.ExprRef) or v.sort() != R: return v
        import struct
        w = z3.simplify(v)
        if z3.is_rational_value(w):
            from fractions import Fraction
            x = Fraction(w.numerator_as_long(), w.denominator_as_long())
            y = Fraction(struct.unpack("f", struct.pack("f", float(x)))[0])
            return z3.RealVal("%d/%d" % (y.numerator, y.denominator))
        return z3.Function("fn.float", R, R)(v)

    def term(self, st, v, ty):
        """Converts an executor value to an SMT term of the sort of ty."""
        if isinstance(v, (Loc, Alias)): v = self.read(st, v)
        want = self.sorts.sort(ty)
        if isinstance(v, z3.ExprRef):
            if v.sort() == want: return v
            if want == R and v.sort() == I: return z3.ToReal(v)
            if want == I and v.sort() == B: return If(v, z3.IntVal(1), z3.IntVal(0))
            if want == I and v.sort() == R and kind(ty) == "int": return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            if kind(ty) == "cls": return self.slice(v, ty)
            raise Unsupported("term sort %s for %s" % (v.sort(), ty.s))
        if isinstance(v, PtrTo):
            if v.loc.root[0] == "hobj": return v.loc.root[2]
            # Address of a local: give the object an identity.
            return self.addr_of(st, v.loc)
        if isinstance(v, Lst):
            k = kind(ty)
            if k == "vec":
                return self.stl.vec_from_items(st, [self.term(st, x, ty.args[0]) for x in v.items], ty)
            if k in ("arr", "array"):
                d = self.sorts.info(ty)
                ety = ty.args[0] if k == "arr" else ty.to
                return d.mk(*[self.term(st, x, ety) for x in v.items])
        if isinstance(v, (Closure, FnPtr, PyFn)) and kind(ty) in ("func", "lambda", "ptr"):
            return self.fn_id(v)
        if isinstance(v, Opaque) and want == I:
            return self.fresh("opaque", I)
        if isinstance(v, Opaque) and want == STR:
            return self.fresh("str", STR)
        if v is None and want == I: return z3.IntVal(0)
        raise Unsupported("no term for %s as %s" % (type(v).__name__, ty.s))

    def fn_id(self, v):
        for i, w in self.globals_cache.setdefault("#fns", {}).items():
            if same(v, w): return z3.IntVal(i)
        m = self.globals_cache["#fns"]
        i = 1000 + len(m)
        m[i] = v
        return z3.IntVal(i)

    def fn_from(self, v):
        if isinstance(v, (Closure, FnPtr, PyFn)): return v
        v = z3.simplify(v)
        if z3.is_int_value(v):
            w = self.globals_cache.get("#fns", {}).get(v.as_long())
            if w is not None: return w
            if v.as_long() == 0: return None
        raise Unsupported("call of an unknown function value")

    def addr_of(self, st, loc):
        f = self.func("addr:%s" % (loc.root[1],) if loc.root[0] == "var" else "addr", I)
        if loc.path or loc.root[0] != "var": raise Unsupported("address of sub-object escapes")
        c = z3.Const("addr:%s" % (loc.root[1],), I)
        st.fact(c > 0)
        return c

    def deref(self, st, p, pty, node=None):
        """p: pointer value; returns the Loc it points to."""
        if isinstance(p, (Loc, Alias)): p = self.read(st, p)
        if isinstance(p, PtrTo): return p.loc
        if isinstance(p, Iter): return self.stl.iter_deref(st, p)
        to = pty.args[0] if kind(pty) == "uptr" else pty.to
        if isinstance(p, Lst): return Loc(("term", p), (("vi", z3.IntVal(0)),), to)
        if not isinstance(p, z3.ExprRef): raise Unsupported("deref of %s" % type(p).__name__)
        self.safety(st, p != 0, "null dereference", node)
        if self.sorts.is_heap_class(to) or to.k == "void" or (to.rec is not None and not to.rec.defined and to.rec.name.startswith("maliput")):
            return Loc(("hobj", to, p), (), to)
        return Loc(("heap", to.s, p, to), (), to)

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, kind_, node=None):
        if self.suppress: return
        if z3.is_true(goal): 
            pass
        line = (node or {}).get("L") if isinstance(node, dict) else None
        where = "%s:%s" % (self.curfn[-1].file.replace("/repo/", ""), line) if self.curfn else ""
        o = Obligation(name, kind_, list(st.pc), goal, where, self.ctx)
        self.obls.append(o)

    def safety(self, st, cond, what, node=None):
        cond = z3.simplify(cond)
        if z3.is_true(cond): return
        if self.opts.get("no_safety"): return
        self.oblige(st, "safety: " + what, cond, "safety", node)
        st.fact(cond)

    # ------------------------------------------------------------------ merging
    def merge(self, base_len, states, vals=None):
        """Merges normal states sharing the first base_len pc entries.  Returns a list of (state, value)."""
        if vals is None: vals = [None] * len(states)
        live = [(s, v) for s, v in zip(states, vals) if not any(z3.is_false(c) for (_, c) in s.pc[base_len:])]
        groups = []   # [state, value, D, (list of pc suffix formulas)]
        for s, v in live:
            suffix = s.pc[base_len:]
            ds, facts = [], []
            for isd, c in suffix:
                if isd: ds.append(c)
                else: facts.append(Implies(And(*ds), c) if ds else c)
            D = And(*ds) if ds else TRUE
            for g in groups:
                m = self.try_merge(g, s, v, D)
                if m:
                    g[2] = Or(g[2], D)
                    g[3] += facts
                    break
            else:
                groups.append([s, v, D, facts, suffix, 1])
        out = []
        for g in groups:
            s = g[0]
            if g[5] > 1:
                s.pc = s.pc[:base_len] + [(False, f) for f in g[3]]
                if not z3.is_true(g[2]): s.pc.append((True, g[2]))
            out.append((s, g[1]))
        return out

    def merge_val(self, c, a, b):
        """If(c, a, b) for executor values; None when not mergeable."""
        if same(a, b): return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() == b.sort(): return If(c, a, b)
            return None
        if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind and same(a.cont, b.cont):
            return Iter(a.kind, a.cont, a.cty, If(c, a.idx, b.idx))
        if isinstance(a, Opaque) and isinstance(b, Opaque): return a
        if isinstance(a, PtrTo) and isinstance(b, z3.ExprRef) and a.loc.root[0] == "hobj": return If(c, a.loc.root[2], b)
        if isinstance(b, PtrTo) and isinstance(a, z3.ExprRef) and b.loc.root[0] == "hobj": return If(c, a, b.loc.root[2])
        return None

    def try_merge(self, g, s2, v2, D2):
        s1, v1, D1 = g[0], g[1], g[2]
        if s1.frame != s2.frame: return False
        nv = None
        if not (v1 is None and v2 is None):
            if v1 is None or v2 is None: return False
            if isinstance(v1, (Loc,)) or isinstance(v2, Loc):
                if not same(v1, v2): return False
                nv = v1
            else:
                nv = self.merge_val(D1, v1, v2)
                if nv is None: return False
        env = {}
        for k, a in s1.env.items():
            b = s2.env.get(k)
            if b is None: continue
            m = a if a is b else self.merge_val(D1, a, b)
            if m is None: return False
            env[k] = m
        heap = dict(s1.heap)
        for k, b in s2.heap.items():
            a = s1.heap.get(k)
            if a is None:
                a = z3.Const("H:" + "/".join(k), b.sort())
            if not a.eq(b): heap[k] = If(D1, a, b)
            else: heap[k] = a
        for k, a in s1.heap.items():
            if k not in s2.heap:
                b = z3.Const("H:" + "/".join(k), a.sort())
                if not a.eq(b): heap[k] = If(D1, a, b)
        s1.env, s1.heap = env, heap
        if not same(s1.next, s2.next): s1.next = If(D1, s1.next, s2.next)
        g[1] = nv if nv is not None else v1
        g[5] += 1
        return True

    def merge_results(self, base_len, results):
        """results: list of (st, val); merges the normal ones, keeps exceptional ones (merged per exception type)."""
        normal = [(s, v) for s, v in results if s.out is None and not s.infeasible()]
        exc = [(s, v) for s, v in results if s.out is not None and not s.infeasible()]
        out = []
        if len(normal) > 1: out += self.merge(base_len, [s for s, _ in normal], [v for _, v in normal])
        else: out += normal
        out += [(s, None) for s in self.merge_exc(base_len, [s for s, _ in exc])]
        return out

    def merge_exc(self, base_len, states):
        by = {}
        rest = []
        for s in states:
            if s.out[0] == "throw": by.setdefault(s.out[1], []).append(s)
            else: rest.append(s)
        out = rest
        for k, ss in by.items():
            if len(ss) > 1: out += [s for s, _ in self.merge(base_len, ss)]
            else: out += ss
        return out

    # ------------------------------------------------------------------ expressions
    def bind(self, results, f):
        out = []
        for s, v in results:
            if s.out is not None or s.infeasible(): 
                if s.out is not None: out.append((s, None))
                continue
            out += f(s, v)
        return out

    def rv(self, e, st):
        """Evaluates to an rvalue."""
        return self.bind(self.ev(e, st), lambda s, v: [(s, self.val(s, v))])

    def lv(self, e, st):
        """Evaluates to a location (materialising a temporary for prvalues)."""
        def f(s, v):
            if isinstance(v, Loc): return [(s, v)]
            if isinstance(v, Alias): return [(s, v.loc)]
            ty = self.tu.ty(e["t"])
            return [(s, self.tmp_loc(s, v, ty.deref()))]
        return self.bind(self.ev(e, st), f)

    def seq(self, st, exprs, how):
        """Evaluates expressions left to right; how is a list of 'r'/'l'/'x'."""
        res = [(st, [])]
        for e, h in zip(exprs, how):
            nxt = []
            for s, vs in res:
                if s.out is not None:
                    nxt.append((s, None)); continue
                rs = self.rv(e, s) if h == "r" else self.lv(e, s) if h == "l" else self.ev(e, s)
                for s2, v in rs:
                    nxt.append((s2, vs + [v] if s2.out is None else None))
            res = nxt
        return res

    @property
    def tu(self):
        return self.curfn[-1].tu

    def ev(self, e, st):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression %s (%s) at line %s" % (e["k"], e.get("what"), e.get("L")))
        return m(e, st)

    # literals
    def e_int(self, e, st):
        return [(st, z3.IntVal(int(e["v"])))]

    def e_bool(self, e, st):
        return [(st, z3.BoolVal(bool(e["v"])))]

    def e_float(self, e, st):
        h = e["v"]
        fr = Fraction(float.fromhex(h))
        # Decimal literals such as 1e-12: keep the exact binary value.
        return [(st, z3.RealVal(fr))]

    def e_str(self, e, st):
        return [(st, self.sorts.strlit(e["v"]))]

    def e_null(self, e, st):
        return [(st, z3.IntVal(0))]

    def e_zero(self, e, st):
        return [(st, self.zero(self.tu.ty(e["t"]), st))]

    def zero(self, ty, st):
        k = kind(ty)
        if k == "bool": return FALSE
        if k == "real": return z3.RealVal(0)
        if k in ("int", "enum", "ptr", "nullptr", "uptr", "func"): return z3.IntVal(0)
        if k == "str": return self.sorts.strlit("")
        return self.default_value(ty, st, zero=True)

    def e_this(self, e, st):
        if isinstance(st.this, Loc):
            if st.this.root[0] == "hobj": return [(st, st.this.root[2])]
            return [(st, PtrTo(st.this))]
        if st.this is None: raise Unsupported("this outside a method")
        return [(st, st.this)]

    def e_fnref(self, e, st):
        return [(st, FnPtr(self.prog.fns[e["fn"]]))]

    def e_ref(self, e, st):
        ty = self.tu.ty(e["t"])
        if e.get("global"): return [(st, self.global_var(e, st, ty))]
        key = (st.frame, e["id"])
        if key not in st.env: raise Unsupported("unknown variable %s" % e["name"])
        v = st.env[key]
        if isinstance(v, Alias): return [(st, v.loc)]
        return [(st, Loc(("var", key), (), ty.deref()))]

    def global_var(self, e, st, ty):
        tu = self.tu
        g = tu.globals.get(str(e["id"]))
        if g is None: raise Unsupported("global %s" % e["name"])
        key = (tu.name, g["name"], e["id"])
        v = self.globals_cache.get(key)
        if v is None:
            gty = tu.ty(g["t"]).deref()
            if "init" in g:
                s = self.new_state()
                saved = self.bstack; self.bstack = []
                try:
                    rs = [r for r in self.rv(g["init"], s) if r[0].out is None]
                finally:
                    self.bstack = saved
                if len(rs) != 1: raise Unsupported("global init %s" % e["name"])
                v = rs[0][1]
                if isinstance(v, z3.ExprRef): pass
                elif isinstance(v, (Lst, FnPtr, Closure, Opaque)): pass
                elif isinstance(v, PtrTo): v = Opaque("ptr")
                # Globals' facts are closed: keep them as axioms.
                for _, c in rs[0][0].pc: self.axioms.append(c)
            else:
                if g["name"] in ("std::nullopt", "std::cout", "std::cerr", "std::in_place", "std::ignore"):
                    v = Opaque(g["name"])
                else:
                    try:
                        v = z3.Const("glob:" + g["name"], self.sorts.sort(gty))
                    except Unsupported:
                        v = Opaque(g["name"])
            self.globals_cache[key] = v
            self.globals_cache[("ty",) + key] = gty if "gty" in dir() else ty
        return Loc(("term", v), (), tu.ty(g["t"]).deref())

    # members
    def e_member(self, e, st):
        own = self.tu.ty(e["rec"])
        fty = self.tu.ty(e["t"])
        if own.name in ("std::pair", "std::__pair_base") and e["f"] in ("first", "second"):
            i = 0 if e["f"] == "first" else 1
            def pm(s, l):
                if isinstance(l, Lst):
                    x = l.items[i]
                    return [(s, x.loc if isinstance(x, Alias) else x)]
                return [(s, self.stl.pair_member(s, l, i, l.ty if l.ty is not None and l.ty.args else own))]
            if e["arrow"]:
                bty = self.tu.ty(e["e"]["t"])
                return self.bind(self.rv(e["e"], st), lambda s, p: pm(s, self.deref(s, p, bty, e)))
            def pm2(s, l):
                if isinstance(l, Loc):
                    if l.root[0] == "var" and not l.path and isinstance(s.env.get(l.root[1]), Lst): return pm(s, s.env[l.root[1]])
                    return pm(s, l)
                if isinstance(l, Alias): return pm(s, l.loc)
                if isinstance(l, Lst): return pm(s, l)
                return pm(s, Loc(("term", l), (), own))
            return self.bind(self.ev(e["e"], st), pm2)
        if e["arrow"]:
            bty = self.tu.ty(e["e"]["t"])
            return self.bind(self.rv(e["e"], st), lambda s, p: [(s, self.member(s, self.deref(s, p, bty, e), own, e["f"], fty))])
        return self.bind(self.lv(e["e"], st), lambda s, l: [(s, self.member(s, l, own, e["f"], fty))])

    def field_ty(self, own, f):
        for (n, t, _, _) in own.rec.fields:
            if n == f: return t
        raise Unsupported("field %s of %s" % (f, own.s))

    def member(self, st, loc, own, f, fty=None):
        t = self.field_ty(own, f)
        if own.rec.is_lambda: raise Unsupported("closure field")
        if loc.root[0] == "hobj":
            ref = loc.root[2]
            tt = t.deref()
            if self.sorts.is_heap_class(tt) and not t.isref():
                return Loc(("hobj", tt, self.sub(st, own.s, f, ref)), (), tt)
            l = Loc(("hfield", own.s, f, ref, t), (), t)
        else:
            l = loc.add(("f", own.s, f), t)
        if t.isref():
            r = self.read(st, l)
            if self.sorts.is_heap_class(t.to): return Loc(("hobj", t.to, r), (), t.to)
            return Loc(("heap", t.to.s, r, t.to), (), t.to)
        if self.sorts.is_heap_class(t):
            return Loc(("hobj", t, self.read(st, l)), (), t)
        return l

    def sub(self, st, own, f, ref):
        """Reference of an embedded heap-class member."""
        fn = self.func("sub:%s.%s" % (own, f), I, I)
        inv = self.func("subowner", I, I)
        knd = self.func("subkind", I, I)
        r = fn(ref)
        ids = self.globals_cache.setdefault("#subs", {})
        kid = ids.setdefault((own, f), len(ids) + 1)
        key = ("sub", r.sexpr())
        if key not in self.axiom_seen and not self.bstack:
            self.axiom_seen.add(key)
            self.axioms.append(And(r > 0, inv(r) == ref, knd(r) == kid))
        elif self.bstack:
            st.fact(And(r > 0, inv(r) == ref, knd(r) == kid))
        return r

    def e_method(self, e, st):
        raise Unsupported("bound method value")

    # operators
    def e_cast(self, e, st):
        ck = e["ck"]
        sub = e["e"]
        ty = self.tu.ty(e["t"])
        if ck in ("LValueToRValue",):
            return self.rv(sub, st)
        if ck in ("NoOp", "UserDefinedConversion", "ConstructorConversion", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "LValueBitCast"):
            return self.ev(sub, st)
        if ck == "ArrayToPointerDecay":
            if sub["k"] == "str": return self.ev(sub, st)
            return self.rv(sub, st)
        if ck == "NullToPointer": return [(st, z3.IntVal(0))]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            def f(s, v):
                if isinstance(v, Loc):
                    if v.root[0] == "hobj":
                        self.note_dyn(v.root[2], v.root[1])
                        return [(s, Loc(("hobj", ty.deref(), v.root[2]), (), ty.deref()))]
                    return [(s, Loc(v.root, v.path, ty.deref(), v.dyn or v.ty))]
                if isinstance(v, PtrTo):
                    l = v.loc
                    return [(s, PtrTo(Loc(l.root, l.path, ty.to, l.dyn or l.ty)))]
                if isinstance(v, z3.ExprRef) and ty.k == "ptr":
                    self.note_dyn(v, self.tu.ty(sub["t"]).to)
                    return [(s, v)]
                if isinstance(v, z3.ExprRef): return [(s, self.slice(v, ty))]
                if isinstance(v, Iter): return [(s, v)]
                raise Unsupported("upcast of %s to %s" % (v, ty.s))
            return self.bind(self.ev(sub, st), f)
        if ck in ("BaseToDerived", "Dynamic", "BitCast"):
            def f(s, v):
                if isinstance(v, Loc):
                    if v.root[0] == "hobj": return [(s, Loc(("hobj", ty.deref(), v.root[2]), (), ty.deref()))]
                    if ck == "Dynamic" and not (v.dyn and self.derives(v.dyn, ty.deref())): raise Unsupported("dynamic_cast of a reference")
                    return [(s, Loc(v.root, v.path, ty.deref(), v.dyn))]
                if isinstance(v, PtrTo):
                    l = v.loc
                    if ck == "Dynamic" and not self.derives(l.dyn or l.ty, ty.to): return [(s, z3.IntVal(0))]
                    return [(s, PtrTo(Loc(l.root, l.path, ty.to, l.dyn)))]
                if ck == "Dynamic": raise Unsupported("dynamic_cast")
                return [(s, v)]
            return self.bind(self.ev(sub, st), f)
        if ck == "ToVoid":
            return self.bind(self.ev(sub, st), lambda s, v: [(s, None)])
        if ck in ("IntegralCast",):
            fty = self.tu.ty(sub["t"])
            def f(s, v):
                if ty.k == "int" and not ty.signed and (fty.k != "int" or fty.signed) and isinstance(v, z3.ArithRef) and not z3.is_int_value(v) and self.nonneg(v):
                    return [(s, v)]
                if ty.k == "int" and not ty.signed and (fty.k != "int" or fty.signed) and not z3.is_int_value(v):
                    return [(s, If(v >= 0, v, v + 2 ** ty.bits))]
                if z3.is_int_value(v) and ty.k == "int" and not ty.signed and v.as_long() < 0:
                    return [(s, z3.IntVal(v.as_long() + 2 ** ty.bits))]
                if z3.is_bool(v): return [(s, If(v, z3.IntVal(1), z3.IntVal(0)))]
                return [(s, v)]
            return self.bind(self.rv(sub, st), f)
        if ck == "IntegralToFloating":
            return self.bind(self.rv(sub, st), lambda s, v: [(s, z3.RealVal(v.as_long()) if z3.is_int_value(v) else z3.ToReal(If(v, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(v) else v))])
        if ck == "FloatingToIntegral":
            return self.bind(self.rv(sub, st), lambda s, v: [(s, If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))])
        if ck in ("FloatingCast",): return self.bind(self.rv(sub, st), lambda s, v: [(s, self.narrow(v, ty))])
        if ck == "IntegralToBoolean":
            return self.bind(self.rv(sub, st), lambda s, v: [(s, v if z3.is_bool(v) else v != 0)])
        if ck == "FloatingToBoolean": return self.bind(self.rv(sub, st), lambda s, v: [(s, v != 0)])
        if ck == "PointerToBoolean":
            return self.bind(self.rv(sub, st), lambda s, v: [(s, self.ptr_truth(s, v))])
        raise Unsupported("cast %s" % ck)

    def note_dyn(self, ref, ty):
        k = ref.sexpr()
        old = self.dyncls.get(k)
        if old is None or (ty is not old and self.derives(ty, old)):
            self.dyncls[k] = ty
            self.dynrefs[k] = ref

    def derives(self, a, b):
        if a is b or a.s == b.s: return True
        return a.rec is not None and any(self.derives(x, b) for x in a.rec.bases)

    def ptr_truth(self, st, v):
        if isinstance(v, (PtrTo, Closure, FnPtr)): return TRUE
        if isinstance(v, z3.ExprRef): return v != 0
        raise Unsupported("pointer truth")

    def e_un(self, e, st):
        op = e["op"]
        if op == "&":
            def f(s, l):
                if l.root[0] == "hobj" and not l.path: return [(s, l.root[2])]
                if l.root[0] == "heap" and not l.path: return [(s, l.root[2])]
                return [(s, PtrTo(l))]
            if e["e"]["k"] == "fnref": return self.ev(e["e"], st)
            return self.bind(self.lv(e["e"], st), f)
        if op == "*":
            pty = self.tu.ty(e["e"]["t"])
            return self.bind(self.rv(e["e"], st), lambda s, p: [(s, self.deref(s, p, pty, e))])
        if op in ("++", "--"):
            def f(s, l):
                v = self.read(s, l)
                if isinstance(v, Iter):
                    nv = Iter(v.kind, v.cont, v.cty, z3.simplify(v.idx + (1 if op == "++" else -1)))
                else:
                    one = z3.RealVal(1) if v.sort() == R else z3.IntVal(1)
                    nv = v + one if op == "++" else v - one
                    if op == "--": nv = self.wrap_sub(nv, v, one, l.ty)
                    if z3.is_int_value(v): nv = z3.simplify(nv)
                self.write(s, l, nv)
                return [(s, v if e.get("post") else l)]
            return self.bind(self.lv(e["e"], st), f)
        def g(s, v):
            if op == "!": return [(s, Not(v))]
            if op == "-": return [(s, z3.simplify(-v) if (z3.is_rational_value(v) or z3.is_int_value(v)) else -v)]
            if op == "+": return [(s, v)]
            if op == "~": raise Unsupported("~")
            raise Unsupported("unary " + op)
        return self.bind(self.rv(e["e"], st), g)

    def nonneg(self, v):
        """Terms that are evidently not negative: quantified indices from zero on, sizes, sums of such."""
        if z3.is_int_value(v): return v.as_long() >= 0
        if v.get_id() in self.nn: return True
        if z3.is_app_of(v, z3.Z3_OP_ADD): return all(self.nonneg(c) for c in v.children())
        return z3.is_app(v) and v.decl().name().endswith(".len") and v.decl().name().startswith("Vec<")

    def wrap_sub(self, nv, a, b, ty):
        if ty is not None and ty.k == "int" and not ty.signed:
            if z3.is_int_value(a) and z3.is_int_value(b):
                x = a.as_long() - b.as_long()
                return z3.IntVal(x if x >= 0 else x + 2 ** ty.bits)
            return If(a >= b, nv, nv + 2 ** ty.bits)
        return nv

    def arith(self, st, op, a, b, ty, node=None):
        if isinstance(a, PtrTo) or isinstance(b, PtrTo):
            if op in ("==", "!="):
                r = self.ptr_eq(st, a, b)
                return r if op == "==" else Not(r)
            raise Unsupported("pointer arithmetic")
        if isinstance(a, (Iter, Lst, Closure, FnPtr, Opaque)) or isinstance(b, (Iter, Lst, Closure, FnPtr, Opaque)):
            if isinstance(a, Iter) and isinstance(b, Iter): return self.stl.iter_binop(st, op, a, b)
            if isinstance(a, Iter): return self.stl.iter_arith(st, op, a, b)
            raise Unsupported("operator %s on %s,%s" % (op, type(a).__name__, type(b).__name__))
        if z3.is_bool(a) and op not in ("==", "!=", "&&", "||"):
            a = If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b) and op not in ("==", "!=", "&&", "||"):
            b = If(b, z3.IntVal(1), z3.IntVal(0))
        if a.sort() == R and b.sort() == I: b = z3.ToReal(b)
        if b.sort() == R and a.sort() == I: a = z3.ToReal(a)
        if op == "+": r = a + b
        elif op == "-": r = self.wrap_sub(a - b, a, b, ty)
        elif op == "*": r = a * b
        elif op == "/":
            if a.sort() == R:
                # IEEE division by zero does not trap; the quotient is then an unspecified real.
                r = a / b
            else:
                self.safety(st, b != 0, "integer division by zero", node)
                q = a / b   # z3 Int division is floor for positive divisor
                r = If(Or(a >= 0, a % b == 0), q, If(b > 0, q + 1, q - 1))
        elif op == "%":
            self.safety(st, b != 0, "modulo by zero", node)
            r = If(a >= 0, a % b, -((-a) % b))
        elif op == "<": r = a < b
        elif op == "<=": r = a <= b
        elif op == ">": r = a > b
        elif op == ">=": r = a >= b
        elif op == "==": r = a == b
        elif op == "!=": r = a != b
        elif op in ("&", "|", "^", "<<", ">>"):
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                return z3.IntVal({"&": x & y, "|": x | y, "^": x ^ y, "<<": (x << y) % 2 ** (ty.bits or 64), ">>": x >> y}[op])
            f = self.func("bit:" + op, I, I, I)
            return f(a, b)
        else: raise Unsupported("operator " + op)
        if all(z3.is_int_value(x) or z3.is_rational_value(x) for x in (a, b)): r = z3.simplify(r)
        return r

    def ptr_eq(self, st, a, b):
        def ref(x):
            if isinstance(x, PtrTo) and x.loc.root[0] == "hobj": return x.loc.root[2]
            return x
        a, b = ref(a), ref(b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a == b
        if isinstance(a, PtrTo) and isinstance(b, PtrTo):
            if same(a, b): return TRUE
            if a.loc.root[0] == "var" and b.loc.root[0] == "var" and a.loc.root[1] != b.loc.root[1]: return FALSE
            if a.loc.root[0] == "var" and b.loc.root[0] == "var" and len(a.loc.path) == len(b.loc.path) and a.loc.path[:-1] == b.loc.path[:-1]:
                x, y = a.loc.path[-1], b.loc.path[-1]
                if x[0] == y[0] == "f": return FALSE
        x, y = (a, b) if isinstance(a, PtrTo) else (b, a)
        if isinstance(x, PtrTo) and isinstance(y, z3.ExprRef):
            if z3.is_int_value(y) and y.as_long() == 0: return FALSE
            try:
                return self.addr_of(st, x.loc) == y
            except Unsupported:
                pass
        raise Unsupported("pointer comparison")

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            return self.ev_logic(op, e["l"], e["r"], st)
        if op == ",":
            return self.bind(self.ev(e["l"], st), lambda s, v: self.ev(e["r"], s))
        ty = self.tu.ty(e["t"])
        def f(s, a):
            return self.bind(self.rv(e["r"], s), lambda s2, b: [(s2, self.arith(s2, op, a, b, ty, e))])
        return self.bind(self.rv(e["l"], st), f)

    def ev_logic(self, op, l, r, st):
        def f(s, a):
            a = self.simp(a)
            if z3.is_false(a) and op == "&&": return [(s, FALSE)]
            if z3.is_true(a) and op == "||": return [(s, TRUE)]
            if is_lit(a): return self.rv(r, s)
            n = len(s.pc)
            s1, s2 = s.copy(), s.copy()
            s1.dec(a if op == "&&" else Not(a))
            s2.dec(Not(a) if op == "&&" else a)
            rs = self.rv(r, s1) + [(s2, FALSE if op == "&&" else TRUE)]
            return self.merge_results(n, rs)
        return self.bind(self.rv(l, st), f)

    def simp(self, c):
        if is_lit(c): return c
        t = z3.simplify(c)
        return t if is_lit(t) else c

    def e_cond(self, e, st):
        def f(s, c):
            c = self.simp(c)
            if z3.is_true(c): return self.ev(e["a"], s)
            if z3.is_false(c): return self.ev(e["b"], s)
            n = len(s.pc)
            s1, s2 = s.copy(), s.copy()
            s1.dec(c); s2.dec(Not(c))
            r1, r2 = self.ev(e["a"], s1), self.ev(e["b"], s2)
            if e.get("vk") == "r" or True:
                # Read through locations unless they are the same.
                rs = r1 + r2
                locs = [v for (x, v) in rs if x.out is None]
                if not all(isinstance(v, Loc) for v in locs) or (len(locs) > 1 and self.tu.j["types"][e["t"]].get("const") and not any(v.root[0] == "hobj" for v in locs)):
                    rs = [(x, self.val(x, v) if x.out is None else None) for (x, v) in rs]
                elif len(locs) > 1 and all(v.root[0] == "hobj" for v in locs):
                    if len({v.root[1].s for v in locs}) == 1:
                        t = locs[0].root[1]
                        rs = self.merge_results(n, [(x, v.root[2] if x.out is None else None) for (x, v) in rs])
                        return [(x, Loc(("hobj", t, v), (), t) if x.out is None else None) for (x, v) in rs]
                return self.merge_results(n, rs)
        return self.bind(self.rv(e["c"], st), f)

    def e_assign(self, e, st):
        def f(s, v):
            def g(s2, l):
                self.write(s2, l, v)
                return [(s2, l)]
            return self.bind(self.lv(e["l"], s), g)
        return self.bind(self.rv(e["r"], st), f)

    def e_cassign(self, e, st):
        ty = self.tu.ty(e["ct"])
        def f(s, v):
            def g(s2, l):
                cur = self.read(s2, l)
                nv = self.arith(s2, e["op"], cur, v, ty, e)
                lt = l.ty
                if isinstance(nv, z3.ExprRef) and isinstance(cur, z3.ExprRef) and nv.sort() != cur.sort():
                    if cur.sort() == I and nv.sort() == R: nv = If(nv >= 0, z3.ToInt(nv), -z3.ToInt(-nv))
                if lt.k == "int" and not lt.signed and e["op"] == "+" and not z3.is_int_value(v):
                    nv = If(nv >= 2 ** lt.bits, nv - 2 ** lt.bits, nv) if self.may_wrap(v) else nv
                self.write(s2, l, nv)
                return [(s2, l)]
            return self.bind(self.lv(e["l"], s), g)
        return self.bind(self.rv(e["r"], st), f)

    def may_wrap(self, v):
        """True when v is the unsigned image of a possibly negative number (If(x>=0,x,x+2^64))."""
        return z3.is_app_of(v, z3.Z3_OP_ITE)

    def e_index(self, e, st):
        ty = self.tu.ty(e["t"])
        def f(s, a):
            def g(s2, i):
                if isinstance(a, Lst) or (isinstance(a, z3.ExprRef) and self.sorts.dt_of(a) is not None):
                    i2 = z3.simplify(i)
                    if isinstance(a, Lst): return [(s2, Loc(("term", a), (("vi", i2),), ty))]
                    if z3.is_int_value(i2): return [(s2, Loc(("term", a), (("ai", i2.as_long()),), ty))]
                    return [(s2, Loc(("term", a), (("ax", i2),), ty))]
                raise Unsupported("array subscript")
            return self.bind(self.rv(e["i"], s), g)
        return self.bind(self.rv(e["a"], st), f)

    def e_throw(self, e, st):
        st = st.copy()
        name = "?"
        if e.get("e"):
            t = self.tu.ty(e["e"]["t"])
            name = t.name or t.s
        st.out = ("throw", name)
        return [(st, None)]

    def e_delete(self, e, st):
        return [(st, None)]

    def e_stdinitlist(self, e, st):
        return self.ev(e["e"], st)

    def e_initlist(self, e, st):
        ty = self.tu.ty(e["t"])
        k = kind(ty)
        items = e["e"]
        def f(s, vs):
            if k == "array":
                vs2 = list(vs)
                while len(vs2) < ty.n: vs2.append(self.zero(ty.to, s))
                return [(s, Lst(vs2, ty.to))]
            if k == "arr":
                v = vs[0] if vs else None
                if isinstance(v, Lst):
                    its = list(v.items)
                else:
                    its = list(vs)
                d = self.sorts.info(ty)
                if len(vs) == 1 and isinstance(v, z3.ExprRef) and v.sort() == self.sorts.sort(ty): return [(s, v)]
                if len(vs) == 1 and isinstance(v, z3.ExprRef) and v.sort().name().startswith("CArr"):
                    its = [v.sort().accessor(0, i)(v) if not z3.is_app_of(v, z3.Z3_OP_DT_CONSTRUCTOR) else v.arg(i) for i in range(ty.args[1])]
                while len(its) < ty.args[1]: its.append(self.zero(ty.args[0], s))
                return [(s, d.mk(*[self.term(s, x, ty.args[0]) for x in its]))]
            if k == "cls":
                d = self.sorts.info(ty)
                if len(vs) != len(d.tys): raise Unsupported("aggregate init of %s" % ty.s)
                return [(s, d.mk(*[self.term(s, x, t) for x, t in zip(vs, d.tys)]))]
            if not vs: return [(s, self.zero(ty, s))]
            if len(vs) == 1: return [(s, vs[0])]
            raise Unsupported("initlist of %s" % ty.s)
        return self.bind(self.seq(st, items, ["r"] * len(items)), f)

    def e_lambdaexpr(self, e, st):
        caps = {}
        def go(s, i):
            if i == len(e["caps"]):
                return [(s, Closure([self.prog.fns[k] for k in e["ops"]], dict(caps_of[id(s)] if id(s) in caps_of else caps), s.this))]
            raise Unsupported("x")
        caps_of = {}
        res = [(st, {})]
        for c in e["caps"]:
            nxt = []
            for s, m in res:
                if s.out is not None:
                    nxt.append((s, m)); continue
                if c.get("this"):
                    nxt.append((s, m)); continue
                cty = self.tu.ty(c["t"])
                if c["byref"]:
                    for s2, l in self.lv(c["e"], s): nxt.append((s2, dict(m, **{str(c["id"]): Alias(l)}) if s2.out is None else m))
                else:
                    for s2, v in self.rv(c["e"], s): nxt.append((s2, dict(m, **{str(c["id"]): v}) if s2.out is None else m))
            res = nxt
        return [(s, Closure([self.prog.fns[k] for k in e["ops"]], m, s.this) if s.out is None else None) for s, m in res]

    def e_new(self, e, st):
        if e.get("array") or e.get("placement"): raise Unsupported("new[]")
        at = self.tu.ty(e["at"])
        return self.alloc_construct(st, at, e.get("init"))

    def alloc(self, st, ty):
        ref = st.next
        st.fact(ref > 0)
        st.fact(self.func("subkind", I, I)(ref) == 0)
        st.next = z3.simplify(st.next + 1)
        if ty is not None: self.note_dyn(ref, ty)
        return ref

    def alloc_construct(self, st, ty, init_node=None, ctor=None, args=None):
        st = st.copy()
        ref = self.alloc(st, ty)
        if self.sorts.is_heap_class(ty):
            loc = Loc(("hobj", ty, ref), (), ty)
            if init_node is not None:
                return [(s, ref if s.out is None else None) for s, _ in self.construct_into(loc, init_node, st)]
            return [(s, ref if s.out is None else None) for s, _ in self.run_ctor(ctor, loc, args, st)]
        loc = Loc(("heap", ty.s, ref, ty), (), ty)
        if init_node is not None: rs = self.rv(init_node, st)
        elif ctor is not None: rs = self.construct(ctor, args, ty, st)
        else: rs = [(st, self.term(st, args[0], ty) if args else self.zero(ty, st))]
        def f(s, v):
            self.write(s, loc, v)
            return [(s, ref)]
        return self.bind(rs, f)

    # ------------------------------------------------------------------ construction
    def e_construct(self, e, st):
        fn = self.prog.fns[e["fn"]]
        ty = self.tu.ty(e["t"])
        k = kind(ty)
        if k != "cls":
            return self.stl.construct(e, fn, ty, st)
        if fn.ctor in ("copy", "move") and (fn.defaulted or not fn.has_body):
            def f(s, v):
                if isinstance(v, Loc):
                    val = self.read(s, Loc(v.root, v.path, v.ty))
                    if isinstance(val, z3.ExprRef) and not self.sorts.is_heap_class(ty) and val.sort() != self.sorts.sort(ty): val = self.slice(val, ty)
                    if fn.ctor == "move": self.moved_from(s, v, ty)
                    return [(s, val)]
                if isinstance(v, z3.ExprRef) and v.sort() != self.sorts.sort(ty): v = self.slice(v, ty)
                return [(s, v)]
            return self.bind(self.ev(e["args"][0], st), f)
        if self.sorts.is_heap_class(ty):
            # A heap-class object as a local/temporary: allocate it.
            st = st.copy()
            ref = self.alloc(st, ty)
            loc = Loc(("hobj", ty, ref), (), ty)
            return [(s, loc if s.out is None else None) for s, _ in self.construct_into(loc, e, st)]
        def g(s, args):
            return self.construct(fn, args, ty, s, e)
        return self.bind(self.eval_args(fn, e["args"], st), g)

    def moved_from(self, st, loc, ty):
        """The source of a move is left unspecified (null for unique_ptr)."""
        k = kind(ty)
        if loc.root[0] in ("term", "hobj"): return
        if k == "uptr": self.write(st, loc, z3.IntVal(0))
        elif k in ("vec", "map", "set"):
            v = self.fresh_ty("moved", ty, st)
            self.write(st, loc, v)
        elif k == "str": self.write(st, loc, self.fresh("moved", STR))
        elif k == "cls" and not self.sorts.is_heap_class(ty):
            for (o, n, t) in self.sorts.fields(ty):
                if kind(t) in ("uptr", "vec", "map", "set", "str", "cls", "opt"): self.moved_from(st, loc.add(("f", o, n), t), t)
        elif k == "opt":
            pass

    def construct(self, fn, args, ty, st, node=None):
        """Value-class construction; returns (state, term)."""
        c = self.contract_for(fn)
        if c is not None:
            return self.apply_contract(c, fn, None, args, st, node)
        st = st.copy()
        self.nfresh += 1
        key = (0, "obj%d" % self.nfresh)
        st.env[key] = self.fresh("uninit", self.sorts.sort(ty))
        loc = Loc(("var", key), (), ty)
        def f(s, _):
            v = s.env.pop(key)
            return [(s, v)]
        rs = self.run_ctor(fn, loc, args, st, node)
        for s, _ in rs:
            if s.out is not None: s.env.pop(key, None)
        return self.bind(rs, f)

    def default_ctor(self, ty):
        for f in self.prog.fns.values():
            if f.ctor == "default" and f.record is not None and f.record.s == ty.s: return f
        return None

    def default_value(self, ty, st, zero=False):
        k = kind(ty)
        if k in ("bool", "int", "real", "enum", "ptr"):
            return self.zero(ty, st) if zero else self.fresh_ty("uninit", ty, st)
        if k == "cls":
            if self.sorts.is_heap_class(ty): raise Unsupported("default value of heap class")
            f = self.default_ctor(ty)
            if f is not None and f.has_body:
                rs = [r for r in self.construct(f, [], ty, st) if r[0].out is None]
                if len(rs) != 1: raise Unsupported("default ctor")
                st.env, st.heap, st.pc, st.next = rs[0][0].env, rs[0][0].heap, rs[0][0].pc, rs[0][0].next
                return rs[0][1]
            d = self.sorts.info(ty)
            vals = []
            for (o, n, t) in self.sorts.fields(ty):
                vals.append(self.term(st, self.field_default(o, n, t, st, zero), t))
            return d.mk(*vals)
        return self.stl.default(ty, st)

    def field_default(self, owner, name, t, st, zero=False):
        rec = None
        for (n, ft, init, tu) in self.rec_by_name(owner).fields:
            if n == name:
                if init is not None:
                    # Evaluate in the declaring TU.
                    self.curfn.append(_Ctx(tu))
                    try:
                        rs = [r for r in self.rv(init, st) if r[0].out is None]
                    finally:
                        self.curfn.pop()
                    if len(rs) != 1: raise Unsupported("member initialiser")
                    if rs[0][0] is not st:
                        st.env, st.heap, st.pc, st.next = rs[0][0].env, rs[0][0].heap, rs[0][0].pc, rs[0][0].next
                    return rs[0][1]
                return self.default_value(ft, st, zero)
        raise Unsupported("field default")

    def rec_by_name(self, s):
        from .prog import Ty
        for k in (("rec", s),):
            t = Ty.table.get(k)
            if t is not None and t.rec is not None: return t.rec
        raise Unsupported("record %s" % s)

    def construct_into(self, loc, e, st):
        """Runs a construct expression in place (heap-class objects and bases)."""
        while e["k"] == "cast" or (e["k"] == "initlist" and len(e["e"]) == 1):
            e = e["e"] if e["k"] == "cast" else e["e"][0]
        if e["k"] in ("zero",) or (e["k"] == "initlist" and not e["e"]):
            f = self.default_ctor(loc.ty)
            if f is None: raise Unsupported("in-place init")
            return self.run_ctor(f, loc, [], st)
        if e["k"] != "construct": raise Unsupported("in-place init from %s" % e["k"])
        fn = self.prog.fns[e["fn"]]
        return self.bind(self.eval_args(fn, e["args"], st), lambda s, args: self.run_ctor(fn, loc, args, s, e))

    def run_ctor(self, fn, loc, args, st, node=None):
        """Executes constructor fn with *this at loc.  Returns [(st, None)]."""
        rty = fn.record
        if not fn.has_body:
            if fn.ctor == "default" or (fn.defaulted and not args):
                return self.default_into(loc, rty, st)
            if fn.ctor in ("copy", "move"):
                if loc.root[0] == "hobj": raise Unsupported("copy of heap class")
                v = self.val(st, args[0])
                self.write(st, loc, v)
                return [(st, None)]
            raise Unsupported("constructor without body %s" % fn.q)
        if self.depth > self.MAX_INLINE: raise Unsupported("inlining depth")
        self.inlined.add(fn)
        n = len(st.pc)
        st = st.copy()
        saved_frame, saved_this = st.frame, st.this
        self.frames += 1
        st.frame, st.this = self.frames, loc
        self.curfn.append(fn)
        self.depth += 1
        try:
            for (pid, pname, pty), a in zip(fn.params, args): st.env[(st.frame, pid)] = self.bind_param(st, a, pty)
            states = [st]
            for init in fn.inits or []:
                nxt = []
                for s in states:
                    if s.out is not None:
                        nxt.append(s); continue
                    nxt += self.run_init(init, loc, rty, s)
                states = nxt
            out = []
            for s in states:
                if s.out is not None: out.append(s)
                else: out += self.ex(fn.body, s)
        finally:
            self.depth -= 1
            self.curfn.pop()
        res = []
        fr = self.frames_of(st)
        for s in out:
            if s.out is not None and s.out[0] == "return": s.out = None
            self.drop_frame(s, st.frame)
            s.frame, s.this = saved_frame, saved_this
            res.append((s, None))
        return self.merge_results(n, res)

    def frames_of(self, st): return st.frame

    def drop_frame(self, s, frame):
        for k in [k for k in s.env if k[0] == frame]: del s.env[k]

    def run_init(self, init, loc, rty, s):
        e = init["e"]
        if "field" in init:
            fl = self.member_init_loc(s, loc, rty, init["field"])
            t = fl.ty
            if t.isref():
                rs = self.lv(e, s)
                def f(s2, l):
                    if l.root[0] == "hobj": ref = l.root[2]
                    elif l.root[0] == "heap" and not l.path: ref = l.root[2]
                    else: ref = self.addr_of(s2, l)
                    self.write(s2, Loc(fl.root, fl.path, t), ref)
                    return [(s2, None)]
                return [x for x, _ in self.bind(rs, f)]
            if fl.root[0] == "hobj":
                return [x for x, _ in self.construct_into(fl, e, s)]
            def f(s2, v):
                self.write(s2, fl, self.coerce(s2, v, t))
                return [(s2, None)]
            return [x for x, _ in self.bind(self.rv(e, s), f)]
        if "base" in init:
            bty = self.tu.ty(init["base"])
            if bty.rec is None or not bty.rec.inroots: return [s]
            return [x for x, _ in self.construct_into(Loc(loc.root if loc.root[0] != "hobj" else ("hobj", bty, loc.root[2]), loc.path, bty), e, s)]
        if init.get("delegating"):
            return [x for x, _ in self.construct_into(loc, e, s)]
        raise Unsupported("initializer")

    def coerce(self, st, v, t):
        if kind(t) in ("vec", "arr", "array") and isinstance(v, Lst): return self.term(st, v, t)
        return v

    def member_init_loc(self, st, loc, own, f):
        t = self.field_ty(own, f)
        if loc.root[0] == "hobj":
            if self.sorts.is_heap_class(t):
                return Loc(("hobj", t, self.sub(st, own.s, f, loc.root[2])), (), t)
            return Loc(("hfield", own.s, f, loc.root[2], t), (), t)
        return loc.add(("f", own.s, f), t)

    def default_into(self, loc, ty, st):
        for b in ty.rec.bases:
            if b.rec is not None and b.rec.inroots:
                f = self.default_ctor(b)
                bl = Loc(loc.root if loc.root[0] != "hobj" else ("hobj", b, loc.root[2]), loc.path, b)
                rs = self.run_ctor(f, bl, [], st) if f is not None else self.default_into(bl, b, st)
                if len(rs) != 1 or rs[0][0].out is not None: raise Unsupported("base default ctor")
                st = rs[0][0]
        for (n, t, init, tu) in ty.rec.fields:
            fl = self.member_init_loc(st, loc, ty, n)
            if fl.root[0] == "hobj":
                rs = self.default_into(fl, t, st) if init is None else None
                if rs is None: raise Unsupported("heap class member initialiser")
                st = rs[0][0]
            else:
                self.write(st, fl, self.coerce(st, self.field_default(ty.s, n, t, st), t))
        return [(st, None)]

    def bind_param(self, st, a, pty):
        if pty.isref():
            if isinstance(a, Alias): return a
            if isinstance(a, Loc): return Alias(a)
            return Alias(self.tmp_loc(st, a, pty.to))
        v = self.val(st, a)
        return self.coerce(st, v, pty)

    # ------------------------------------------------------------------ calls
    def eval_args(self, fn, arg_nodes, st):
        how = []
        for i, a in enumerate(arg_nodes):
            if i < len(fn.params): how.append("l" if fn.params[i][2].isref() else "r")
            else: how.append("r")
        return self.seq(st, arg_nodes, how)

    def e_call(self, e, st):
        if "fn" not in e: return self.call_value(e, st)
        fn = self.prog.fns[e["fn"]]
        m = self.stl.find(fn)
        if m is not None: return m(e, fn, st)
        return self.bind(self.eval_args(fn, e["args"], st), lambda s, args: self.call_fn(fn, None, args, s, e))

    def call_value(self, e, st):
        def f(s, v):
            f_ = self.fn_from(v)
            return self.bind(self.seq(s, e["args"], ["x"] * len(e["args"])), lambda s2, args: self.apply(f_, args, s2, e))
        return self.bind(self.rv(e["callee"], st), f)

    def e_mcall(self, e, st):
        if "fn" not in e: raise Unsupported("member pointer call")
        fn = self.prog.fns[e["fn"]]
        oty = self.tu.ty(e["obj"]["t"])
        m = self.stl.find(fn)
        if m is not None: return m(e, fn, st)
        if e["arrow"]:
            objs = self.bind(self.rv(e["obj"], st), lambda s, p: [(s, self.deref(s, p, oty, e))])
        else:
            objs = self.lv(e["obj"], st)
        def f(s, l):
            return self.bind(self.eval_args(fn, e["args"], s), lambda s2, args: self.call_fn(fn, l, args, s2, e))
        return self.bind(objs, f)

    def e_opcall(self, e, st):
        if "fn" not in e: raise Unsupported("operator call")
        fn = self.prog.fns[e["fn"]]
        m = self.stl.find(fn)
        if m is not None: return m(e, fn, st)
        args = e["args"]
        if fn.method and not fn.static:
            if fn.record.k == "lambda" or (fn.record.rec is not None and fn.record.rec.is_lambda):
                def f(s, c):
                    return self.bind(self.seq(s, args[1:], ["x"] * (len(args) - 1)), lambda s2, a: self.apply(c, a, s2, e, fn))
                return self.bind(self.rv(args[0], st), f)
            def f(s, l):
                return self.bind(self.eval_args(fn, args[1:], s), lambda s2, a: self.call_fn(fn, l, a, s2, e))
            return self.bind(self.lv(args[0], st), f)
        return self.bind(self.eval_args(fn, args, st), lambda s, a: self.call_fn(fn, None, a, s, e))

    def apply(self, f, args, st, node=None, op=None):
        """Calls a function value with evaluated arguments (Loc or value)."""
        if isinstance(f, FnPtr):
            fn = f.fn
            m = self.stl.find_raw(fn)
            if m is not None: return m(fn, args, st)
            return self.call_fn(fn, None, args, st, node)
        if isinstance(f, PyFn): return f.f(args, st)
        if not isinstance(f, Closure): raise Unsupported("apply %s" % type(f).__name__)
        fn = op or self.pick_op(f, args, st)
        return self.inline(fn, f.this, args, st, node, caps=f.caps)

    def pick_op(self, f, args, st):
        ops = [o for o in f.ops if o.has_body]
        if len(ops) == 1: return ops[0]
        for o in ops:
            ok = len(o.params) == len(args)
            for (pid, pn, pt), a in zip(o.params, args):
                v = self.val(st, a)
                if isinstance(a, Loc) and pt.deref().s == a.ty.s: continue
                if isinstance(v, z3.ExprRef):
                    try:
                        if self.sorts.sort(pt.deref()) != v.sort(): ok = False
                    except Unsupported: ok = False
            if ok: return o
        raise Unsupported("generic lambda without a matching instantiation")

    def is_throw_fn(self, fn):
        return fn.q0 in ("maliput::common::internal::Throw", "maliput::common::internal::Abort", "drake::internal::Throw")

    def call_fn(self, fn, this, args, st, node=None):
        if self.is_throw_fn(fn):
            st = st.copy()
            st.out = ("throw", "maliput::common::assertion_error")
            return [(st, None)]
        q = fn.q0
        if q.startswith("vc::"):
            return self.stl.vc(fn, args, st, node)
        if fn.virtual and not (node or {}).get("qualified"):
            fn2 = self.dispatch(fn, this)
            if fn2 is None or (fn2.pure and not fn2.has_body):
                k = self.known_object(fn, this, st)
                if k is None: return self.abstract_call(fn, this, args, st, node)
                this, fn2 = k
            fn = fn2
        c = self.contract_for(fn)
        if c is not None: return self.apply_contract(c, fn, this, args, st, node)
        m = self.stl.find_raw(fn)
        if m is not None:
            return m(fn, ([this] if this is not None else []) + args, st)
        if fn.has_body: return self.inline(fn, this, args, st, node)
        if fn.assign and fn.defaulted:
            v = self.val(st, args[0])
            self.write(st, this, v)
            if fn.assign == "move" and isinstance(args[0], Loc): self.moved_from(st, args[0], fn.record)
            return [(st, this)]
        if fn.dtor: return [(st, None)]
        raise Unsupported("call of external function %s" % fn.q)

    def dispatch(self, fn, this):
        """Most-derived override known for the receiver; None for an abstract receiver."""
        if this is None: return fn
        if this.root[0] == "hobj":
            ty = this.root[1]
            d = self.dyn_of(this.root[2])
            if d is not None and self.derives(d, ty): ty = d
        else:
            ty = this.dyn or this.ty
            # Value objects: the dynamic type is that of the whole object.
            if this.root[0] in ("heap",) and not this.path: ty = this.root[3]
        return self.find_override(ty, fn)

    def known_object(self, fn, this, st):
        """The object of a known class which the receiver of an abstract call provably is."""
        if this.root[0] != "hobj": return None
        r = this.root[2]
        for k, ty in list(self.dyncls.items()):
            x = self.dynrefs[k]
            if not z3.is_const(x) or z3.is_int_value(x) or ty.s == this.ty.s or not self.derives(ty, this.root[1]): continue
            f = self.find_override(ty, fn)
            if f.pure and not f.has_body: continue
            from . import solve
            fs = [c for _, c in st.pc] + [r != x]
            key = solve.to_smt2(solve.relevant_bg(solve.background(self), fs) + fs)
            if key not in self.same_ref: self.same_ref[key] = solve.run_z3(key, 2, opts=("smt.mbqi=false",))[0] == "unsat"
            if self.same_ref[key]: return Loc(("hobj", ty, x), (), ty), f
        return None

    def unreachable(self, st):
        """Whether the solver refutes the path condition."""
        from . import solve
        fs = [c for _, c in st.pc]
        text = solve.to_smt2(solve.relevant_bg(solve.background(self), fs) + fs)
        return solve.run_z3(text, 3)[0] == "unsat" or solve.run_z3(text, 3, opts=("smt.mbqi=false",))[0] == "unsat"

    def dyn_of(self, ref):
        d = self.dyncls.get(ref.sexpr())
        if d is None and z3.is_app_of(ref, z3.Z3_OP_ITE):
            a, b = [None if z3.is_int_value(c) and c.as_long() == 0 else self.dyn_of(c) or "none" for c in ref.children()[1:]]
            d = a if b is None or a is b else (b if a is None else None)
            if d == "none": d = None
        return d

    def find_override(self, ty, fn):
        targets = {fn.key}
        todo = [fn.key]
        # Everything that (transitively) overrides fn.
        while todo:
            k = todo.pop()
            for o in self.prog.overriders.get(k, []):
                if o.key not in targets:
                    targets.add(o.key); todo.append(o.key)
        chain = [ty] + self.all_bases(ty)
        for t in chain:
            for k in targets:
                f = self.prog.fns[k]
                if f.record is not None and f.record.s == t.s: return f
        return fn

    def root_virtual(self, fn):
        while fn.overrides: fn = self.prog.fns[fn.overrides[0]]
        return fn

    def abstract_call(self, fn, this, args, st, node=None):
        """A call through an abstract interface: an uninterpreted function of the receiver and the arguments."""
        root = self.root_virtual(fn)
        c = self.contract_for(root) or self.contract_for(fn)
        if c is not None: return self.apply_contract(c, root, this, args, st, node)
        if not fn.constm: return self.abstract_mutator(root, this, args, st, node)
        self.used_virtual.add(root.q0)
        ts, ss = [], []
        if this.root[0] != "hobj": raise Unsupported("abstract call on value object")
        ts.append(this.root[2])
        for (pid, pn, pt), a in zip(root.params, args):
            ts.append(self.term(st, a, pt.deref()))
        rt = root.ret.deref()
        rs = self.sorts.sort(rt)
        f = self.func("V:" + root.q0 + ("#%d" % len(root.params) if root.params else ""), *[t.sort() for t in ts], rs)
        v = f(*ts)
        for w in self.wf(v, rt, st): st.fact(w)
        if root.ret.isref():
            if self.sorts.is_heap_class(rt):
                st.fact(v > 0)
                return [(st, Loc(("hobj", rt, v), (), rt))]
            return [(st, Loc(("term", v), (), rt))]
        return [(st, v)]

    def abstract_mutator(self, fn, this, args, st, node):
        raise Unsupported("non-const abstract call %s" % fn.q)

    def inline(self, fn, this, args, st, node=None, caps=None):
        if self.depth > self.MAX_INLINE: raise Unsupported("inlining depth (recursion) at %s" % fn.q)
        if sum(1 for f in self.curfn if f is fn) > 3: raise Unsupported("recursion in %s" % fn.q)
        self.inlined.add(fn)
        n = len(st.pc)
        st = st.copy()
        saved_frame, saved_this = st.frame, st.this
        self.frames += 1
        frame = self.frames
        st.frame, st.this = frame, this
        if caps:
            for k, v in caps.items(): st.env[(frame, int(k))] = v
        for (pid, pname, pty), a in zip(fn.params, args):
            st.env[(frame, pid)] = self.bind_param(st, a, pty)
        self.curfn.append(fn)
        self.depth += 1
        try:
            outs = self.ex(fn.body, st)
        finally:
            self.depth -= 1
            self.curfn.pop()
        res = []
        for s in outs:
            v = None
            if s.out is None or s.out[0] == "return":
                v = s.out[1] if s.out is not None else None
                if isinstance(v, Loc) and not fn.ret.isref(): v = self.read(s, v)
                if isinstance(v, Loc) and v.root[0] == "var" and v.root[1][0] == frame:
                    # Reference to a local (only temporaries bound to reference parameters): keep its value.
                    v = Loc(("term", self.read(s, v)), (), v.ty)
                s.out = None
            self.drop_frame(s, frame)
            s.frame, s.this = saved_frame, saved_this
            res.append((s, v))
        return self.merge_results(n, res)

    # ------------------------------------------------------------------ contracts
    def contract_for(self, fn):
        if fn.q0 in self.prog.pure and fn.ret.s != "void" and not fn.ret.isref(): return PureFn()
        if fn.q0 in self.prog.validators and fn.ret.s == "void": return ValidatorFn()
        c = self.contracts.get(fn.key)
        if c is not None and c.active(self): return c
        return None

    def apply_contract(self, c, fn, this, args, st, node):
        return c.apply(self, fn, this, args, st, node)

    def pure_call(self, fn, args, tys=None):
        """Evaluates a function as a pure term.  Returns (term, facts)."""
        st = self.new_state()
        self.suppress += 1
        try:
            rs = self.inline(fn, None, args, st)
        finally:
            self.suppress -= 1
        return self.pure_result(rs, 0)

    def pure_result(self, rs, n):
        facts = []
        normal = [(s, v) for s, v in rs if s.out is None and not s.infeasible()]
        if not normal: raise Unsupported("pure expression never returns")
        val = None
        for s, v in reversed(normal):
            ds = []
            for isd, c in s.pc[n:]:
                if isd: ds.append(c)
                else: facts.append(Implies(And(*ds), c) if ds else c)
            v = self.val(s, v)
            if not isinstance(v, z3.ExprRef): raise Unsupported("pure value %s" % type(v).__name__)
            val = v if val is None else If(And(*ds), v, val)
        return val, facts

    def new_state(self):
        st = St()
        st.env, st.heap, st.pc = {}, {}, []
        st.out, st.this = None, None
        self.frames += 1
        st.frame = self.frames
        st.next = z3.Int("next0")
        return st

    # ------------------------------------------------------------------ statements
    def ex(self, s, st):
        if s is None: return [st]
        m = getattr(self, "s_" + s["k"], None)
        if m is None: raise Unsupported("statement %s (%s)" % (s["k"], s.get("what")))
        return m(s, st)

    def s_null(self, s, st): return [st]

    def s_expr(self, s, st):
        return [x for x, _ in self.ev(s["e"], st)]

    def ex_list(self, stmts, st):
        states = [st]
        done = []
        for x in stmts:
            nxt = []
            for s in states:
                for o in self.ex(x, s):
                    if o.infeasible(): continue
                    (done if o.out is not None else nxt).append(o)
            states = nxt
            if not states: break
        return states + done

    def s_block(self, s, st):
        keys = set(st.env)
        outs = self.ex_list(s["s"], st)
        for o in outs:
            ret = o.out[1] if o.out is not None and o.out[0] == "return" else None
            keep = None
            if isinstance(ret, Loc) and ret.root[0] == "var": keep = ret.root[1]
            if not (o.out is not None and o.out[0] == "return"):
                for k in [k for k in o.env if k not in keys and k[0] == st.frame]: del o.env[k]
        return outs

    def s_decl(self, s, st):
        states = [st]
        for d in s["d"]:
            nxt = []
            for x in states:
                if x.out is not None: nxt.append(x)
                else: nxt += self.decl_var(d, x)
            states = nxt
        return states

    def decl_var(self, d, st):
        ty = self.tu.ty(d["t"])
        key = (st.frame, d["id"])
        if "bindings" in d: return self.decl_bindings(d, st)
        if "init" not in d:
            v = self.default_value(ty, st)
            st.env[key] = v
            return [st]
        if ty.isref():
            def f(s, l):
                s.env[key] = Alias(l)
                return [(s, None)]
            return [x for x, _ in self.bind(self.lv(d["init"], st), f)]
        def f(s, v):
            if isinstance(v, Loc) and v.root[0] == "hobj" and self.sorts.is_heap_class(ty):
                s.env[key] = Alias(v)
                return [(s, None)]
            s.env[key] = self.coerce(s, self.val(s, v), ty)
            return [(s, None)]
        return [x for x, _ in self.bind(self.ev(d["init"], st), f)]

    def decl_bindings(self, d, st):
        ty = self.tu.ty(d["t"])
        isref = ty.isref()
        bt = ty.deref()
        def f(s, l):
            if not isref:
                s.env[(s.frame, d["id"])] = self.read(s, l)
                l = Loc(("var", (s.frame, d["id"])), (), bt)
            self.bind_structured(s, d["bindings"], l, bt)
            return [(s, None)]
        return [x for x, _ in self.bind(self.lv(d["init"], st), f)]

    def bind_structured(self, s, bindings, l, bt):
        k = kind(bt)
        for i, b in enumerate(bindings):
            if k == "tup":
                loc = self.stl.pair_member(s, l, i, bt)
            elif k == "cls":
                fs = self.sorts.fields(bt)
                o, n, t = fs[i]
                loc = self.member(s, l, self.ty_named(o), n)
            elif k in ("arr", "array"):
                loc = l.add(("ai", i), bt.args[0] if k == "arr" else bt.to)
            else: raise Unsupported("structured binding of %s" % bt.s)
            s.env[(s.frame, b["id"])] = Alias(loc)

    def ty_named(self, s):
        from .prog import Ty
        return Ty.table[("rec", s)]

    def branch(self, st, c, f_then, f_else):
        c = self.simp(c)
        if z3.is_true(c): return f_then(st)
        if z3.is_false(c): return f_else(st)
        n = len(st.pc)
        s1, s2 = st.copy(), st
        s2 = st.copy()
        s1.dec(c); s2.dec(Not(c))
        outs = f_then(s1) + f_else(s2)
        return self.join(n, outs)

    def join(self, n, outs):
        """Merges fall-through states; exceptional ones per exception; others are kept."""
        outs = [o for o in outs if not o.infeasible()]
        normal = [o for o in outs if o.out is None]
        others = [o for o in outs if o.out is not None]
        res = []
        if len(normal) > 1: res += [s for s, _ in self.merge(n, normal)]
        else: res += normal
        thr = [o for o in others if o.out[0] == "throw"]
        res += self.merge_exc(n, thr) if len(thr) > 1 else thr
        for kind_ in ("break", "continue", "exit"):
            xs = [o for o in others if o.out[0] == kind_]
            res += [s for s, _ in self.merge(n, xs)] if len(xs) > 1 else xs
        res += [o for o in others if o.out[0] == "return"]
        return res

    def s_if(self, s, st):
        pre = [st]
        keys = set(st.env)
        if "init" in s: pre = self.ex(s["init"], st)
        out = []
        for x in pre:
            if x.out is not None: out.append(x); continue
            if s.get("constexpr") and "val" in s:
                if s["val"]: out += self.ex(s["then"], x)
                elif "else" in s: out += self.ex(s["else"], x)
                else: out.append(x)
                continue
            ys = [x]
            if "var" in s: ys = self.decl_var(s["var"], x)
            for y in ys:
                if y.out is not None: out.append(y); continue
                for y2, c in self.rv(s["c"], y):
                    if y2.out is not None: out.append(y2); continue
                    out += self.branch(y2, c, lambda z: self.ex(s["then"], z), lambda z: self.ex(s["else"], z) if "else" in s else [z])
        if "init" in s or "var" in s:
            for o in out:
                if not (o.out is not None and o.out[0] == "return"):
                    for k in [k for k in o.env if k not in keys and k[0] == st.frame]: del o.env[k]
        return out

    def s_return(self, s, st):
        if "e" not in s:
            st = st.copy()
            st.out = ("return", None)
            return [st]
        isref = self.curfn[-1].ret.isref()
        rs = self.lv(s["e"], st) if isref else self.rv(s["e"], st)
        out = []
        for x, v in rs:
            if x.out is None:
                x = x.copy()
                if not isref: v = self.coerce(x, v, self.curfn[-1].ret)
                x.out = ("return", v)
            out.append(x)
        return out

    def s_break(self, s, st):
        st = st.copy(); st.out = ("break",); return [st]

    def s_continue(self, s, st):
        st = st.copy(); st.out = ("continue",); return [st]

    def s_case(self, s, st): return self.ex(s["s"], st)
    def s_default(self, s, st): return self.ex(s["s"], st)

    def s_switch(self, s, st):
        pre = [st]
        if "init" in s: pre = self.ex(s["init"], st)
        out = []
        for x in pre:
            for y, c in self.rv(s["c"], x):
                if y.out is not None: out.append(y); continue
                out += self.do_switch(s["body"], c, y)
        return out

    def do_switch(self, body, c, st):
        stmts = body["s"] if body["k"] == "block" else [body]
        # Flatten nested case labels into (labels, stmt).
        flat = []
        for x in stmts:
            labels = []
            while isinstance(x, dict) and x["k"] in ("case", "default"):
                labels.append(x.get("v") if x["k"] == "case" else "default")
                x = x["s"]
            flat.append((labels, x))
        allv = [v for ls, _ in flat for v in ls if v != "default"]
        n = len(st.pc)
        outs = []
        entries = [(v, i) for i, (ls, _) in enumerate(flat) for v in ls]
        has_default = any(v == "default" for v, _ in entries)
        for v, i in entries:
            cond = And(*[c != w for w in allv]) if v == "default" else c == v
            cond = self.simp(cond)
            if z3.is_false(cond): continue
            s = st.copy().dec(cond)
            outs += self.ex_list([x for _, x in flat[i:] if x is not None], s)
        if not has_default:
            cond = self.simp(And(*[c != w for w in allv]))
            if not z3.is_false(cond): outs.append(st.copy().dec(cond))
        for o in outs:
            if o.out is not None and o.out[0] == "break": o.out = None
        return self.join(n, outs)

    def s_try(self, s, st):
        n = len(st.pc)
        outs = self.ex(s["body"], st)
        res = []
        for o in outs:
            if o.out is not None and o.out[0] == "throw":
                o.out = None
                h = s["handlers"][0]
                if "var" in h: o.env[(o.frame, h["var"]["id"])] = Opaque("exception")
                res += self.ex(h["body"], o)
            else: res.append(o)
        return self.join(n, res)

    # ------------------------------------------------------------------ loops
    def s_for(self, s, st):
        keys = set(st.env)
        pre = self.ex(s["init"], st) if "init" in s else [st]
        out = []
        for x in pre:
            if x.out is not None: out.append(x); continue
            def it(z, i):
                return self.cond_iter(z, s.get("c"), s["body"], s.get("inc"))
            out += self.loop(x, it, s)
        for o in out:
            if not (o.out is not None and o.out[0] == "return"):
                for k in [k for k in o.env if k not in keys and k[0] == st.frame]: del o.env[k]
        return out

    def cond_iter(self, z, cond, body, inc, var=None):
        keys = set(z.env)
        n = len(z.pc)
        outs = []
        ys = [z]
        if var is not None: ys = self.decl_var(var, z)
        for y in ys:
            if y.out is not None: outs.append(y); continue
            conds = self.rv(cond, y) if cond is not None else [(y, TRUE)]
            for y2, c in conds:
                if y2.out is not None: outs.append(y2); continue
                c = self.simp(c)
                if not z3.is_true(c):
                    e = y2.copy().dec(Not(c)); e.out = ("exit",)
                    outs.append(e)
                if z3.is_false(c): continue
                b = y2.copy().dec(c)
                for o in self.ex(body, b):
                    if o.out is not None and o.out[0] == "continue": o.out = None
                    outs.append(o)
        outs = self.join(n, outs)
        if inc is not None:
            res = []
            for o in outs:
                if o.out is None: res += [x for x, _ in self.ev(inc, o)]
                else: res.append(o)
            outs = res
        for o in outs:
            if not (o.out is not None and o.out[0] == "return"):
                for k in [k for k in o.env if k not in keys and k[0] == z.frame]: del o.env[k]
        return outs

    def s_while(self, s, st):
        def it(z, i):
            return self.cond_iter(z, s["c"], s["body"], None, s.get("var"))
        return self.loop(st, it, s)

    def s_do(self, s, st):
        def it(z, i):
            n = len(z.pc)
            outs = []
            keys = set(z.env)
            for o in self.ex(s["body"], z):
                if o.out is not None and o.out[0] == "continue": o.out = None
                outs.append(o)
            outs = self.join(n, outs)
            res = []
            for o in outs:
                if o.out is not None: res.append(o); continue
                for y, c in self.rv(s["c"], o):
                    if y.out is not None: res.append(y); continue
                    c = self.simp(c)
                    if not z3.is_true(c):
                        e = y.copy().dec(Not(c)); e.out = ("exit",); res.append(e)
                    if not z3.is_false(c): res.append(y.copy().dec(c))
            for o in res:
                if not (o.out is not None and o.out[0] == "return"):
                    for k in [k for k in o.env if k not in keys and k[0] == z.frame]: del o.env[k]
            return res
        return self.loop(st, it, s)

    def s_forrange(self, s, st):
        keys = set(st.env)
        pre = self.ex(s["init"], st) if "init" in s else [st]
        out = []
        for x in pre:
            if x.out is not None: out.append(x); continue
            rty = self.tu.ty(s["range"]["t"]).deref()
            for y, r in self.ev(s["range"], x):
                if y.out is not None: out.append(y); continue
                if isinstance(r, z3.ExprRef) or isinstance(r, Lst): r = self.tmp_loc(y, r, rty)
                out += self.range_loop(s, y, r, rty)
        for o in out:
            if not (o.out is not None and o.out[0] == "return"):
                for k in [k for k in o.env if k not in keys and k[0] == st.frame]: del o.env[k]
        return out

    def range_loop(self, s, st, r, rty):
        n, elem = self.stl.iteration(st, r, rty)     # n: term or int; elem(st, i) -> Loc/value
        var = s["var"]
        def it(z, i):
            keys = set(z.env)
            outs = []
            c = self.simp(i < n)
            if not z3.is_true(c):
                e = z.copy().dec(Not(c)); e.out = ("exit",); outs.append(e)
            if not z3.is_false(c):
                b = z.copy().dec(c)
                el = elem(b, i)
                self.bind_loop_var(b, var, el)
                for o in self.ex(s["body"], b):
                    if o.out is not None and o.out[0] == "continue": o.out = None
                    outs.append(o)
            outs = self.join(len(z.pc), outs)
            for o in outs:
                if not (o.out is not None and o.out[0] == "return"):
                    for k in [k for k in o.env if k not in keys and k[0] == z.frame]: del o.env[k]
            return outs
        return self.loop(st, it, s, container=(r, rty, n))

    def bind_loop_var(self, st, var, el):
        ty = self.tu.ty(var["t"])
        if "bindings" in var:
            if not isinstance(el, Loc): el = self.tmp_loc(st, el, ty.deref())
            self.bind_structured(st, var["bindings"], el, ty.deref())
            return
        key = (st.frame, var["id"])
        if ty.isref():
            if not isinstance(el, Loc): el = self.tmp_loc(st, el, ty.to)
            # Converting references (e.g. pair<const K,V> to a value) keep the location.
            st.env[key] = Alias(el)
        else:
            st.env[key] = self.coerce(st, self.stl.read_elem(st, el, ty), ty)

    # The loop engine -----------------------------------------------------------------
    UNROLL = 40

    def loop(self, st, it, node, container=None):
        from .loops import run_loop
        return run_loop(self, st, it, node, container)


class _Ctx:
    """Stands in for a function when only its translation unit matters."""
    def __init__(self, tu):
        self.tu = tu
        self.file, self.line, self.q = "", 0, ""
        self.ret = None
