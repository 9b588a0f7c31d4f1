"""Loops: full unrolling when the trip count is concrete, bounded unrolling in counterexample mode, and otherwise an unbounded
summary: the state before iteration i is a (skolem) function of i constrained by closed forms, proved inductive invariants and
the step relation; facts of every completed iteration are universally quantified."""
import os
import z3
from .sorts import Unsupported, kind, I, R, B
from .core import Loc, PtrTo, Alias, Iter, Ins, Lst, Opaque, And, Or, Not, If, Implies, TRUE, FALSE, same, is_lit

UNROLL = 40
DEBUG = bool(os.environ.get("VERIF_DEBUG"))


def iv(n): return z3.IntVal(n)


def pattern_ok(p):
    """Patterns contain no Boolean structure."""
    if z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return False
    return all(pattern_ok(c) for c in p.children())


def forall_p(vs, body, patterns=()):
    ids = [v.get_id() for v in vs]
    ok = [p for p in patterns if not isinstance(p, z3.ExprRef) or (pattern_ok(p) and z3.is_app(p) and p.num_args() > 0 and all(contains(p, {i}) for i in ids))]
    if len(ok) != len(patterns): return z3.ForAll(vs, body)
    return z3.ForAll(vs, body, patterns=list(patterns))


def finish(eng, s, k, i, fin):
    if fin is not None and s.out is None: fin(s, k, i)
    return s


def classify(eng, outs, i, fin, done):
    """Splits iteration outcomes into continuing states and finished ones (appended to done)."""
    normal = []
    for o in outs:
        if o.infeasible(): continue
        if o.out is None: normal.append(o)
        elif o.out[0] in ("exit", "break"):
            k = o.out[0]
            o.out = None
            if fin is not None: fin(o, k, i)
            done.append(o)
        else: done.append(o)
    return normal


def run_loop(eng, st, it, node, container=None, fin=None, n=None):
    base = len(st.pc)
    nob = len(eng.obls)
    if container is not None: n = container[2]
    # 1. Concrete trip count.
    if n is None or z3.is_int_value(z3.simplify(n)):
        r = unroll(eng, st.copy(), it, fin, UNROLL, concrete=(n is not None))
        if r is not None: return join_done(eng, base, r)
        del eng.obls[nob:]
    if eng.bound_k is not None:
        r = unroll(eng, st.copy(), it, fin, eng.bound_k + 1, cut=True)
        return join_done(eng, base, r)
    return Summary(eng, st, it, node, fin, n).run()


def join_done(eng, base, outs):
    return eng.join(base, outs)


def unroll(eng, st, it, fin, limit, cut=False, concrete=True):
    """Returns the finished states, or None when the loop is not concrete within the limit (unless cut)."""
    done = []
    cur = [st]
    for i in range(limit + (1 if not cut else 0)):
        nxt = []
        for s in cur:
            outs = it(s.copy(), iv(i))
            if not cut:
                has_exit = any(o.out is not None and o.out[0] == "exit" and not o.infeasible() for o in outs)
                has_norm = any(o.out is None and not o.infeasible() for o in outs)
                if has_exit and has_norm: return None
                if not concrete and i >= 1 and any(o.out is not None and o.out[0] in ("break", "return") for o in outs) and has_norm and i > 8: return None
            nxt += classify(eng, outs, iv(i), fin, done)
        cur = nxt
        if not cur: return done
    if cut:
        eng.loops_bounded += 1
        return done
    return None


# ------------------------------------------------------------------ leaves of modified state
def expand(eng, term, path=()):
    """Leaves of a product-datatype term: [(path, leaf term)]."""
    d = eng.sorts.dt_of(term) if isinstance(term, z3.ExprRef) else None
    if d is None or not d.accs: return [(path, term)]
    out = []
    for i in range(len(d.accs)): out += expand(eng, d.get(term, i), path + (i,))
    return out


def rebuild(eng, term, leaves, path=()):
    """Replaces leaves (dict path -> term)."""
    if path in leaves: return leaves[path]
    if not any(p[:len(path)] == path for p in leaves): return term
    d = eng.sorts.dt_of(term)
    return d.mk(*[rebuild(eng, d.get(term, i), leaves, path + (i,)) for i in range(len(d.accs))])


def ite_leaves(t, cond=()):
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.arg(0), t.arg(1), t.arg(2)
        return ite_leaves(a, cond + (c,)) + ite_leaves(b, cond + (Not(c),))
    return [(And(*cond) if cond else TRUE, t)]


def subst(t, *pairs):
    return z3.substitute(t, *pairs)


def contains(t, syms):
    """Does t mention one of the terms (by id)?"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in syms: return True
        if z3.is_quantifier(x): todo.append(x.body())
        elif z3.is_app(x): todo.extend(x.children())
    return False


class Leaf:
    __slots__ = ("kind", "key", "path", "init", "sym", "closed", "info", "ref", "sort", "mode", "ety")


class Summary:
    def __init__(self, eng, st, it, node, fin, n):
        self.e, self.st, self.it, self.node, self.fin, self.n = eng, st, it, node, fin, n
        self.i = eng.fresh("it", I)
        eng.nn[self.i.get_id()] = self.i
        self.leaves = {}          # (kind, key, path) -> Leaf
        self.base = len(st.pc)
        self.lits = None

    # -------- current havocked state
    def state(self):
        s = self.st.copy()
        by = {}
        for (k, key, path), lf in self.leaves.items(): by.setdefault((k, key), {})[path] = lf
        for (k, key), ls in by.items():
            if k == "env":
                old = self.st.env[key]
                if isinstance(old, Iter):
                    lf = ls[("idx",)]
                    s.env[key] = Iter(old.kind, old.cont, old.cty, lf.cur())
                else:
                    s.env[key] = rebuild(self.e, old, {p: lf.cur() for p, lf in ls.items()})
            elif k == "heap":
                h0 = self.heap0(key)
                if ("all",) in ls: s.heap[key] = ls[("all",)].cur()
                else:
                    refs = {}
                    for p, lf in ls.items(): refs.setdefault(p[0], {})[p[1:]] = lf
                    h = h0
                    for rk, sub in refs.items():
                        ref = next(iter(sub.values())).ref
                        h = z3.Store(h, ref, rebuild(self.e, z3.Select(h0, ref), {p: lf.cur() for p, lf in sub.items()}))
                    s.heap[key] = h
            elif k == "next": s.next = ls[()].cur()
        return s

    def heap0(self, key):
        h = self.st.heap.get(key)
        if h is None:
            h = self.heap_init[key]
        return h

    def add_leaf(self, k, key, path, init, ref=None):
        kk = (k, key, path)
        if kk in self.leaves: return False
        lf = CurLeaf(self, kk, init, ref)
        self.leaves[kk] = lf
        return True

    # -------- discovery
    def discover(self):
        e = self.e
        for _ in range(12):
            s0 = self.state()
            e.bstack.append(self.i)
            e.suppress += 1
            try:
                outs = self.it(s0.copy().fact(self.i >= 0), self.i)
            finally:
                e.suppress -= 1
                e.bstack.pop()
            normal = [o for o in outs if o.out is None and not o.infeasible()]
            changed = False
            for o in normal: changed |= self.diff(s0, o)
            if not changed: return
        raise Unsupported("loop state does not stabilise")

    def diff(self, s0, o):
        e = self.e
        ch = False
        for key, old in s0.env.items():
            new = o.env.get(key)
            if new is None or new is old: continue
            if isinstance(old, z3.ExprRef) and isinstance(new, z3.ExprRef):
                if old.eq(new): continue
                init = dict(expand(e, self.st.env[key]))
                n2 = dict(expand(e, new))
                for p, t in expand(e, old):
                    if p not in n2 or not n2[p].eq(t):
                        if ("env", key, p) not in self.leaves: ch |= self.add_leaf("env", key, p, init[p])
            elif isinstance(old, Iter) and isinstance(new, Iter) and same(old.cont, new.cont):
                if not old.idx.eq(new.idx): ch |= self.add_leaf("env", key, ("idx",), self.st.env[key].idx)
            elif same(old, new): continue
            elif isinstance(old, Opaque) or isinstance(new, Opaque): continue
            else: raise Unsupported("loop changes a %s variable" % type(old).__name__)
        for key, new in o.heap.items():
            old = s0.heap.get(key)
            if old is None:
                old = z3.Const("H:" + "/".join(key), new.sort())
                self.heap_init.setdefault(key, old)
                s0.heap.setdefault(key, old)
            if old.eq(new): continue
            if ("heap", key, ("all",)) in self.leaves: continue
            refs = self.store_refs(old, new)
            bad = refs is None
            syms = {lf.sym.get_id() for lf in self.leaves.values()} | {self.i.get_id()}
            if not bad:
                for r in refs:
                    if contains(r, syms): bad = True
            if bad:
                for kk in [kk for kk in self.leaves if kk[0] == "heap" and kk[1] == key]: del self.leaves[kk]
                self.add_leaf("heap", key, ("all",), self.heap0(key))
                ch = True
                continue
            h0 = self.heap0(key)
            for r in refs:
                rk = r.sexpr()
                init = dict(expand(e, z3.Select(h0, r)))
                a, b = dict(expand(e, z3.simplify(z3.Select(old, r)) if False else self.sel(old, r))), dict(expand(e, self.sel(new, r)))
                for p, t in a.items():
                    if p not in b or not b[p].eq(t):
                        if ("heap", key, (rk,) + p) not in self.leaves:
                            # paths of distinct granularity for one cell are merged by rebuild
                            ch |= self.add_leaf("heap", key, (rk,) + p, init.get(p), r)
        if not same(s0.next, o.next): ch |= self.add_leaf("next", "next", (), self.st.next)
        return ch

    def sel(self, h, r):
        """Select through Store/ITE structure syntactically."""
        if z3.is_app_of(h, z3.Z3_OP_STORE):
            if h.arg(1).eq(r): return h.arg(2)
            inner = self.sel(h.arg(0), r)
            return If(h.arg(1) == r, h.arg(2), inner)
        if z3.is_app_of(h, z3.Z3_OP_ITE):
            return If(h.arg(0), self.sel(h.arg(1), r), self.sel(h.arg(2), r))
        return z3.Select(h, r)

    def store_refs(self, old, new):
        """References at which new differs from old (as Store chains over old), or None."""
        if new.eq(old): return []
        if z3.is_app_of(new, z3.Z3_OP_STORE):
            r = self.store_refs(old, new.arg(0))
            if r is None: return None
            k = new.arg(1)
            return r if any(k.eq(x) for x in r) else r + [k]
        if z3.is_app_of(new, z3.Z3_OP_ITE):
            a, b = self.store_refs(old, new.arg(1)), self.store_refs(old, new.arg(2))
            if a is None or b is None: return None
            return a + [x for x in b if not any(x.eq(y) for y in a)]
        # old itself may be a store chain (havocked cells)
        if z3.is_app_of(old, z3.Z3_OP_STORE) and new.eq(old.arg(0)): return None
        return None

    # -------- main
    def run(self):
        e = self.e
        self.heap_init = {}
        nob = len(e.obls)
        self.discover()
        self.close_counters()
        # Final pass.
        s0 = self.state()
        e.bstack.append(self.i)
        try:
            outs = self.it(s0.copy().fact(self.i >= 0), self.i)
        finally:
            e.bstack.pop()
        normal = [o for o in outs if o.out is None and not o.infeasible()]
        self.new = self.step_values(s0, normal)
        N = Or(*[And(*[c for (_, c) in o.pc[self.base:]]) for o in normal])
        facts = self.closed_forms(N)
        facts += self.user_invariants(s0, normal, N, facts)
        i = self.i
        pre = list(facts)
        j = z3.Const("j!%d" % self.uid(), I)
        if normal:
            Nj = subst(N, (i, j))
            if not z3.is_true(Nj):
                pre.append(self.forall_iter(j, Nj))
                im = i - 1
                pre.append(Implies(i >= 1, subst(N, (i, im))))
        else:
            pre.append(i == 0)
        # insert the prefix facts into every obligation and exit state of this pass
        ins = [(False, f) for f in pre]
        for o in e.obls[nob:]: o.pc[self.base:self.base] = ins
        done = []
        classify(e, outs, i, self.fin, done)
        for o in done: o.pc[self.base:self.base] = ins
        return e.join(self.base, done)

    def close_counters(self):
        """Integer variables that change by a constant in every iteration are replaced by their value as a function of the iteration."""
        e = self.e
        s0 = self.state()
        e.bstack.append(self.i)
        e.suppress += 1
        try: outs = self.it(s0.copy().fact(self.i >= 0), self.i)
        finally:
            e.suppress -= 1
            e.bstack.pop()
        normal = [o for o in outs if o.out is None and not o.infeasible()]
        if not normal: return
        self.new = self.step_values(s0, normal)
        self.lits = None
        for kk, lf in self.leaves.items():
            if lf.sym.sort() != I: continue
            d = z3.simplify(self.new[kk] - lf.sym)
            if not z3.is_int_value(d): continue
            lf.sym = z3.simplify(lf.init + self.i * d)
            lf.closed = True

    def uid(self):
        self.e.nfresh += 1
        return self.e.nfresh

    def forall_iter(self, j, body, upto=None):
        return z3.ForAll([j], Implies(And(j >= 0, j < (upto if upto is not None else self.i)), body))

    def leaf_of(self, o, lf):
        k, key, path = lf.kk
        e = self.e
        if k == "env":
            v = o.env[key]
            if isinstance(v, Iter): return v.idx
            for x in path: v = e.sorts.dt_of(v).get(v, x)
            return v
        if k == "next": return o.next
        h = o.heap[key] if key in o.heap else self.heap0(key)
        if path == ("all",): return h
        v = self.sel(h, lf.ref)
        for x in path[1:]: v = e.sorts.dt_of(v).get(v, x)
        return v

    def step_values(self, s0, normal):
        """New value of each leaf after a normally completed iteration."""
        out = {}
        for kk, lf in self.leaves.items():
            v = None
            for o in reversed(normal):
                t = self.leaf_of(o, lf)
                if v is None: v = t
                else:
                    D = And(*[c for (d, c) in o.pc[self.base:] if d])
                    v = If(D, t, v)
            out[kk] = self.tidy(v, normal) if v is not None else lf.sym
        return out

    def tidy(self, v, normal):
        """The value simplified by the literals known of every normally completed iteration."""
        v = z3.simplify(v)
        if len(normal) != 1: return v
        if self.lits is None:
            self.lits = []
            todo = [z3.simplify(c) for _, c in normal[0].pc[self.base:]]
            while todo:
                c = todo.pop()
                if z3.is_and(c): todo.extend(c.children())
                elif z3.is_not(c):
                    if z3.is_or(c.arg(0)): todo.extend([z3.simplify(Not(x)) for x in c.arg(0).children()])
                    elif not z3.is_quantifier(c.arg(0)): self.lits.append((c.arg(0), FALSE))
                elif z3.is_app(c) and not z3.is_true(c) and not z3.is_false(c) and c.num_args() and not z3.is_or(c): self.lits.append((c, TRUE))
        w = z3.simplify(subst(v, *self.lits)) if self.lits else v
        return w

    def closed_forms(self, N):
        e, i = self.e, self.i
        facts = []
        syms = {lf.sym.get_id() for lf in self.leaves.values()}
        others = lambda lf: {x.sym.get_id() for x in self.leaves.values()}
        done = set()
        # vectors: (len, arr) sibling leaves
        for kk, lf in list(self.leaves.items()):
            if kk in done or lf.closed: continue
            S, v = lf.sym, self.new[kk]
            S0 = lf.init
            sort = S.sort()
            facts_start = len(facts)
            # initial value: S(0) = init
            facts.append(subst(S, (i, iv(0))) == S0)
            if sort in (I, R):
                c = self.const_step(S, v, syms)
                if c is not None:
                    facts.append(S == S0 + (z3.ToReal(i) * c if sort == R else i * c))
                    facts.append(self.at_j(lambda j: subst(S, (i, j)) == S0 + (z3.ToReal(j) * c if sort == R else j * c), S))
                    lf.closed = True
                    continue
                d = self.delta(S, v)
                if d is not None and not contains(d, {S.get_id()}):
                    g = self.accumulate(S, d, S0, sort)
                    facts += g
                    lf.closed = True
                    if len(self.leaves_len_pair(kk)) == 0: continue
            if sort == B:
                f = self.bool_form(S, v, S0)
                if f is not None:
                    facts += f
                    lf.closed = True
                    continue
            if isinstance(sort, z3.ArraySortRef):
                f = self.array_form(kk, lf, S, v, S0)
                if f is None and contains(v, {S.get_id()}): facts += self.grow_form(kk, S, v, S0, N, facts)
                if f is not None:
                    facts += f
                    lf.closed = True
                    continue
            # v' does not mention S: last written value
            if not contains(v, {S.get_id()}) :
                facts.append(Implies(i >= 1, S == subst(v, (i, i - 1))))
            # step relation
            j = z3.Const("js!%d" % self.uid(), I)
            Sj1 = subst(S, (i, j + 1))
            facts.append(z3.ForAll([j], Implies(And(j >= 0, j < i), Sj1 == subst(v, (i, j)))))
            facts += self.selected_form(kk, lf, S, v, S0, N)
        # type facts of the havocked variables
        facts += self.type_facts()
        return facts

    def at_j(self, mk, S):
        j = z3.Const("jc!%d" % self.uid(), I)
        t = subst(S, (self.i, j))
        body = mk(j)
        try:
            return forall_p([j], Implies(j >= 0, body), patterns=[t])
        except z3.Z3Exception:
            return z3.ForAll([j], Implies(j >= 0, body))

    def leaves_len_pair(self, kk): return []

    def const_step(self, S, v, syms):
        d = z3.simplify(v - S)
        if z3.is_int_value(d) or z3.is_rational_value(d): return d
        if not contains(d, syms | {self.i.get_id()}) and not self.has_iter_symbol(d): return d
        return None

    def has_iter_symbol(self, t):
        return contains(t, {self.i.get_id()})

    def delta(self, S, v):
        """v = S + d with d not mentioning S (through ite trees)."""
        ls = ite_leaves(v)
        ds = []
        for c, t in ls:
            d = z3.simplify(t - S)
            if contains(d, {S.get_id()}): return None
            ds.append((c, d))
        if any(contains(c, {S.get_id()}) for c, _ in ds): return None
        r = ds[-1][1]
        for c, d in reversed(ds[:-1]): r = If(c, d, r)
        return r

    def accumulate(self, S, d, S0, sort):
        e, i = self.e, self.i
        facts = []
        if sort == R:
            f = e.stl.sum_fn(d, i) if False else None
        e.bstack.append(i)
        try:
            x = i
            fn = e.stl.sum_fn_sorted(d, x, sort)
        finally:
            e.bstack.pop()
        facts.append(S == S0 + fn(i))
        facts.append(self.at_j(lambda j: subst(S, (i, j)) == S0 + fn(j), S))
        facts.append(fn(iv(0)) == 0)
        # unfolding of the last iteration
        facts.append(Implies(i >= 1, fn(i) == fn(i - 1) + subst(d, (i, i - 1))))
        # sums of non-negative terms are monotone: proved per loop from the step (sound for any sign information given by the solver)
        jj = z3.Const("jm!%d" % self.uid(), I)
        nonneg = z3.ForAll([jj], Implies(And(jj >= 0, jj < i), subst(d, (i, jj)) >= 0))
        kk = z3.Const("km!%d" % self.uid(), I)
        facts.append(Implies(nonneg, forall_p([kk], Implies(And(kk >= 0, kk <= i), And(fn(kk) >= 0, fn(kk) <= fn(i))), patterns=[fn(kk)])))
        return facts

    def bool_form(self, S, v, S0):
        i = self.i
        g1 = z3.simplify(subst(v, (S, TRUE)))
        g0 = z3.simplify(subst(v, (S, FALSE)))
        j = z3.Const("jb!%d" % self.uid(), I)
        def ex(p): return z3.Exists([j], And(j >= 0, j < i, subst(p, (i, j))))
        def fa(p): return z3.ForAll([j], Implies(And(j >= 0, j < i), subst(p, (i, j))))
        if z3.is_true(g1):
            if z3.is_false(g0): return [S == S0]
            w = self.e.fresh("wit", I)
            # S(i) <=> S0 or exists j<i g0(j), for every i
            k = z3.Const("kb!%d" % self.uid(), I)
            return [S == Or(S0, ex(g0)), self.at_j(lambda q: subst(S, (i, q)) == subst(Or(S0, ex(g0)), (i, q)), S)]
        if z3.is_false(g0):
            return [S == And(S0, fa(g1)), self.at_j(lambda q: subst(S, (i, q)) == subst(And(S0, fa(g1)), (i, q)), S)]
        return None

    def array_form(self, kk, lf, S, v, S0):
        """push_back into vectors, insertion into sets and maps."""
        e, i = self.e, self.i
        k, key, path = kk
        # vector: sibling length leaf
        sib = None
        if path:
            lk = (k, key, path[:-1] + (0,))
            if path[-1] == 1 and lk in self.leaves and self.leaves[lk].sym.sort() == I and S.sort().domain() == I: sib = lk
        if sib is not None:
            L = self.leaves[sib].sym
            r = self.push_form(S, v, S0, L, self.new[sib], self.leaves[sib].init)
            if r is not None: return r
        # element updates at the iteration index: arr' = Store(S, e(i), x(i))
        r = self.update_form(S, v, S0)
        return r

    def push_form(self, S, v, S0, L, lv, L0):
        """len' = len + (c ? 1 : 0), arr' = c ? Store(arr, len, x) : arr."""
        i = self.i
        conds, vals = [], []
        for c, t in ite_leaves(v):
            if t.eq(S): continue
            if z3.is_app_of(t, z3.Z3_OP_STORE) and t.arg(0).eq(S) and z3.simplify(t.arg(1)).eq(z3.simplify(L)):
                conds.append(c); vals.append(t.arg(2))
            else: return None
        cl = []
        for c, t in ite_leaves(lv):
            d = z3.simplify(t - L)
            if z3.is_int_value(d) and d.as_long() == 0: continue
            if z3.is_int_value(d) and d.as_long() == 1: cl.append(c)
            else: return None
        c1, c2 = z3.simplify(Or(*conds)), z3.simplify(Or(*cl))
        if not c1.eq(c2):
            s = z3.Solver(); s.set("timeout", 10000)
            s.add(c1 != c2)
            if s.check() != z3.unsat: return None
        C = c1
        X = vals[-1]
        for c, x in reversed(list(zip(conds[:-1], vals[:-1]))): X = If(c, x, X)
        if contains(X, {S.get_id()}) or contains(C, {S.get_id()}): return None
        j = z3.Const("jp!%d" % self.uid(), I)
        m = z3.Const("mp!%d" % self.uid(), I)
        at = lambda t, q: subst(t, (i, q))
        e = self.e
        facts = []
        outer = list(e.bstack)
        if z3.is_true(C):
            # arr(i)[L0 + j] = X(j)
            pat = z3.Select(S, m)
            facts.append(forall_p([m], Implies(And(m >= L0, m < L0 + i), z3.Select(S, m) == at(X, m - L0)), patterns=[pat]))
            facts.append(forall_p([m], Implies(m < L0, z3.Select(S, m) == z3.Select(S0, m)), patterns=[pat]))
            facts.append(z3.ForAll([j], Implies(And(j >= 0, j < i), z3.Select(S, L0 + j) == at(X, j))))
            return facts
        src = e.func("src!%d" % self.uid(), *[b.sort() for b in outer], I, I)
        dst = e.func("dst!%d" % self.uid(), *[b.sort() for b in outer], I, I)
        s_, d_ = (lambda t: src(*outer, t)), (lambda t: dst(*outer, t))
        pat = z3.Select(S, m)
        facts.append(And(L >= L0, L <= L0 + i))
        facts.append(forall_p([m], Implies(m < L0, z3.Select(S, m) == z3.Select(S0, m)), patterns=[pat]))
        facts.append(forall_p([m], Implies(And(m >= L0, m < L), And(s_(m) >= 0, s_(m) < i, at(C, s_(m)), z3.Select(S, m) == at(X, s_(m)), d_(s_(m)) == m)), patterns=[pat]))
        facts.append(forall_p([j], Implies(And(j >= 0, j < i, at(C, j)), And(d_(j) >= L0, d_(j) < L, s_(d_(j)) == j, z3.Select(S, d_(j)) == at(X, j))),
                               patterns=[d_(j)]) if False else
                     z3.ForAll([j], Implies(And(j >= 0, j < i, at(C, j)), And(d_(j) >= L0, d_(j) < L, s_(d_(j)) == j, z3.Select(S, d_(j)) == at(X, j)))))
        # order is kept
        m2 = z3.Const("mq!%d" % self.uid(), I)
        facts.append(forall_p([m, m2], Implies(And(m >= L0, m < m2, m2 < L), s_(m) < s_(m2)), patterns=[z3.MultiPattern(s_(m), s_(m2))]))
        # length as a count, for any earlier iteration
        q = z3.Const("qp!%d" % self.uid(), I)
        facts.append(z3.ForAll([q], Implies(And(q >= 0, q < i), subst(lv, (i, q)) == subst(L, (i, q + 1)))))
        return facts

    def inductive(self, N, facts, goal):
        """Whether the goal about one iteration follows from the start of the loop, what is known of the iteration and its outcome."""
        from . import solve
        e = self.e
        if e.suppress: return False
        fs = [c for _, c in self.st.pc] + list(facts) + [self.i >= 0, N, Not(goal)]
        text = solve.to_smt2(solve.relevant_bg(solve.background(e), fs) + fs)
        for t, opts in ((3, ("smt.mbqi=false",)), (5, ())):
            if solve.run_z3(text, t, opts=opts)[0] == "unsat":
                return True
        if DEBUG: print("    not inductive:", z3.simplify(goal).sexpr()[:300])
        return False

    def grow_form(self, kk, S, v, S0, N, facts):
        """Containers written in inner loops or calls: what an iteration keeps (proved inductive here), and the iteration that
        introduced an element."""
        e, i = self.e, self.i
        k, key, path = kk
        at = lambda t, q: subst(t, (i, q))
        outer = list(e.bstack)
        dom, rng = S.sort().domain(), S.sort().range()
        sib = self.leaves.get((k, key, path[:-1] + (0,))) if path else None
        q = z3.Const("qg!%d" % self.uid(), I)
        x = z3.Const("xg!%d" % self.uid(), dom)
        x0 = e.fresh("xg", dom) if not outer else z3.Const("xg0!%d" % self.uid(), dom)
        out = []
        rngq = And(q >= 0, q <= i)
        if rng == B:
            w = e.func("grew!%d" % self.uid(), *[b.sort() for b in outer], I, dom, I)
            W = w(*outer, i, x)
            out.append(forall_p([x], Implies(z3.Select(S, x), Or(z3.Select(S0, x), And(W >= 0, W < i, Not(z3.Select(at(S, W), x)), z3.Select(at(v, W), x), z3.Select(at(S, W + 1), x)))),
                                 patterns=[z3.Select(S, x)]))
            if self.inductive(N, facts, Implies(z3.Select(S, x0), z3.Select(v, x0))):
                out.append(forall_p([q, x], Implies(And(rngq, z3.Select(at(S, q), x)), z3.Select(S, x)), patterns=[z3.Select(at(S, q), x)]))
            return out
        if sib is None or path[-1] != 1: return out
        D = sib.sym
        if isinstance(D.sort(), z3.ArraySortRef) and D.sort().range() == B and D.sort().domain() == dom:
            has = lambda t, y: z3.Select(t, y)
            if self.inductive(N, facts, Implies(has(D, x0), And(has(self.new[sib.kk], x0), z3.Select(v, x0) == z3.Select(S, x0)))):
                out.append(forall_p([q, x], Implies(And(rngq, has(at(D, q), x)), And(has(D, x), z3.Select(S, x) == z3.Select(at(S, q), x))),
                                     patterns=[has(at(D, q), x)]))
        elif D.sort() == I and dom == I and path[-1] == 1:
            lv = self.new[sib.kk]
            if self.inductive(N, facts, And(D <= lv, Implies(And(x0 >= 0, x0 < D), z3.Select(v, x0) == z3.Select(S, x0)))):
                Dq = at(D, q)
                out.append(forall_p([q], Implies(rngq, And(Dq >= sib.init, Dq <= D)), patterns=[Dq]))
                out.append(And(sib.init <= D))
                out.append(forall_p([q, x], Implies(And(rngq, x >= 0, x < Dq), z3.Select(S, x) == z3.Select(at(S, q), x)), patterns=[z3.Select(at(S, q), x)]))
                out.append(forall_p([x], Implies(And(x >= 0, x < sib.init), z3.Select(S, x) == z3.Select(S0, x)), patterns=[z3.Select(S, x)]))
                w = e.func("grew!%d" % self.uid(), *[b.sort() for b in outer], I, I, I)
                W = w(*outer, i, x)
                out.append(forall_p([x], Implies(And(x >= sib.init, x < D), And(W >= 0, W < i, at(D, W) <= x, x < at(lv, W), at(D, W + 1) == at(lv, W),
                                                                                   z3.Select(S, x) == z3.Select(at(v, W), x))), patterns=[z3.Select(S, x)]))
        return out

    def update_form(self, S, v, S0):
        i, e = self.i, self.e
        ls = ite_leaves(v)
        ups = []
        for c, t in ls:
            if t.eq(S): continue
            chain = []
            x = t
            while z3.is_app_of(x, z3.Z3_OP_STORE):
                chain.append((x.arg(1), x.arg(2)))
                x = x.arg(0)
            if not x.eq(S) or len(chain) != 1: return None
            ups.append((c, chain[0][0], chain[0][1]))
        if not ups: return [S == S0]
        C = z3.simplify(Or(*[c for c, _, _ in ups]))
        K, X = ups[-1][1], ups[-1][2]
        for c, k, x in reversed(ups[:-1]): K, X = If(c, k, K), If(c, x, X)
        # writing True where it already holds is the same as not writing
        C2 = C
        if S.sort().range() == B and z3.is_true(z3.simplify(X)):
            C2 = z3.simplify(subst(C, (z3.Select(S, K), FALSE)))
            if contains(C2, {S.get_id()}): C2 = C
        elif S.sort().range() == B and z3.is_false(z3.simplify(X)):
            C2 = z3.simplify(subst(C, (z3.Select(S, K), TRUE)))
            if contains(C2, {S.get_id()}): C2 = C
        if contains(K, {S.get_id()}): return None
        at = lambda t, q: subst(t, (i, q))
        ks = S.sort().domain()
        x = z3.Const("kx!%d" % self.uid(), ks)
        outer = list(e.bstack)
        w = e.func("lastw!%d" % self.uid(), *[b.sort() for b in outer], I, ks, I)
        W = w(*outer, i, x)
        j = z3.Const("ju!%d" % self.uid(), I)
        pat = z3.Select(S, x)
        def form():
            wrote = And(W >= 0, W < i, at(C2, W), at(K, W) == x, z3.Select(S, x) == at(X, W),
                        z3.ForAll([j], Implies(And(j > W, j < i), Not(And(at(C2, j), at(K, j) == x)))))
            kept = And(z3.Select(S, x) == z3.Select(S0, x), z3.ForAll([j], Implies(And(j >= 0, j < i), Not(And(at(C2, j), at(K, j) == x)))))
            return Or(wrote, kept)
        facts = [forall_p([x], form(), patterns=[pat])]
        # every write is visible at the end unless overwritten: membership form for Boolean arrays
        if S.sort().range() == B and z3.is_true(z3.simplify(X)):
            facts.append(z3.ForAll([j], Implies(And(j >= 0, j < i, at(C2, j)), z3.Select(S, at(K, j)))))
            facts.append(forall_p([x], Implies(z3.Select(S0, x), z3.Select(S, x)), patterns=[z3.Select(S0, x)]))
            # and at every intermediate iteration
            q = z3.Const("qu!%d" % self.uid(), I)
            Sq = subst(S, (i, q))
            facts.append(forall_p([q, x], Implies(And(q >= 0, q <= i), z3.Select(Sq, x) == Or(z3.Select(S0, x), z3.Exists([j], And(j >= 0, j < q, at(C2, j), at(K, j) == x)))),
                                   patterns=[z3.Select(Sq, x)]))
        elif not contains(C2, {S.get_id()}):
            pass
        # heap update at every iteration at distinct places etc. follow from the last-writer form
        return facts

    def selected_form(self, kk, lf, S, v, S0, N):
        """best = cond(i, best) ? value(i) : best -- candidate: no earlier iteration's condition holds for the current best."""
        return []

    def type_facts(self):
        """Type facts for havocked leaves with a known scalar shape (vector lengths, map shapes)."""
        e = self.e
        out = []
        seen = set()
        for (k, key, path), lf in self.leaves.items():
            if k == "env" and key not in seen:
                seen.add(key)
                v = self.state().env[key]
                if isinstance(v, z3.ExprRef): out += shape_facts(e, v)
            elif k == "heap" and (key, path[:1]) not in seen and path != ("all",):
                seen.add((key, path[:1]))
                out += shape_facts(e, self.sel(self.state().heap[key], lf.ref))
            elif k == "next": out.append(lf.sym >= lf.init)
        # the facts hold at every iteration
        i = self.i
        res = list(out)
        for f in out:
            j = z3.Const("jt!%d" % self.uid(), I)
            res.append(z3.ForAll([j], Implies(And(j >= 0, j <= i), subst(f, (i, j)))))
        return res

    def user_invariants(self, s0, normal, N, facts):
        return []


def shape_facts(e, v):
    """Container shape facts of a term (length non-negative, map order consistency)."""
    d = e.sorts.dt_of(v)
    if d is None: return []
    if d.kind == "vec": return [d.get(v, 0) >= 0]
    if d.kind in ("map", "set"):
        from .prog import Ty
        dom = d.get(v, 0)
        if d.kind == "map": size, ord_, pos = d.get(v, 2), d.get(v, 3), d.get(v, 4)
        else: size, ord_, pos = d.get(v, 1), d.get(v, 2), d.get(v, 3)
        ks = dom.sort().domain()
        i = z3.FreshConst(I, "wi"); x = z3.FreshConst(ks, "wk")
        o = z3.Select(ord_, i); px = z3.Select(pos, x)
        return [size >= 0, forall_p([i], Implies(And(i >= 0, i < size), And(z3.Select(dom, o), z3.Select(pos, o) == i)), patterns=[o]),
                forall_p([x], Implies(z3.Select(dom, x), And(px >= 0, px < size, z3.Select(ord_, px) == x)), patterns=[z3.Select(dom, x)])]
    out = []
    for i in range(len(d.accs)): out += shape_facts(e, d.get(v, i))
    return out


class CurLeaf:
    def __init__(self, summ, kk, init, ref):
        self.kk, self.init, self.ref = kk, init, ref
        e = summ.e
        e.bstack.append(summ.i)
        try:
            self.sym = e.fresh("s:%s" % (kk[1][-1] if isinstance(kk[1], tuple) else kk[1]), init.sort())
        finally:
            e.bstack.pop()
        self.closed = False

    def cur(self): return self.sym
