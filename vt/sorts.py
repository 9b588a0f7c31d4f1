"""Maps C++ types to SMT sorts."""
import z3
from .prog import Ty


class Unsupported(Exception):
    pass


I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
STR = z3.DeclareSort("Str")

VEC_NAMES = {"std::vector", "std::deque", "std::initializer_list", "std::list", "std::queue", "std::stack"}
MAP_NAMES = {"std::map", "std::unordered_map"}
SET_NAMES = {"std::set", "std::unordered_set"}
PTR_NAMES = {"std::unique_ptr", "std::shared_ptr", "std::weak_ptr"}
ITER_NAMES = {"__gnu_cxx::__normal_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
              "std::__detail::_Node_const_iterator", "std::reverse_iterator", "std::back_insert_iterator", "std::insert_iterator",
              "std::_Deque_iterator"}


class DT:
    """Product datatype."""
    def __init__(self, sort, ctor, accs, keys, tys, kind, ty=None):
        self.sort, self.ctor, self.accs, self.keys, self.tys, self.kind, self.ty = sort, ctor, accs, keys, tys, kind, ty
        self.index = {k: i for i, k in enumerate(keys)}

    def mk(self, *vals):
        return self.ctor(*vals) if self.accs or vals else self.ctor()

    def get(self, term, i):
        # Peel constructor applications.
        if z3.is_app(term) and term.decl().eq(self.ctor):
            return term.arg(i)
        if z3.is_app_of(term, z3.Z3_OP_ITE):
            a, b = term.arg(1), term.arg(2)
            if (z3.is_app(a) and a.decl().eq(self.ctor)) or (z3.is_app(b) and b.decl().eq(self.ctor)):
                x, y = self.get(a, i), self.get(b, i)
                return x if x.eq(y) else z3.If(term.arg(0), x, y)
        return self.accs[i](term)

    def set(self, term, i, v):
        return self.ctor(*[v if j == i else self.get(term, j) for j in range(len(self.accs))])


def kind(ty):
    if ty.k != "rec":
        return ty.k
    n = ty.name
    if n in VEC_NAMES: return "vec"
    if n in MAP_NAMES: return "map"
    if n in SET_NAMES: return "set"
    if n == "std::array": return "arr"
    if n == "std::optional": return "opt"
    if n in ("std::pair", "std::tuple"): return "tup"
    if n == "std::variant": return "var"
    if n in PTR_NAMES: return "uptr"
    if n == "std::function": return "func"
    if n == "std::basic_string": return "str"
    if n == "std::basic_string_view": return "str"
    if n == "std::reference_wrapper": return "refw"
    if n in ITER_NAMES or "iterator" in n.split("::")[-1]: return "iter"
    if ty.rec is not None and ty.rec.inroots: return "cls"
    return "opaque"


class Sorts:
    def __init__(self):
        self.cache = {}
        self.dts = {}       # sort name -> DT
        self.building = set()
        self.strs = {}
        self.byname = {}

    def is_heap_class(self, ty):
        return ty.k == "rec" and ty.rec is not None and ty.rec.inroots and bool(ty.rec.nocopy or ty.rec.abstract)

    def _mk(self, name, fields, kind_, keys, tys, ty=None):
        # Unique names.
        base = name
        n = self.byname.get(base, 0)
        self.byname[base] = n + 1
        if n: name = "%s!%d" % (base, n)
        d = z3.Datatype(name)
        d.declare("mk_" + name, *[("%s.%s" % (name, f), s) for f, s in fields])
        srt = d.create()
        ctor = srt.constructor(0)
        accs = [srt.accessor(0, i) for i in range(len(fields))]
        dt = DT(srt, ctor, accs, keys, tys, kind_, ty)
        self.dts[srt.name()] = dt
        return dt

    def dt(self, sort):
        return self.dts.get(sort.name())

    def dt_of(self, term):
        return self.dts.get(term.sort().name())

    def vec(self, es):
        key = ("vec", es.sexpr())
        r = self.cache.get(key)
        if r is None:
            r = self._mk("Vec<%s>" % short(es), [("len", I), ("arr", z3.ArraySort(I, es))], "vec", ["len", "arr"], None)
            self.cache[key] = r
        return r

    def opt(self, es):
        key = ("opt", es.sexpr())
        r = self.cache.get(key)
        if r is None:
            r = self._mk("Opt<%s>" % short(es), [("has", B), ("val", es)], "opt", ["has", "val"], None)
            self.cache[key] = r
        return r

    def map(self, ks, vs):
        key = ("map", ks.sexpr(), vs.sexpr())
        r = self.cache.get(key)
        if r is None:
            r = self._mk("Map<%s,%s>" % (short(ks), short(vs)), [("dom", z3.ArraySort(ks, B)), ("val", z3.ArraySort(ks, vs)), ("size", I),
                         ("ord", z3.ArraySort(I, ks)), ("pos", z3.ArraySort(ks, I))], "map", ["dom", "val", "size", "ord", "pos"], None)
            self.cache[key] = r
        return r

    def set(self, ks):
        key = ("set", ks.sexpr())
        r = self.cache.get(key)
        if r is None:
            r = self._mk("Set<%s>" % short(ks), [("dom", z3.ArraySort(ks, B)), ("size", I), ("ord", z3.ArraySort(I, ks)),
                         ("pos", z3.ArraySort(ks, I))], "set", ["dom", "size", "ord", "pos"], None)
            self.cache[key] = r
        return r

    def info(self, ty):
        """DT for a type of product kind."""
        s = self.sort(ty)
        return self.dts[s.name()]

    def elem(self, ty):
        return ty.args[0]

    def sort(self, ty):
        key = (ty.k, ty.s)
        r = self.cache.get(key)
        if r is not None:
            return r
        k = kind(ty)
        if k == "bool": r = B
        elif k in ("int", "enum"): r = I
        elif k == "real": r = R
        elif k in ("ptr", "uptr", "nullptr", "func", "refw", "lambda", "iter", "opaque", "fn"): r = I
        elif k in ("ref", "rref"): r = I
        elif k == "str": r = STR
        elif k == "vec":
            if ty.name in ("std::queue", "std::stack"):
                r = self.vec(self.sort(ty.args[0])).sort
            else:
                r = self.vec(self.sort(ty.args[0])).sort
        elif k == "opt": r = self.opt(self.sort(ty.args[0])).sort
        elif k == "map": r = self.map(self.sort(ty.args[0]), self.sort(ty.args[1])).sort
        elif k == "set": r = self.set(self.sort(ty.args[0])).sort
        elif k == "tup":
            args = [a for a in ty.args]
            r = self._mk("Tup<%s>" % ",".join(short(self.sort(a)) for a in args), [("e%d" % i, self.sort(a)) for i, a in enumerate(args)], "tup",
                         list(range(len(args))), args, ty).sort
        elif k == "var":
            args = list(ty.args)
            r = self._mk("Var<%s>" % ",".join(short(self.sort(a)) for a in args), [("tag", I)] + [("v%d" % i, self.sort(a)) for i, a in enumerate(args)], "var",
                         ["tag"] + list(range(len(args))), [None] + args, ty).sort
        elif k == "arr":
            n = ty.args[1]
            es = self.sort(ty.args[0])
            r = self._mk("Arr%d<%s>" % (n, short(es)), [("e%d" % i, es) for i in range(n)], "arr", list(range(n)), [ty.args[0]] * n, ty).sort
        elif k == "array":
            es = self.sort(ty.to)
            r = self._mk("CArr%d<%s>" % (ty.n, short(es)), [("e%d" % i, es) for i in range(ty.n)], "arr", list(range(ty.n)), [ty.to] * ty.n, ty).sort
        elif k == "cls":
            if self.is_heap_class(ty):
                r = I
            else:
                if key in self.building:
                    raise Unsupported("recursive value type %s" % ty.s)
                self.building.add(key)
                fs = self.fields(ty)
                r = self._mk(ty.s.replace("maliput::", ""), [(fn, self.sort(ft)) for (_, fn, ft) in fs], "cls",
                             [(o, fn) for (o, fn, ft) in fs], [ft for (_, _, ft) in fs], ty).sort
                self.building.discard(key)
        elif k == "void":
            r = I
        else:
            raise Unsupported("sort of %s (%s)" % (ty.s, k))
        self.cache[key] = r
        return r

    def fields(self, ty):
        """Flattened (owner, name, type) list, bases first."""
        out = []
        for b in ty.rec.bases:
            if b.rec is not None and b.rec.inroots:
                out += self.fields(b)
        for (n, t, _, _) in ty.rec.fields:
            out.append((ty.s, n, t))
        return out

    def strlit(self, s):
        c = self.strs.get(s)
        if c is None:
            c = z3.Const('str:"%s"' % s, STR)
            self.strs[s] = c
        return c


def short(s):
    n = s.name() if not isinstance(s, z3.ArraySortRef) else "A"
    return str(n)
