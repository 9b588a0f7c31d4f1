"""Loads the JSON written by the extractor and links several translation units into one program."""
import json, re


class Ty:
    """Interned C++ type (top-level const dropped)."""
    __slots__ = ("k", "s", "to", "args", "name", "rec", "bits", "signed", "n", "params", "ret", "enumerators", "const_to", "_h")
    table = {}

    def __init__(self):
        self.to = self.args = self.name = self.rec = self.bits = self.signed = self.n = None
        self.params = self.ret = self.enumerators = None
        self.const_to = False

    def __repr__(self):
        return "<%s>" % self.s

    def isref(self):
        return self.k in ("ref", "rref")

    def deref(self):
        return self.to if self.k in ("ref", "rref") else self


class Rec:
    __slots__ = ("name", "s", "defined", "inroots", "poly", "abstract", "nocopy", "bases", "fields", "is_lambda", "ops", "union")


class Fn:
    def __init__(self, key, j, tu):
        self.key, self.j, self.tu = key, j, tu
        self.q = j["q"]
        self.name = j["name"]
        self.file, self.line = j.get("file", ""), j.get("line", 0)
        self.ret = tu.ty(j["ret"])
        self.params = [(p["id"], p["name"], tu.ty(p["t"])) for p in j["params"]]
        self.body = j.get("body")
        self.has_body = "body" in j and j["body"] is not None
        self.defaulted = j.get("defaulted", False)
        self.method = j.get("method", False)
        self.static = j.get("static", False)
        self.record = tu.ty(j["record"]) if "record" in j else None
        self.virtual = j.get("virtual", False)
        self.pure = j.get("pure", False)
        self.overrides = j.get("overrides", [])
        self.ctor = j.get("ctor")
        self.dtor = j.get("dtor", False)
        self.assign = j.get("assign")
        self.constm = j.get("constm", False)
        self.inits = j.get("inits")
        self.targs = j.get("targs")
        self.annot = j.get("annot", [])
        self.q0 = strip_targs(self.q)

    def __repr__(self):
        return "Fn(%s:%d %s)" % (self.file, self.line, self.q)


_cache = {}


def strip_targs(q):
    """std::vector<int>::push_back -> std::vector::push_back (operator<, operator<< etc. kept)."""
    r = _cache.get(q)
    if r is not None:
        return r
    out, depth, i = [], 0, 0
    n = len(q)
    while i < n:
        if depth == 0 and q.startswith("operator", i) and (i == 0 or q[i - 1] == ":"):
            j = i + 8
            while j < n and q[j] in "<>=!-+*/&|^~%[]()":
                j += 1
            # operator<T> (rare) not handled
            out.append(q[i:j]); i = j
            # conversion operator: keep rest
            if i < n and q[i] == " ":
                out.append(q[i:]); i = n
            continue
        c = q[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = "".join(out)
    _cache[q] = r
    return r


class TU:
    def __init__(self, prog, j, name):
        self.prog, self.j, self.name = prog, j, name
        self._tys = {}
        self._recs = {}
        self.globals = j["globals"]

    def ty(self, i):
        if i is None or i < 0:
            return None
        t = self._tys.get(i)
        if t is not None:
            return t
        o = self.j["types"][i]
        s = o["s"]
        if o["k"] == "lambda":
            s = s + "#" + self.name + "#" + str(o.get("rec"))
        key = (o["k"], s) if o["k"] not in ("ptr", "ref", "rref") else (o["k"], s, self.j["types"][o["to"]].get("const", False))
        t = Ty.table.get(key)
        if t is not None:
            self._tys[i] = t
            if t.rec is None and o.get("rec") is not None:
                t.rec = self.rec(o["rec"])
            elif t.rec is not None and not t.rec.defined and o.get("rec") is not None:
                r = self.rec(o["rec"])
                if r.defined:
                    t.rec = r
            return t
        t = Ty()
        t.k, t.s = o["k"], s
        Ty.table[key] = t
        self._tys[i] = t
        if "to" in o:
            t.to = self.ty(o["to"])
            t.const_to = self.j["types"][o["to"]].get("const", False)
        t.bits, t.signed, t.n = o.get("bits"), o.get("signed"), o.get("n")
        t.name = o.get("name")
        t.enumerators = o.get("enumerators")
        if "args" in o:
            t.args = [self.ty(a["t"]) if "t" in a else a.get("i") for a in o["args"]]
        if "ret" in o:
            t.ret = self.ty(o["ret"])
            t.params = [self.ty(p) for p in o["params"]]
        if o.get("rec") is not None:
            t.rec = self.rec(o["rec"])
        return t

    def rec(self, i):
        r = self._recs.get(i)
        if r is not None:
            return r
        o = self.j["records"][i]
        r = Rec()
        self._recs[i] = r
        r.name, r.s = o["name"], o["s"]
        r.defined = o.get("def", False)
        r.inroots = o.get("inroots", False)
        r.poly, r.abstract, r.nocopy, r.union = o.get("poly"), o.get("abstract"), o.get("nocopy"), o.get("union")
        r.is_lambda = o.get("lambda", False)
        r.ops = o.get("ops", [])
        r.bases, r.fields = [], []
        r.bases = [self.ty(b) for b in o.get("bases", [])]
        r.fields = [(f["name"], self.ty(f["t"]), f.get("init"), self) for f in o.get("fields", [])]
        return r


class Program:
    def __init__(self):
        self.pure, self.validators = set(), set()
        self.fns = {}
        self.tus = []
        self.byq = {}

    def load(self, path, name):
        with open(path) as f:
            j = json.load(f)
        tu = TU(self, j, name)
        self.tus.append(tu)
        for key, fj in j["fns"].items():
            has = "body" in fj and fj["body"] is not None
            old = self.fns.get(key)
            if old is None or (has and not old.has_body):
                self.fns[key] = Fn(key, fj, tu)
        return tu

    def finish(self):
        self.byq = {}
        self.overriders = {}
        for f in self.fns.values():
            self.byq.setdefault(f.q0, []).append(f)
            for o in f.overrides:
                self.overriders.setdefault(o, []).append(f)
