"""Alias rule (C01, C02): a function changes in place, through a view or second name,
an input (or an attribute) that its confirmed definition leaves alone.

Per function a flow-sensitive may-alias analysis over the syntax tree: which inputs
and attributes a local name can share memory with (through `.data`, views such as
ravel/reshape/transpose/basic slices, asarray, masked arrays, package functions that
return an argument), and which of those are changed in place (item or attribute
stores, augmented assignment of arrays, out=, in-place methods and functions, package
functions that change an argument).  Callees are summarised recursively.  What cannot
be resolved counts as fresh."""
import ast

from vlib.interp import MUTATORS

from .common import local_imports, resolve

LEAST = {"functions_analysed": 900, "aliased_inputs": 400, "in_place_changes": 150}

VIEW_M = {"ravel", "reshape", "view", "squeeze", "transpose", "swapaxes", "diagonal", "core_data", "core_points", "core_bounds"}
VIEW_F = {"numpy.asarray", "numpy.asanyarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose",
          "numpy.swapaxes", "numpy.moveaxis", "numpy.rollaxis", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d",
          "numpy.ma.getdata", "numpy.ma.asarray", "numpy.ma.asanyarray", "numpy.ma.masked_array", "numpy.ma.array",
          "numpy.ma.MaskedArray", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.rot90", "numpy.expand_dims",
          "numpy.ascontiguousarray", "numpy.broadcast_to"}
INPLACE_F = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.add.at",
             "numpy.subtract.at", "numpy.multiply.at", "numpy.maximum.at", "numpy.minimum.at", "numpy.random.shuffle"}
NEST = {"list", "sub", "holds"}     # a given list or dictionary, an item of it, a new collection of its items
ARR = {"data", "points", "bounds", "mask"}
INPLACE_M = (set(MUTATORS) - {"transpose", "add", "remove", "update", "pop", "insert", "extend", "append"}) | {
    "append", "extend", "insert", "pop", "remove", "update", "sort", "reverse", "fill", "byteswap", "partition", "put", "setfield"}
SCALAR = ("float", "int", "str", "bool", "Callable", "datetime", "timedelta")


def kind_of(ann):
    if ann is None:
        return "obj"
    t = ast.unparse(ann).replace("iris.cube.", "").replace("np.", "")
    if "CubeList" in t or "List[Cube" in t or "Tuple[Cube" in t or "Iterable[Cube" in t:
        return "cubes"
    if "Cube" in t:
        return "cube"
    if "ndarray" in t or "Array" in t:
        return "arr"
    if "Coord" in t:
        return "cube"
    if "List" in t or "list" in t or "Dict" in t or "dict" in t or "Sequence" in t:
        return "list"
    if any(s in t for s in SCALAR):
        return None
    return "obj"


class Summary:
    __slots__ = ("muts", "rets", "nalias")

    def __init__(self):
        self.muts, self.rets, self.nalias = {}, set(), 0


class Analysis:
    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.local = {}

    def summary(self, q):
        if q in self.memo:
            return self.memo[q]
        self.memo[q] = Summary()
        s = Walk(self, self.p.funcs[q]).run()
        self.memo[q] = s
        return s


class Walk:
    def __init__(self, an, f):
        self.an, self.p, self.f = an, an.p, f
        self.m = an.p.modules[f.module]
        self.loc = local_imports(an.p, f)
        self.s = Summary()
        ps = f.all_params
        self.me = ps[0] if f.kind in ("method", "property") and ps else None
        self.env = {}
        self.kls = {}           # local name -> class of the plugin it holds
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == self.me or f.kind == "classmethod" and ps and x.arg == ps[0]:
                continue
            k = kind_of(x.annotation)
            if k:
                self.env[x.arg] = frozenset({(("p", x.arg), k)})
        if a.vararg:
            self.env[a.vararg.arg] = frozenset({(("p", a.vararg.arg), "cubes" if kind_of(a.vararg.annotation) in ("cube", "cubes") else "tuple")})

    def run(self):
        self.block(self.f.node.body)
        self.s.nalias = len(self.env)
        return self.s

    # -- values
    def ev(self, e):
        """Roots a value may share memory with."""
        if isinstance(e, ast.Name):
            return self.env.get(e.id, frozenset())
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.me and self.me:
                k = "self." + e.attr
                return self.env[k] if k in self.env else frozenset({(("s", e.attr), "obj")})
            v = self.ev(e.value)
            if e.attr in ARR:
                return frozenset((r, "arr") for r, k in v if k in ("cube", "obj", "arr", "coord"))
            if e.attr == "attributes":
                return frozenset((r, "attrs") for r, k in v if k in ("cube", "obj", "coord"))
            if e.attr in ("T", "real", "imag", "flat"):
                return frozenset((r, k) for r, k in v if k == "arr")
            return frozenset()
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            out = set()
            for r, k in v:
                if k == "arr":
                    if basic(e.slice):
                        out.add((r, "arr"))
                    elif isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                        out.add((r, "item"))
                elif k == "cubes":
                    out.add((r, "cubes" if isinstance(e.slice, ast.Slice) else "cube"))
                elif k in NEST:
                    out.add((r, "holds" if isinstance(e.slice, ast.Slice) else "sub"))
            return frozenset(out)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.ev(x) for x in e.values])
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                self.bind(g.target, self.elems(g.iter))
                for c in g.ifs:
                    self.ev(c)
            if isinstance(e, ast.DictComp):
                self.ev(e.key)
                v = self.ev(e.value)
            else:
                v = self.ev(e.elt)
            self.env = saved
            return frozenset((r, "cubes") for r, k in v if k == "cube") | frozenset((r, "holds") for r, k in v if k in ("sub", "list"))
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            v = frozenset().union(*[self.ev(x) for x in e.elts]) if e.elts else frozenset()
            return frozenset((r, "cubes") for r, k in v if k in ("cube", "cubes")) | frozenset((r, "holds") for r, k in v if k in NEST)
        if isinstance(e, ast.Lambda):
            return frozenset()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return frozenset()

    def elems(self, e):
        """Roots of the items met when iterating e (a list per position for tuples)."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("zip", "enumerate", "reversed", "list", "tuple", "iter"):
            parts = [self.elems(x) for x in e.args]
            if e.func.id == "zip":
                return parts
            if e.func.id == "enumerate":
                return [frozenset(), parts[0] if parts else frozenset()]
            return parts[0] if parts else frozenset()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "values", "keys") and not e.args:
            v = frozenset((r, "sub") for r, k in self.ev(e.func.value) if k in NEST)
            return {"items": [frozenset(), v], "values": v}.get(e.func.attr, frozenset())
        v = self.ev(e)
        return frozenset((r, "cube") for r, k in v if k == "cubes") | frozenset((r, "coord") for r, k in v if k == "coord") | frozenset((r, "sub") for r, k in v if k in NEST) | frozenset((r, "item") for r, k in v if k == "arr")

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v if isinstance(v, frozenset) else frozenset()
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(v, list):
                    self.bind(x, v[i] if i < len(v) and not isinstance(x, ast.Starred) else frozenset())
                else:
                    self.bind(x.value if isinstance(x, ast.Starred) else x,
                              frozenset((r, "cubes" if isinstance(x, ast.Starred) else "cube") for r, k in v if k == "cubes") if v else frozenset())
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me and self.me:
            self.env["self." + t.attr] = v if isinstance(v, frozenset) else frozenset()
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.mutate(self.ev(t.value), t)

    def mutate(self, v, node, kinds=None):
        for r, k in v:
            if kinds is None or k in kinds:
                if k == "holds":
                    continue
                what = {"attrs": "attributes", "coord": "coordinates", "sub": "nested"}.get(k, "content")
                self.s.muts.setdefault((r, what), node.lineno)

    # -- calls
    def call(self, e):
        args = [self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        fn = e.func
        for k in ("out",):
            if k in kws:
                self.mutate(kws[k], e, ("arr", "obj"))
        kwc = {k.arg: k.value.value for k in e.keywords if isinstance(k.value, ast.Constant)}
        tgt = None
        selfcall = False
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.me and self.me:
            t = self.p.find_method(self.f.cls, fn.attr)
            tgt, selfcall = (t.qual if t else None), True
        elif isinstance(fn, ast.Call):
            c = resolve(self.p, self.m, fn.func, self.loc)
            self.ev(fn)
            if c in self.p.classes:
                t = self.p.find_method(c, "process")
                tgt = t.qual if t else None
                if tgt:
                    return self.apply(e, tgt, args, False, 1)
            return frozenset()
        elif isinstance(fn, ast.Name) and fn.id in self.kls:
            t = self.p.find_method(self.kls[fn.id], "process")
            if t is not None:
                return self.apply(e, t.qual, args, False, 1)
            return frozenset()
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in self.kls:
            t = self.p.find_method(self.kls[fn.value.id], fn.attr)
            if t is not None:
                return self.apply(e, t.qual, args, False, 1 if t.kind == "method" else 0)
            return frozenset()
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and not (
                isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super") and \
                (k := resolve(self.p, self.m, fn.value.func, self.loc)) in self.p.classes:
            self.ev(fn.value)
            t = self.p.find_method(k, fn.attr)
            if t is not None:
                return self.apply(e, t.qual, args, False, 1 if t.kind == "method" else 0)
            return frozenset()
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.f.cls:
            selfcall = True
            for c in self.p.mro(self.f.cls)[1:]:
                if fn.attr in c.methods:
                    tgt = c.methods[fn.attr].qual
                    break
        else:
            base = fn
            while isinstance(base, ast.Attribute):
                base = base.value
            if isinstance(base, ast.Name) and base.id not in self.env:
                tgt = resolve(self.p, self.m, fn, self.loc)
        if tgt == "improver.utilities.flatten.flatten" and args:
            return frozenset((r, "cubes") for r, k in args[0] if k in ("cube", "cubes", "tuple", "obj"))
        if tgt in self.p.funcs:
            f = self.p.funcs[tgt]
            return self.apply(e, tgt, args, selfcall, 1 if f.kind == "method" and selfcall else 0)
        if tgt:
            if tgt in INPLACE_F and args:
                self.mutate(args[0], e, ("arr", "obj", "item"))
                return frozenset()
            if tgt == "numpy.nan_to_num" and kwc.get("copy") is False and args:
                self.mutate(args[0], e, ("arr", "obj", "item"))
                return args[0]
            if tgt in VIEW_F and args and kwc.get("copy") is not True:
                return frozenset((r, "arr") for r, k in args[0] if k in ("arr", "item"))
            if (tgt == "numpy.array" or tgt.startswith("numpy.ma.masked_")) and kwc.get("copy") is False and args:
                v = args[-1] if tgt == "numpy.ma.masked_where" and len(args) > 1 else args[0]
                return frozenset((r, "arr") for r, k in v if k == "arr")
            if tgt in ("iris.cube.CubeList", "list", "tuple") and args:
                return frozenset((r, "cubes") for r, k in args[0] if k == "cubes")
            return frozenset()
        if isinstance(fn, ast.Name) and fn.id in ("list", "tuple", "sorted") and args:
            return frozenset((r, "cubes") for r, k in args[0] if k == "cubes")
        if isinstance(fn, ast.Attribute) and not selfcall:
            v = self.ev(fn.value)
            n = fn.attr
            if n in ("append", "extend") and isinstance(fn.value, ast.Name) and args:
                # a collection made here now holds the object as well
                had = self.env.get(fn.value.id, frozenset())
                if not any(k == "list" for _, k in had):
                    self.mutate(had, e, ("arr",))
                    self.env[fn.value.id] = had | frozenset((r, "cubes") for r, k in args[0] if k in ("cube", "cubes"))
                    return frozenset()
            if n in VIEW_M:
                return frozenset((r, "arr") for r, k in v if k in ("arr", "item") or n.startswith("core_") and k in ("cube", "obj"))
            if n == "astype" and kwc.get("copy") is False:
                return frozenset((r, k) for r, k in v if k == "arr")
            if n == "extract" and args:     # everything selected: the cube itself
                return frozenset((r, k) for r, k in v if k in ("cube", "cubes"))
            if n in ("extract_cube", "extract_cubes") and args:
                return frozenset((r, n[8:]) for r, k in v if k == "cubes")
            if n in ("coord", "coords"):
                return frozenset((r, "coord") for r, k in v if k in ("cube", "obj"))
            if n == "get" and args:
                return frozenset((r, "sub") for r, k in v if k in NEST)
            if n in ("setdefault",) or n in INPLACE_M:
                own = {"append", "extend", "insert", "pop", "remove", "update", "sort", "reverse", "clear", "add", "discard", "setdefault", "popitem"}
                self.mutate(v, e, ("list", "attrs", "arr", "item", "sub") if n in own else ("cube", "arr", "obj", "item", "coord"))
            return frozenset()
        if not isinstance(fn, (ast.Name, ast.Attribute)):
            self.ev(fn)
        return frozenset()

    def apply(self, e, q, args, selfcall, skip):
        f = self.p.funcs[q]
        s = self.an.summary(q)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip if f.kind in ("method", "property") else (1 if f.kind == "classmethod" else 0):]
        got = {}
        star = any(isinstance(x, ast.Starred) for x in e.args)
        for i, x in enumerate(e.args):
            v = args[i]
            if i < len(names) and not star:
                got[names[i]] = v
            elif a.vararg:
                got[a.vararg.arg] = got.get(a.vararg.arg, frozenset()) | frozenset((r, "cubes") for r, k in v if k in ("cube", "cubes"))
        for k in e.keywords:
            if k.arg:
                got[k.arg] = self.ev(k.value)
        for (r, what), ln in s.muts.items():
            if r[0] == "p":
                here = got.get(r[1], ())
            elif selfcall:
                here = self.env.get("self." + r[1], {(r, "obj")})
            else:
                continue
            for r2, k in here:
                if k == "holds" and what != "nested":
                    continue
                self.s.muts.setdefault((r2, {"attrs": "attributes", "coord": "coordinates", "sub": "nested"}.get(k, what)), e.lineno)
        out = set()
        for r, k in s.rets:
            if r[0] == "p":
                for r2, k2 in got.get(r[1], ()):
                    out.add((r2, k))
            elif selfcall:
                here = self.env.get("self." + r[1])
                out |= {(r, k)} if here is None else {(r2, k) for r2, k2 in here}
        return frozenset(out)

    # -- statements
    def block(self, body):
        """True when control can leave the end."""
        for st in body:
            if not self.stmt(st):
                return False
        return True

    def branch(self, bodies):
        start = dict(self.env)
        ends = []
        for b in bodies:
            self.env = dict(start)
            if self.block(b):
                ends.append(self.env)
        if not ends:
            self.env = start
            return False
        keys = set().union(*ends)
        out = {}
        for k in keys:
            vs = [en.get(k) for en in ends]
            if k.startswith("self.") and any(v is None for v in vs):
                vs = [frozenset({(("s", k[5:]), "obj")}) if v is None else v for v in vs]
            out[k] = frozenset().union(*[v for v in vs if v is not None])
        self.env = out
        return True

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            if len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                k = resolve(self.p, self.m, st.value.func, self.loc) if isinstance(st.value, ast.Call) else None
                if k in self.p.classes:
                    self.kls[st.targets[0].id] = k
                else:
                    self.kls.pop(st.targets[0].id, None)
            v = self.ev(st.value)
            if isinstance(st.value, (ast.Tuple, ast.List)) and any(isinstance(t, (ast.Tuple, ast.List)) for t in st.targets):
                v = [self.ev(x) for x in st.value.elts]
            for t in st.targets:
                self.bind(t, v if isinstance(t, (ast.Tuple, ast.List)) or isinstance(v, frozenset) else frozenset())
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value))
        elif isinstance(st, ast.AugAssign):
            self.ev(st.value)
            t = st.target
            if isinstance(t, ast.Name):
                self.mutate(self.env.get(t.id, ()), st, ("arr",) + (("list",) if isinstance(st.op, ast.Add) else ()))
            elif isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value), st)
            elif isinstance(t, ast.Attribute):
                if not (isinstance(t.value, ast.Name) and t.value.id == self.me and self.me):
                    self.mutate(self.ev(t.value), st)
                else:
                    v = self.env.get("self." + t.attr)
                    if v:
                        self.mutate(v, st, ("arr",))
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.s.rets |= self.ev(st.value)
            return False
        elif isinstance(st, ast.Raise):
            return False
        elif isinstance(st, (ast.Break, ast.Continue)):
            return True
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(self.ev(t.value), st)
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(st, ast.If):
            self.ev(st.test)
            return self.branch([st.body, st.orelse])
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            for _ in range(2):
                it = self.elems(st.iter)

                def body(b=st.body, it=it, t=st.target):
                    self.bind(t, it)
                start = dict(self.env)
                body()
                self.branch([st.body, []])
                for k, v in start.items():
                    self.env[k] = self.env.get(k, frozenset()) | v
            self.block(st.orelse)
        elif isinstance(st, ast.While):
            self.ev(st.test)
            for _ in range(2):
                start = dict(self.env)
                self.branch([st.body, []])
                for k, v in start.items():
                    self.env[k] = self.env.get(k, frozenset()) | v
            self.block(st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.ev(i.context_expr)
            return self.block(st.body)
        elif isinstance(st, ast.Try):
            start = dict(self.env)
            a = self.branch([st.body + st.orelse] + [h.body for h in st.handlers])
            for k, v in start.items():
                if not k.startswith("self."):
                    self.env[k] = self.env.get(k, frozenset())
            b = self.block(st.finalbody)
            return a and b
        return True


def basic(s):
    if isinstance(s, ast.Slice):
        return True
    if isinstance(s, ast.Constant):
        return s.value is Ellipsis or s.value is None
    if isinstance(s, ast.Tuple):
        return any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value is Ellipsis for x in s.elts) and all(
            isinstance(x, (ast.Slice, ast.Constant)) or isinstance(x, ast.UnaryOp) for x in s.elts)
    return False


def compare(ref, cur, both, exempt):
    """New in-place changes: {(qual, root): line}."""
    a, b = Analysis(ref), Analysis(cur)
    out, n, na, nm = {}, 0, 0, 0
    for q in sorted(both):
        f, g = ref.funcs[q], cur.funcs[q]
        n += 1
        sb = b.summary(q)
        na += sb.nalias
        nm += len(sb.muts)
        if not sb.muts:
            continue
        sa = a.summary(q)
        pa, pb = f.all_params, g.all_params
        for (r, what), ln in sb.muts.items():
            if (r, what) in sa.muts:
                continue
            if r[0] == "p":
                i = pb.index(r[1])
                name = pa[i] if i < len(pa) else r[1]
                if (("p", name), what) in sa.muts or what in ("content", "attributes") and exempt(q, "upd", name):
                    continue
                if name not in pa:
                    continue
            elif f.name == "__init__" or exempt(q, "selfupd", r[1]):
                continue
            out[(q, r)] = ln
    return out, dict(functions_analysed=n, aliased_inputs=na, in_place_changes=nm)


GOOD = '''
import numpy as np
from numpy import ndarray
from iris.cube import Cube
class K:
    def a(self, data: ndarray):
        x = data.flatten()
        x[0] = 1
        return x
    def b(self, cube: Cube):
        y = cube.data
        y = y * 2
        return y
    def c(self):
        w = np.array(self.w)
        w[0] = 0
        return w
    def d(self, cube: Cube):
        return self.e(cube.data.copy())
    def e(self, z):
        z[0] = 1
        return z
'''
BAD = GOOD.replace("flatten", "ravel").replace("y = y * 2", "y *= 2").replace("np.array(self.w)", "self.w").replace("cube.data.copy()", "cube.data")


def run(v, pid):
    from vlib.load import AnalysisBroken, Project
    ex = [Project(sources={"improver/__init__.py": "", "improver/ex.py": s}) for s in (GOOD, BAD)]
    got = {(q.split(".")[-1], r) for q, r in compare(ex[0], ex[1], set(ex[0].funcs), lambda *a: False)[0]}
    if got != {("a", ("p", "data")), ("b", ("p", "cube")), ("c", ("s", "w")), ("d", ("p", "cube"))}:
        raise AnalysisBroken(f"alias rule no longer fires on its own example: {got}")

    def exempt(q, kind, name):
        it = v.iref.summary(q).items
        return f"{kind}:{name}" in it or kind == "upd" and name in v.iref.mutated(q) or kind == "selfupd" and f"self:{name}" in it

    out = []
    d, st = compare(v.ref, v.cur, v.both, exempt)
    for (q, r), ln in sorted(d.items()):
        f = v.cur.funcs[q]
        if (r[0] == "p") == (pid == "C02"):
            what = f"the caller's '{r[1]}'" if r[0] == "p" else f"self.{r[1]}"
            out.append((f"alias:{q}:{r[1]}", f"{f.relpath}:{ln}", f"{q} changes {what} in place through a view or second name of it"))
    return out, st
