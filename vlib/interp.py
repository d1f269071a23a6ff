"""Abstract interpreter: one pass per function, joins at merges, one symbolic
round per loop.  Produces a Summary of the function's observables as value nodes
(see nodes.py).  No path is enumerated and nothing is executed."""
import ast
import builtins

from . import libsig
from .nodes import (
    lt,
    any_of,
    C, FALSE, N, NONE, TRUE, Node, add, and_, cmp_, concat, contains, div, eq, fmt, idx, in_, is_, is_num, ite,
    lits, mul, neg, not_, or_, pow_, isboolish, DEAD, strip_dead, excl_eq, cofactor, DEFAULTS, unsigned,
)

ALIASES = {
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.absolute": "numpy.abs", "abs": "numpy.abs",
    "numpy.product": "numpy.prod", "numpy.bool_": "bool", "numpy.float_": "numpy.float64", "numpy.int_": "int",
    "numpy.alltrue": "numpy.all", "numpy.sometrue": "numpy.any", "numpy.concatenate": "numpy.concatenate",
    "numpy.core.numeric.where": "numpy.where", "numpy.round": "numpy.around", "numpy.round_": "numpy.around",
}
METH2NP = {"reshape", "ravel", "clip", "repeat", "swapaxes", "squeeze", "nonzero", "take", "round", "all", "any", "sum", "mean", "max", "min", "argmax", "argmin", "cumsum", "std", "var", "prod", "ptp"}
MUTATORS = {
    "append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "add", "discard",
    "sort", "reverse", "convert_units", "rename", "add_aux_coord", "add_dim_coord", "remove_coord",
    "replace_coord", "add_cell_method", "transpose", "fill", "put", "itemset", "guess_bounds", "add_aux_factory",
    "add_cell_measure", "add_ancillary_variable", "soften_mask", "harden_mask", "resize", "partition",
    "remove_cell_measure", "setflags", "swap_shared", "difference_update", "intersection_update", "appendleft",
    "replace_units",
}
NONMUT_CHAIN = {"transpose"}  # returns a view when the value is used
QUERIES = {"coord", "coords", "coord_dims", "cell", "get", "lazy_data", "core_data", "has_lazy_data", "has_bounds", "index", "keys",
           "extract_cube", "aux_factory", "cell_measure", "ancillary_variable"}
ACCESSORS = {"coord", "coords", "slices", "slices_over", "items", "values", "get", "keys", "aux_factory", "__iter__"}
FP = {
    "convert_units": {"data", "units"}, "rename": {"name"}, "add_aux_coord": {"coords"}, "add_dim_coord": {"coords"},
    "remove_coord": {"coords"}, "replace_coord": {"coords"}, "add_cell_method": {"cell_methods"},
    "guess_bounds": {"data"}, "add_cell_measure": {"coords"}, "add_ancillary_variable": {"coords"},
}
FP_STORE = {
    "data": {"data"}, "points": {"data"}, "bounds": {"data"}, "mask": {"data"}, "units": {"units"},
    "standard_name": {"name"}, "long_name": {"name"}, "var_name": {"name"}, "attributes": {"attributes"},
    "coord": {"coords"}, "coords": {"coords"}, "cell_methods": {"cell_methods"},
}
READ = {
    "data": "data", "points": "data", "bounds": "data", "mask": "data", "shape": "shape", "ndim": "shape",
    "units": "units", "name": "name", "standard_name": "name", "long_name": "name", "attributes": "attributes",
    "coord": "coords", "coords": "coords", "coord_dims": "coords", "cell_methods": "cell_methods",
    "lazy_data": "data", "core_data": "data", "has_lazy_data": "data", "dtype": "data",
}
NPBIN = {
    "numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/", "numpy.true_divide": "/",
    "numpy.power": "**", "numpy.greater": ">", "numpy.greater_equal": ">=", "numpy.less": "<",
    "numpy.less_equal": "<=", "numpy.equal": "==", "numpy.not_equal": "!=", "operator.gt": ">", "operator.ge": ">=",
    "operator.lt": "<", "operator.le": "<=", "operator.eq": "==", "operator.ne": "!=", "operator.add": "+",
    "operator.sub": "-", "operator.mul": "*", "operator.truediv": "/",
}
BUILTINS = set(dir(builtins)) | {"__file__", "__name__"}


LOG = []


class Log(list):
    """A list whose additions are noted, so that a loop can go back to those made in it."""

    def append(self, x):
        list.append(self, x)
        LOG.append((self, len(self) - 1))


class V:
    __slots__ = ("base", "links", "upds", "ctx", "kind", "parts", "clo", "cls", "wrap")

    def __init__(self, base, links=(), ctx=(), kind=None, clo=None, cls=None):
        self.base, self.links, self.ctx, self.kind = base, list(links), ctx, kind
        self.upds, self.parts, self.clo, self.cls = Log(), Log(), clo, cls
        self.wrap = None


class Closure:
    __slots__ = ("node", "env", "name")

    def __init__(self, node, env, name):
        self.node, self.env, self.name = node, env, name


class Opaque(Exception):
    pass


class Frame:
    """One (possibly inlined) function activation."""

    def __init__(self, ip, func_node, module, cls, env, depth, parent=None):
        self.ip, self.fn, self.module, self.cls = ip, func_node, module, cls
        self.env, self.depth = env, depth
        self.rets = []        # (lits tuple rel. to entry, Node)
        self.yields = None
        self.entry = 0
        self.loop_exits = []


class Summary:
    def __init__(self):
        self.items = {}
        self.opaque = 0
        self.mut = set()


def _jumps(st):
    """`st` contains a `continue` of the loop it is a statement of."""
    if isinstance(st, ast.Continue):
        return True
    if isinstance(st, ast.If):
        return any(_jumps(x) for x in st.body + st.orelse)
    return False


def _ends(body):
    """Control never reaches the end of `body`."""
    for st in body:
        if isinstance(st, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
            return True
        if isinstance(st, ast.If) and st.orelse and _ends(st.body) and _ends(st.orelse):
            return True
    return False


def _raises(body):
    """Every way through `body` raises."""
    return _ends(body) and not any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for st in body for x in ast.walk(st))


def _without(body):
    body = canon(body)
    for i, st in enumerate(body):
        if isinstance(st, ast.Continue):
            return body[:i]
        if isinstance(st, ast.If) and _jumps(st):
            rest = body[i + 1:]
            a = _without(st.body if _ends(st.body) else st.body + rest)
            b = _without(st.orelse if _ends(st.orelse) else st.orelse + rest)
            if not a and not b:
                new = ast.Expr(value=st.test)
            else:
                new = ast.If(test=st.test, body=a or [ast.Pass()], orelse=b)
            return body[:i] + [ast.copy_location(new, st)]
    return body


_NOCONT = {}


def _breaks(body):
    """A break or continue of this loop is left in its body."""
    for x in body:
        if isinstance(x, (ast.Break, ast.Continue)):
            return True
        if isinstance(x, (ast.For, ast.While)):
            if _breaks(x.orelse):
                return True
        elif not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            for fld in ("body", "orelse", "finalbody"):
                if _breaks(getattr(x, fld, None) or []):
                    return True
            for h in getattr(x, "handlers", None) or []:
                if _breaks(h.body):
                    return True
    return False


def inplace_items(st, n):
    """[a, b] of `for x in [a, b]: x *= ...`, where x is changed in no other way: the arrays
    written out are changed with it."""
    it, target = st.iter, st.target
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and \
            isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
        it, target = it.args[0], target.elts[1]
    if isinstance(it, (ast.List, ast.Tuple)) and isinstance(target, ast.Name) and len(it.elts) == n and \
            all(isinstance(e, ast.Name) for e in it.elts):
        binds = [x for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == target.id and isinstance(x.ctx, ast.Store)]
        aug = [x.target for b in st.body for x in ast.walk(b) if isinstance(x, ast.AugAssign)]
        if binds and all(any(x is y for y in aug) for x in binds):
            return target.id, [e.id for e in it.elts]
    return None, None


def no_continue(st, body):
    """The loop body with `if c: A; continue` + rest rewritten to `if c: A else: rest`."""
    if not any(_jumps(x) for x in body):
        return body
    hit = _NOCONT.get(id(st))
    if hit is None:
        new = _without(body) or [ast.Pass()]
        for x in new:
            ast.fix_missing_locations(ast.copy_location(x, x) if hasattr(x, "lineno") else ast.copy_location(x, st))
        hit = _NOCONT[id(st)] = (st, new)
    return hit[1]


def _same(a, b):
    return len(a) == len(b) and all(ast.dump(x) == ast.dump(y) for x, y in zip(a, b))


def _plain(t):
    return not any(isinstance(x, ast.NamedExpr) for x in ast.walk(t))


def _join(op, a, b):
    vs = []
    for t in (a, b):
        vs += t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, op) else [t]
    return ast.copy_location(ast.BoolOp(op(), vs), a)


_SWAP = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}


def canon_if(st):
    """if A: if B: X           -> if A and B: X
    if A: S elif B: S else: Z  -> if A or B: S else: Z
    if not A: X else: Y        -> if A: Y else: X"""
    while True:
        if not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.If) and not st.body[0].orelse:
            i = st.body[0]
            st = ast.copy_location(ast.If(_join(ast.And, st.test, i.test), i.body, []), st)
        elif len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If) and _same(st.body, st.orelse[0].body):
            i = st.orelse[0]
            st = ast.copy_location(ast.If(_join(ast.Or, st.test, i.test), st.body, i.orelse), st)
        elif st.orelse and isinstance(st.test, ast.UnaryOp) and isinstance(st.test.op, ast.Not):
            st = ast.copy_location(ast.If(st.test.operand, st.orelse, st.body), st)
        elif st.orelse and isinstance(st.test, ast.Compare) and len(st.test.ops) == 1 and type(st.test.ops[0]) in _SWAP:
            t = ast.copy_location(ast.Compare(st.test.left, [_SWAP[type(st.test.ops[0])]()], st.test.comparators), st.test)
            st = ast.copy_location(ast.If(t, st.orelse, st.body), st)
        else:
            return st


_CANON = {}


def canon(stmts):
    """The statement list in one fixed form; the list itself when it is already."""
    if not any(isinstance(x, (ast.If, ast.Try)) for x in stmts):
        return stmts
    k = (id(stmts[0]), id(stmts[-1]), len(stmts))
    hit = _CANON.get(k)
    if hit is None:
        new = []
        flat = []
        for st in stmts:
            if isinstance(st, ast.Try) and st.handlers and not st.orelse and isinstance(st.body[-1], ast.Return) and st.body[-1].value is not None:
                # try: return x except ..  -> try: r = x except ..  else: return r
                r = st.body[-1]
                keep = ast.copy_location(ast.Assign([ast.copy_location(ast.Name("__tried", ast.Store()), r)], r.value), r)
                back = ast.copy_location(ast.Return(ast.copy_location(ast.Name("__tried", ast.Load()), r)), r)
                st = ast.copy_location(ast.Try(st.body[:-1] + [keep], st.handlers, [back], st.finalbody), st)
            if isinstance(st, ast.Try) and st.orelse and not st.finalbody and all(_ends(h.body) for h in st.handlers):
                # try: A except: return; else: B -> try: A except: return;  B
                flat.append(ast.copy_location(ast.Try(st.body, st.handlers, [], []), st))
                flat.extend(st.orelse)
            else:
                flat.append(st)
        for st in flat:
            if isinstance(st, ast.If):
                st = canon_if(st)
                prev = new[-1] if new else None
                if isinstance(prev, ast.If) and not prev.orelse and _ends(prev.body) and _same(prev.body, st.body):
                    # if A: return x; if B: return x -> if A or B: return x
                    new[-1] = canon_if(ast.copy_location(ast.If(_join(ast.Or, prev.test, st.test), st.body, st.orelse), prev))
                    continue
            new.append(st)
        for i in range(len(new) - 2, -1, -1):
            st, rest = new[i], new[i + 1:]
            if isinstance(st, ast.If) and not st.orelse and _ends(st.body) and not _raises(st.body) and _raises(rest):
                # if A: return x; raise y -> if not A: raise y; return x
                neg = ast.copy_location(ast.UnaryOp(ast.Not(), st.test), st.test)
                new[i:] = [ast.copy_location(ast.If(neg, rest, []), st)] + st.body
        hit = _CANON[k] = (stmts, new)
    return hit[1]


class Interp:
    def __init__(self, project, known, meta=None):
        """known: quals treated as uninterpreted symbols; others are inlined.
        meta: interpreter of the confirmed definitions, whose effect summaries
        of known callees are used on both sides of a comparison."""
        self.p = project
        self.known = known
        self.meta = meta
        self._rw = {}
        self._mut = {}
        self._sum = {}
        self._modc = {}

    # ---------------------------------------------------------------- API
    def summary(self, qual):
        if qual in self._sum:
            return self._sum[qual]
        self._sum[qual] = None
        f = self.p.funcs[qual]
        n = len(LOG)
        s = Run(self, f).run()
        del LOG[n:]
        self._sum[qual] = s
        return s

    def mutated(self, qual):
        """Parameter names of repo function `qual` its body may mutate."""
        if qual in self._mut:
            return self._mut[qual]
        if self.meta is not None and qual in self.known and qual in self.meta.p.funcs:
            return self.meta.mutated(qual)
        self._mut[qual] = frozenset()
        from .effects import mutated_params
        self._mut[qual] = mutated_params(self.p, qual)
        return self._mut[qual]

    def rw(self, cq, name):
        """(reads, writes) of self attributes, transitively through self calls."""
        key = (cq, name)
        if key in self._rw:
            return self._rw[key]
        if self.meta is not None:
            m = self.meta.p.find_method(cq, name)
            if m is not None and m.qual in self.known:
                return self.meta.rw(cq, name)
        self._rw[key] = (frozenset(), frozenset())
        from .effects import self_rw
        self._rw[key] = self_rw(self.p, cq, name)
        return self._rw[key]

    def modconst(self, m, name):
        key = (m.name, name)
        if key in self._modc:
            return self._modc[key]
        self._modc[key] = N("global", f"{m.name}.{name}")
        if name in m.multi or name not in m.consts:
            return self._modc[key]
        v = Run(self, None, module=m).const_value(m.consts[name])
        if v is not None:
            self._modc[key] = v
        return self._modc[key]


class Run:
    def __init__(self, ip, func, module=None, cls=None):
        self.ip, self.p, self.f = ip, ip.p, func
        self.module = module or self.p.modules[func.module]
        self.cls = cls or (func.cls if func else None)
        self.path = []
        self._here = {}
        self.each = []
        self.effects = Log()  # (guard, node)
        self.raises = Log()   # (guard, exc)
        self.selfst = []      # (attr, guard, node)
        self.tracked = []     # param Vs
        self.nopaque = 0
        self.nhandlers = 0
        self.steps, self.tried, self.intry = [], [], 0
        self.within = set()
        self.stack = []
        self.selfvals = {}
        self.ticks = 0

    # ------------------------------------------------------------ helpers
    def guard(self, base=0, drop=()):
        ls = [l for l in self.path[base:] if l.dig not in drop]
        return and_(*ls)

    def here(self):
        """The conditions known to hold at this point, singly and as normalised together."""
        k = tuple(l.dig for l in self.path)
        if k not in self._here:
            self._here[k] = frozenset(k) | {l.dig for l in lits(self.guard())}
        return self._here[k]

    def snap(self, v, key=None):
        n = self.rawsnap(v, key)
        return strip_dead(n) if n.op == "ite" else n

    def rawsnap(self, v, key=None):
        if v.kind == "list" or v.kind == "dict":
            base = self._container(v)
        elif v.kind == "closure":
            return self.lambda_node(v)
        else:
            base = v.base
            if v.kind == "tuple" and v.clo and base.op == "tuple" and len(base.args) == len(v.clo):
                base = N("tuple", *[self.asleft(n, x) for n, x in zip(base.args, v.clo)])
            if base.op == "ite":
                for l in self.path:
                    base = cofactor(base, l, True) if l.op != "not" else cofactor(base, l.args[0], False)
                    if base.op != "ite":
                        break
        if not v.upds:
            return base
        cur = self.here()
        neg_ = {not_(l).dig for l in self.path}
        eqs = [l for l in self.path if l.op == "eq"]
        out = {}
        ctx = set(v.ctx)
        for g, u, fp in standing(v.upds):
            if key is not None and fp is not None and key not in fp:
                continue
            ls = lits(g)
            if any(l.dig in neg_ or l.op == "or" and all(x.dig in cur for x in lits(not_(l))) for l in ls) or (eqs and any(excl_eq(e, l) for e in eqs for l in ls)):
                continue
            g2 = and_(*[l for l in ls if l.dig not in ctx and l.dig not in cur])
            n = N("upd", u, g2) if g2 is not TRUE else N("upd", u)
            if g2 is TRUE and unit_of(u) is not None:
                # the last conversion counts
                out = {d: x for d, x in out.items() if unit_of(x.args[0]) is not unit_of(u)}
            out[n.dig] = n
        if not out:
            return base
        if isboolish(base) and base.op != "const":
            x = base
            for u in out.values():
                x = self.overlaid(x, u)
                if x is None:
                    break
            else:
                return x
        return N("obj", base, *sorted(out.values(), key=lambda n: n.dig))

    def overlaid(self, x, u):
        """A field of truth values after m[c] = v, where that is m & .. or m | .."""
        if len(u.args) != 1 or u.args[0].op != "setitem":
            return None
        c, v = u.args[0].args
        if v is FALSE and isboolish(c):
            return and_(x, not_(c))
        if v is TRUE and isboolish(c):
            return or_(x, c)
        if c is x and v.op == "idx" and v.args[1] is x:
            return and_(x, v.args[0])
        return None

    def asleft(self, n, v):
        """What a container holds, with what has happened since to the object put in it."""
        if id(v) in self.within:
            return n
        self.within.add(id(v))
        x = self.snap(v)
        self.within.discard(id(v))
        return N("ent", n.args[0], x) if n.op == "ent" else x

    def held(self, g, v, key=None):
        """An entry of a container."""
        n = self.snap(v)
        x = n if key is None else N("ent", key, n)
        return (g, x) if v.kind == "closure" or n.op in ("const", "mod") else (g, x, v)

    def _container(self, v):
        cur = self.here()
        neg_ = {not_(l).dig for l in self.path}
        eqs = [l for l in self.path if l.op == "eq"]
        ctx = set(v.ctx)
        parts = []
        for part in v.parts:
            g, n = part[:2]
            if len(part) > 2:
                n = self.asleft(n, part[2])
            ls = lits(g)
            if any(l.dig in neg_ or l.op == "or" and all(x.dig in cur for x in lits(not_(l))) for l in ls) or (eqs and any(excl_eq(e, l) for e in eqs for l in ls)):
                continue
            g2 = and_(*[l for l in ls if l.dig not in ctx and l.dig not in cur])
            parts.append((g2, n))
        if v.kind == "list" and v.wrap is not None:
            v.wrap, w = None, v.wrap
            n = self._container(v)
            v.wrap = w
            if w == "set":
                if n.op == "list" and all(x.op == "item" for x in n.args):
                    return N("set", *sorted({x.dig: x for x in n.args}.values(), key=lambda x: x.dig))
                if n.op == "call" and n.args[0] == "list" and len(n.args) == 2:
                    n = n.args[1]
            return N("call", w, n)
        if v.kind == "list":
            out = []
            for g, n in parts:
                if n.op == "splice":
                    if g is TRUE and n.args[0].op == "list":
                        out.extend(n.args[0].args)
                    else:
                        out.append(N("splice", n.args[0]) if g is TRUE else N("splice", n.args[0], g))
                else:
                    out.append(N("item", n) if g is TRUE else N("item", n, g))
            moved = len(out) > 1 and len(out) < 40
            while moved:
                moved = False
                for i in range(len(out) - 1):
                    if out[i].dig > out[i + 1].dig and exclusive(out[i], out[i + 1]):
                        out[i], out[i + 1] = out[i + 1], out[i]
                        moved = True
            # [a if c] followed by [b if not c]  ->  [ite(c,a,b)]
            i = 0
            while i + 1 < len(out):
                x, y = out[i], out[i + 1]
                if x.op == y.op == "item" and len(x.args) == 2 and len(y.args) == 2:
                    m = complementary(x.args[1], y.args[1])
                    if m is not None:
                        c, rest = m
                        val = ite(c, x.args[0], y.args[0])
                        out[i:i + 2] = [N("item", val) if rest is TRUE else N("item", val, rest)]
                        continue
                i += 1
            if len(out) == 1 and out[0].op == "splice" and len(out[0].args) == 1:
                return N("call", "list", out[0].args[0])
            return N("list", *out)
        ents = {}
        for g, n in parts:
            if n.op == "ent":
                if g is TRUE and n.args[0].op == "const":
                    ents = {d: e for d, e in ents.items() if e.args[0] is not n.args[0]}
                e = n if g is TRUE else N("ent", n.args[0], n.args[1], g)
                ents[e.dig] = e
            else:
                e = n if g is TRUE else N("dsplice", n.args[0], g)
                if n.op == "dsplice" and g is TRUE and n.args[0].op == "dict":
                    for x in n.args[0].args:
                        ents[x.dig] = x
                else:
                    ents[e.dig] = e
        es = list(ents.values())
        changed = True
        while changed:
            changed = False
            for i in range(len(es)):
                for j in range(i + 1, len(es)):
                    x, y = es[i], es[j]
                    if x.op == y.op == "ent" and len(x.args) == len(y.args) == 3 and x.args[0] is y.args[0]:
                        m = complementary(x.args[2], y.args[2])
                        if m is not None:
                            c, rest = m
                            val = ite(c, x.args[1], y.args[1])
                            es[i] = N("ent", x.args[0], val) if rest is TRUE else N("ent", x.args[0], val, rest)
                            del es[j]
                            changed = True
                            break
                if changed:
                    break
        return N("dict", *sorted(es, key=lambda n: n.dig))

    def mk(self, base, links=(), cls=None):
        return V(base, links, self.here(), cls=cls)

    def mklist(self, parts=()):
        v = V(None, (), self.here(), kind="list")
        g = self.guard()
        for x in parts:
            v.parts.append((g, x))
        return v

    def update(self, v, u, fp, seen=None, extra=TRUE):
        seen = seen or set()
        if id(v) in seen:
            return
        seen.add(id(v))
        g = and_(self.guard(), extra)
        v.upds.append((g, u, fp))
        for (t, path, ex) in v.links:
            if path is None:
                self.update(t, u, fp, seen, and_(extra, ex))
            else:
                nu = N("at", path, u)
                h = path.args[0] if path.args and isinstance(path.args[0], str) else None
                nfp = FP_STORE.get(h)
                if path.op in ("pidx", "pelem"):
                    nfp = None
                self.update(t, nu, nfp, seen, and_(extra, ex))

    def opaque(self, what):
        self.nopaque += 1
        return N("opaque", what)

    # ---------------------------------------------------------------- run
    def run(self):
        f = self.f
        node = f.node
        env = {}
        params = f.all_params
        if f.kind in ("method", "property", "classmethod") and params:
            env[params[0]] = self.mk(N("self")) if f.kind != "classmethod" else self.mk(N("cls"))
            self.selfname = params[0]
            rest = params[1:]
        else:
            self.selfname = None
            rest = params
        ann = {}
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                ann[x.arg] = x.annotation
        for x in rest:
            v = self.mk(N("param", x))
            env[x] = v
            self.tracked.append((x, v))
        s = Summary()
        fr = Frame(self.ip, node, self.module, self.cls, env, 0)
        fr.selfname = self.selfname
        self.stack.append(fr)
        fr.live = self.block(node.body, env, fr)
        self.stack.pop()
        items = s.items
        items["ret"] = self.result(fr, node)
        rr = {}
        for g, exc in self.raises:
            rr.setdefault(exc, []).append(g)
        for exc, gs in rr.items():
            items[f"raise:{exc}"] = N("raiseif", *[x for x in dnf(or_(*gs))])
        ss = {}
        for at, g, n, v in self.selfst:
            if v is not None and v.kind != "closure":
                # the object as it is left, including what was done to it after the store
                self.path = list(lits(g))
                n = self.snap(v)
            ss.setdefault(at, []).append((g, n))
        self.path = []
        for at, lst in ss.items():
            has = truth(N("selfattr", at))
            # storing what is there already changes nothing
            lst = [(and_(*[l for l in lits(g) if l is not not_(has) or n is not TRUE]), n) for g, n in lst]
            lst = last_wins(lst) or merge_guarded(lst, True)
            items[f"self:{at}"] = N("stores", *sorted([N("st", n, g) for g, n in lst], key=lambda n: n.dig))
        for at, v in self.selfvals.items():
            if v.upds:
                items[f"selfupd:{at}"] = self.updnode(v)
        for x, v in self.tracked:
            if v.upds:
                items[f"upd:{x}"] = self.updnode(v)
                s.mut.add(x)
        eff = merge_guarded(self.effects)
        if eff:
            items["eff"] = N("effects", *sorted({N("ef", n, g).dig: N("ef", n, g) for g, n in eff}.values(), key=lambda n: n.dig))
        if self.tried:
            items["tried"] = N("steps", *sorted({N("try", n, g).dig: N("try", n, g) for g, n in merge_guarded(self.tried)}.values(), key=lambda n: n.dig))
        steps = self.carried(items)
        if steps:
            items["step"] = N("steps", *steps)
        defs = []
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defs.append(N("default", x.arg, self.static(d)))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs.append(N("default", x.arg, self.static(d)))
        if defs:
            items["defaults"] = N("defaults", *sorted(defs, key=lambda n: n.args[0]))
        decs = []
        for d in node.decorator_list:
            if not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod")):
                decs.append(self.static(d))
        if decs:
            items["decorators"] = N("decorators", *decs)
        s.opaque, s.handlers = self.nopaque, self.nhandlers
        return s

    def carried(self, items):
        """What each pass of a loop leaves to the next, where that is used but not itself
        part of what comes out of the function."""
        seen = set()

        def walk(n):
            todo = [n]
            while todo:
                x = todo.pop()
                if x.dig not in seen:
                    seen.add(x.dig)
                    todo += [a for a in x.args if isinstance(a, Node)]

        for n in items.values():
            walk(n)
        out, more = {}, True
        while more:
            more = False
            for P, step in self.steps:
                if P.dig in seen and step.dig not in seen and step.dig not in out:
                    out[step.dig] = step
                    walk(step)
                    more = True
        return [out[d] for d in sorted(out)]

    def static(self, e):
        fr = Frame(self.ip, None, self.module, self.cls, {}, 0)
        fr.selfname = None
        self.stack.append(fr)
        try:
            return self.node(e)
        finally:
            self.stack.pop()

    def const_value(self, e):
        """Value node for a module/class level constant expression."""
        try:
            n = self.static(e)
        except RecursionError:
            return None
        return n

    def updnode(self, v):
        lst = merge_guarded([(g, u) for g, u, fp in standing(v.upds)])
        return N("updates", *sorted({N("up", u, g).dig: N("up", u, g) for g, u in lst}.values(), key=lambda n: n.dig))

    def result(self, fr, node):
        if fr.yields is not None:
            return self.snap(fr.yields)
        rets = fr.rets
        if not rets:
            return NONE
        out = NONE if fr.live else DEAD
        if len(rets) == 1 and not fr.live and not any(l.op == "each" for l in lits(rets[0][0])):
            return rets[0][1]
        seen = []
        chain = []
        for g, n in rets:
            ls = [l for l in lits(g) if l.dig not in seen]
            chain.append((and_(*ls), n))
            seen.append(not_(g).dig)
            for l in lits(not_(g)):
                seen.append(l.dig)
        # last return with empty residual guard closes the chain
        for g, n in reversed(chain):
            out = self.ret_ite(g, n, out)
        return strip_dead(out)

    def ret_ite(self, g, n, out):
        # a return inside a loop: exists x in it: cond
        if any(l.op == "each" for l in lits(g)):
            anyc = any_of(g)
            if n.op == "const":
                return ite(anyc, n, out)
            return ite(anyc, N("first", n, g), out)
        return ite(g, n, out)

    # -------------------------------------------------------------- blocks
    def block(self, stmts, env, fr):
        """Returns True if the end of the block is reachable."""
        stmts = canon(stmts)
        for st in stmts:
            self.ticks += 1
            if not self.stmt(st, env, fr):
                return False
        return True

    def stmt(self, st, env, fr):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            self.opaque(type(st).__name__)
            return True
        r = m(st, env, fr)
        return True if r is None else r

    def s_Pass(self, st, env, fr):
        pass

    s_Import = s_ImportFrom = None

    def s_Import(self, st, env, fr):
        for a in st.names:
            env[a.asname or a.name.split(".")[0]] = V(N("mod", a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, st, env, fr):
        base = st.module or ""
        for a in st.names:
            env[a.asname or a.name] = V(N("mod", self.p.canonical(base + "." + a.name)))

    def s_Global(self, st, env, fr):
        self.effects.append((self.guard(), N("globaldecl", *st.names)))

    def s_Nonlocal(self, st, env, fr):
        pass

    def s_Expr(self, st, env, fr):
        e = st.value
        if isinstance(e, ast.Constant):
            return
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            self.ev(e, env)
            return
        if isinstance(e, ast.Call):
            self.call(e, env, discard=True)
            return
        v = self.ev(e, env)
        if self.intry or isinstance(e, ast.Attribute) and e.attr == "data":
            self.attempted(v)

    def attempted(self, v):
        """A value asked for to see whether it is refused, or to have it fetched."""
        n = self.snap(v)
        if n.op in ("m", "call", "fn", "idx", "list", "attr") and not (n.op == "list" and not n.args):
            self.tried.append((self.guard(), n))

    def s_Return(self, st, env, fr):
        n = self.node(st.value, env) if st.value is not None else NONE
        g = and_(*self.path[fr.entry:])
        fr.rets.append((g, n))
        fr.exits[-1].append(g) if getattr(fr, "exits", None) else None
        fr.retexits.append(g)
        return False

    def s_Raise(self, st, env, fr):
        exc = "re-raise"
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call):
                e2 = e.func
                for a in list(e.args):
                    pass
            else:
                e2 = e
            exc = self.exc_name(e2, env)
        self.raises.append((self.guard(), exc))
        return False

    def exc_name(self, e, env):
        if isinstance(e, ast.Name):
            if e.id in env:
                v = env[e.id]
                n = v.base
                if n is not None and n.op in ("call", "mod"):
                    return str(n.args[0]).split(".")[-1]
                return "var"
            r = self.p.resolve_name(self.module, e.id)
            return (r or e.id).split(".")[-1]
        if isinstance(e, ast.Attribute):
            return e.attr
        if isinstance(e, ast.Call):
            return self.exc_name(e.func, env)
        return "expr"

    def s_Assert(self, st, env, fr):
        c = self.cond(st.test, env)
        if c is not TRUE:
            self.raises.append((and_(self.guard(), not_(c)), "AssertionError"))

    def s_Delete(self, st, env, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                v = self.ev(t.value, env)
                self.update(v, N("delitem", self.index(t.slice, env)), None)
            elif isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                v = self.ev(t.value, env)
                self.update(v, N("delattr", t.attr), None)

    def s_FunctionDef(self, st, env, fr):
        env[st.name] = V(None, kind="closure", clo=Closure(st, env, st.name))

    def s_ClassDef(self, st, env, fr):
        env[st.name] = V(self.opaque("localclass"))

    def s_Assign(self, st, env, fr):
        v = self.ev(st.value, env)
        if self.intry and any(isinstance(t, ast.Name) and t.id == "_" for t in st.targets):
            self.attempted(v)
        for t in st.targets:
            self.assign(t, v, env, fr)

    def s_AnnAssign(self, st, env, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env, fr)

    def s_AugAssign(self, st, env, fr):
        t = st.target
        op = type(st.op).__name__
        rhs = self.ev(st.value, env)
        if isinstance(t, ast.Name):
            cur = env.get(t.id)
            if cur is None:
                cur = self.ev(t, env)
            if cur.kind == "list" and op == ("BitOr" if cur.wrap == "set" else "Add"):
                self.extend(cur, rhs)
                return
            n = self.binop(op, self.snap(cur), self.snap(rhs))
            env[t.id] = self.mk(n)
            return
        cur = self.ev(_load(t), env)
        if isinstance(t, ast.Attribute) and self.is_self(t.value, env, fr) and cur.kind == "list" and op == "Add":
            self.extend(cur, rhs)
            return
        n = self.binop(op, self.snap(cur), self.snap(rhs))
        self.assign(t, self.mk(n), env, fr)

    def is_self(self, e, env, fr):
        return isinstance(e, ast.Name) and e.id in env and env[e.id].base is not None and env[e.id].base.op == "self"

    def assign(self, t, v, env, fr):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = self.snap(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    after = len(t.elts) - 1 - i
                    sl = N("slice", C(i) if i else NONE, C(-after) if after else NONE, NONE)
                    self.assign(e.value, self.mk(N("idx", n, sl), [(v, N("pidx", sl), TRUE)]), env, fr)
                else:
                    k = i if not star or i < star[0] else i - len(t.elts)
                    src = v.clo[k] if v.kind == "tuple" and isinstance(v.clo, list) and -len(v.clo) <= k < len(v.clo) else None
                    if src is not None:
                        self.assign(e, src, env, fr)
                    else:
                        self.assign(e, self.mk(idx(n, C(k)), [(v, N("pidx", C(k)), TRUE)]), env, fr)
        elif isinstance(t, ast.Attribute):
            if self.is_self(t.value, env, fr):
                n = self.snap(v)
                env["self." + t.attr] = v
                self.selfst.append((t.attr, self.guard(), n, v))
                return
            r = self.ev(t.value, env)
            n = self.snap(v)
            if r.base is not None and r.base.op in ("mod", "global", "class") and r.kind is None:
                # something other functions share
                self.effects.append((self.guard(), N("gstore", r.base, t.attr, n)))
            self.update(r, N("store", t.attr, n), FP_STORE.get(t.attr))
        elif isinstance(t, ast.Subscript):
            r = self.ev(t.value, env)
            i = self.index(t.slice, env)
            n = self.snap(v)
            if r.kind == "dict":
                r.parts.append(self.held(self.guard(), v, i))
                for (tt, path, ex) in r.links:
                    self.update(tt, N("at", path, N("setitem", i, n)), None)
                if getattr(r, "key", None) is None:
                    pass
                return
            self.update(r, N("setitem", i, n), {"data", "items"} if True else None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fr)

    def extend(self, lst, v):
        n = self.snap(v)
        if n.op == "m" and n.args[0] == "keys" and len(n.args) == 2 or n.op == "call" and n.args[0] == "iris.cube.CubeList" and len(n.args) == 2:
            n = n.args[1]
        if n.op == "list" or n.op == "set" and lst.wrap == "set":
            for p in n.args:
                g = self.guard()
                if p.op == "item":
                    if len(p.args) == 2:
                        g = and_(g, p.args[1])
                    lst.parts.append((g, p.args[0]))
                else:
                    lst.parts.append((g, p))
        elif n.op == "tuple":
            for p in n.args:
                lst.parts.append((self.guard(), p))
        else:
            lst.parts.append((self.guard(), N("splice", n)))
        for (tt, path, ex) in lst.links:
            if path is not None:
                self.update(tt, N("at", path, N("extend", n)), None)

    # -- control flow ---------------------------------------------------
    def cond(self, e, env):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, env))
        if isinstance(e, ast.BoolOp):
            isand, base, ts = isinstance(e.op, ast.And), len(self.path), []
            for x in e.values:
                t = self.cond(x, env)
                ts.append(t)
                self.path.extend(l for l in lits(t if isand else not_(t)) if l.op != "const")
            del self.path[base:]
            return (and_ if isand else or_)(*ts)
        return truth(self.node(e, env))

    def s_If(self, st, env, fr):
        c = self.cond(st.test, env)
        self.branch(c, st.body, st.orelse, env, fr)
        return self._live

    def branch(self, c, body, orelse, env, fr):
        body, orelse = canon(body), canon(orelse)
        if c is TRUE:
            self._live = self.block(body, env, fr)
            return
        if c is FALSE:
            self._live = self.block(orelse, env, fr)
            return
        base = len(self.path)
        n0 = len(fr.retexits)
        l0 = len(fr.loopexits)
        envs, lives, snaps = [dict(env), dict(env)], [True, True], [{}, {}]
        d1, d2 = _ends(body), _ends(orelse)
        second = d2 and (not d1 or _raises(orelse) and not _raises(body))
        for i in ((1, 0) if second else (0, 1)):
            b = (body, orelse)[i]
            if (d1 or d2) and i == (0 if second else 1):
                # the other side leaves: what is left is what follows its exits
                for g in fr.retexits[n0:]:
                    self.add_exit(g, fr.entry, base)
                for g in fr.loopexits[l0:]:
                    self.add_exit(g, 0, base)
                lives[i] = self.block(b, envs[i], fr)
            else:
                self.path.extend(lits((c, not_(c))[i]))
                lives[i] = self.block(b, envs[i], fr)
            snaps[i] = self.snaps(env, envs[i], lives[i])
            del self.path[base:]
        env1, env2, live1, live2, snap1, snap2 = *envs, *lives, *snaps
        raised = len(fr.retexits) == n0 and len(fr.loopexits) == l0 and any_eq(c)
        self.merge(c, env, env1, env2, live1, live2, snap1, snap2, raised)
        # negations of non-raising exits
        for g in fr.retexits[n0:]:
            self.add_exit(g, fr.entry, base)
        for g in fr.loopexits[l0:]:
            self.add_exit(g, 0, base)
        self._live = live1 or live2

    def add_exit(self, g, entry, base):
        cur = {l.dig for l in self.path[:base]}
        rel = [l for l in lits(g) if l.dig not in cur]
        if any(l.op == "each" for l in rel):
            nl = not_(any_of(and_(*rel)))
        else:
            nl = not_(and_(*rel))
        have = {l.dig for l in self.path}
        for l in lits(nl):
            if l.dig not in have:
                self.path.append(l)
                have.add(l.dig)

    def snaps(self, env0, env1, live):
        if not live:
            return {}
        out = {}
        for k, v in env1.items():
            if env0.get(k) is not v and v.kind != "closure":
                out[k] = self.rawsnap(v)
        return out

    def merge(self, c, env, env1, env2, live1, live2, s1, s2, raised=False):
        if live1 != live2:
            src, ss = (env1, s1) if live1 else (env2, s2)
            old = dict(env)
            env.clear()
            env.update(src)
            if raised:
                for k, n in ss.items():
                    if not k.startswith("self.") and src[k].kind is None and n.op != "obj":
                        v = src[k]
                        nv = self.mk(ite(c, n, DEAD) if live1 else ite(c, DEAD, n), [(v, None, TRUE)], cls=v.cls)
                        env[k] = nv
            return
        if not live1 and not live2:
            return
        keys = set(env1) | set(env2)
        for k in sorted(keys):
            a, b = env1.get(k), env2.get(k)
            if a is b:
                env[k] = a
                continue
            if a is None or b is None:
                # defined on one branch only
                x = a or b
                if k.startswith("self."):
                    na = s1.get(k) if a is not None else self.selfbase(k[5:])
                    nb = s2.get(k) if b is not None else self.selfbase(k[5:])
                    if na is None: na = self.snap(a)
                    if nb is None: nb = self.snap(b)
                    env[k] = self.mk(ite(c, na, nb))
                elif x.kind == "closure":
                    env[k] = x
                elif x.kind is not None or x.upds or (s1 if a is not None else s2).get(k) is None:
                    env[k] = x
                else:
                    # maybe-undefined name: value where defined
                    n = (s1 if a is not None else s2)[k]
                    und = N("undef")
                    env[k] = self.mk(ite(c, n, und) if a is not None else ite(c, und, n), [(x, None, TRUE)], cls=x.cls)
                continue
            if a.kind == "closure" or b.kind == "closure":
                if a.kind == b.kind and a.clo.node is b.clo.node:
                    env[k] = a
                else:
                    env[k] = self.mk(ite(c, self.snap(a), self.snap(b)))
                continue
            na = s1.get(k) if s1.get(k) is not None else self.snap(a)
            nb = s2.get(k) if s2.get(k) is not None else self.snap(b)
            if na is nb and a.kind == b.kind:
                env[k] = a
                continue
            nv = self.mk(ite(c, na, nb), [(a, None, c), (b, None, not_(c))], cls=a.cls if a.cls == b.cls else None)
            env[k] = nv

    def selfbase(self, attr):
        return N("selfattr", attr)

    def s_For(self, st, env, fr):
        it = self.ev(st.iter, env)
        few = self.few(st, it, env)
        if few is not None:
            name, names = inplace_items(st, len(few))
            for i, x in enumerate(few):
                self.assign(st.target, x, env, fr)
                first = env[name] if names else None
                if not self.block(no_continue(st, st.body), env, fr):
                    return False
                if names and names[i] in env and env.get(name) is not first and env[names[i]].kind is None:
                    env[names[i]] = env[name]
            return True
        eachn, bind = self.bind_iter(it, st.iter, env)
        return self.loop(st, eachn, lambda e: bind(st.target, e, fr), st.body, st.orelse, env, fr)

    def elements(self, v):
        """The objects in a list, if each is known."""
        if v.kind != "list" or v.upds or v.wrap not in (None, "iris.cube.CubeList"):
            return None
        cur, ctx = self.here(), set(v.ctx)
        if any(p[1].op in ("splice", "dsplice") or any(l.dig not in ctx and l.dig not in cur for l in lits(p[0])) for p in v.parts):
            return None
        return [p[2] if len(p) > 2 else self.mk(p[1]) for p in v.parts]

    def few(self, st, it, env):
        """The elements of an iteration over a handful of things written out, which is
        followed element by element."""
        if st.orelse or _breaks(no_continue(st, st.body)):
            return None
        return self.written(st.iter, it, env)

    def written(self, x, it, env):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("enumerate", "zip", "reversed") and x.args and \
                x.func.id not in env and not any(isinstance(a, ast.Starred) for a in x.args):
            xs = [self.written(a, self.ev(a, env), env) for a in (x.args if x.func.id == "zip" else x.args[:1])]
            start = x.args[1:] + [k.value for k in x.keywords]
            if any(y is None for y in xs) or x.func.id != "enumerate" and x.keywords or start and x.func.id == "enumerate" and not \
                    (isinstance(start[0], ast.Constant) and isinstance(start[0].value, int)):
                return None
            if x.func.id == "reversed":
                return xs[0][::-1]
            if x.func.id == "enumerate":
                k = start[0].value if start else 0
                xs = [[self.mk(C(k + i)) for i in range(len(xs[0]))], xs[0]]
            return [self.tuplev(list(t)) for t in zip(*xs)]
        if isinstance(x, (ast.Tuple, ast.List)) and 1 <= len(x.elts) <= (6 if all(isinstance(e, ast.Name) for e in x.elts) else 4) and \
                not any(isinstance(e, ast.Starred) for e in x.elts):
            return [self.ev(e, env) for e in x.elts]
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and 1 <= len(x.value) <= 4:
            return [self.mk(C(c)) for c in x.value]
        v = it
        while isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "iter") and len(x.args) == 1 and not x.keywords:
            x = x.args[0]
            v = self.ev(x, env)
        if v.kind == "tuple" and v.clo and v.base.op == "tuple" and len(v.base.args) == len(v.clo) <= 6 and not v.upds:
            return list(v.clo)
        vs = self.elements(v)
        if vs and len(vs) <= 4:
            return vs
        n = self.snap(it)
        if n.op == "m" and n.args[0] in ("items", "values", "keys") and len(n.args) == 2 and n.args[1].op == "dict" or n.op == "dict":
            d = n if n.op == "dict" else n.args[1]
            if not 1 <= len(d.args) <= 4 or any(e.op != "ent" or len(e.args) != 2 or e.args[0].op != "const" for e in d.args):
                return None
            how = n.args[0] if n.op == "m" else "keys"
            f = lambda e: e.args[0] if how == "keys" else e.args[1] if how == "values" else N("tuple", *e.args)
            if how != "keys" and any(e.args[1].op not in ("const", "param") for e in d.args):
                return None
            return [self.mk(f(e)) for e in sorted(d.args, key=lambda e: repr(e.args[0].args[0]))]
        if n.op == "tuple":
            xs = list(n.args)
        elif n.op == "list" and all(x.op == "item" and len(x.args) == 1 for x in n.args):
            xs = [x.args[0] for x in n.args]
        else:
            return None
        plain = lambda x: x.op == "const" or x.op == "tuple" and all(plain(y) for y in x.args)
        if not 1 <= len(xs) <= 4 or not all(plain(x) for x in xs):
            return None
        return [self.mk(x) for x in xs]

    def s_While(self, st, env, fr):
        names = assigned(st.body)
        level = len(self.each)
        pre = {}
        for k in names:
            if k in env and env[k].kind != "closure":
                pre[k] = self.snap(env[k])
                env[k] = self.mk(N("carry", level, pre[k]))
        c = self.cond(st.test, env)
        w = N("each", N("while", c), 0)
        return self.loop(st, w, lambda e: None, st.body, st.orelse, env, fr, pre=pre)

    def loop(self, st, eachn, bind, body, orelse, env, fr, pre=None):
        body = no_continue(st, body)
        base = len(self.path)
        level = len(self.each)
        names = assigned(body)
        orig = dict(env) if fr.depth else {}
        if pre is None:
            pre = {}
            grown = grown_and_read(body, lambda call: self.helper_def(call, env, fr))
            for k in names | grown:
                if k in env and env[k].kind not in ("closure",):
                    if env[k].kind in ("list", "dict") and not rebinds(body, k) and k not in grown:
                        continue
                    if k in grown and k not in names and env[k].kind not in ("list", "dict"):
                        continue
                    pre[k] = self.snap(env[k])
                    env[k] = self.mk(N("carry", level, pre[k]))
            names = names | {k for k in grown if k in pre}
            for k in across(body) - set(env):
                pre[k] = N("undef")
                env[k] = self.mk(N("carry", level, pre[k]))
        env1 = dict(env)
        bind(env1)
        n0, l0 = len(fr.retexits), len(fr.loopexits)
        fr.loopbase.append(len(fr.loopexits))
        brk0 = len(fr.breaks)
        log0 = len(LOG)
        fr.passes.append((names, []))
        fr.carried.append((names, level))
        self.path.append(eachn)
        self.each.append(eachn)
        live = self.block(body, env1, fr)
        ends = fr.passes.pop()[1]
        fr.carried.pop()
        vals = {}
        for k, v in env1.items():
            if (k in pre or k not in env or env.get(k) is not v) and v.kind != "closure":
                vals[k] = self.snap(v)
        # where a pass ends early, variables have the values they had there
        if not live and ends:
            vals.update({k: n for k, n in ends[-1][1].items() if k in vals or k not in env})
            ends.pop()
        for g, early in reversed(ends):
            for k, n in early.items():
                if k in vals:
                    vals[k] = ite(g, n, vals[k])
                elif k not in env and k in names:
                    vals[k] = ite(g, n, N("undef"))
        brk = or_(*fr.breaks[brk0:])
        if brk is not FALSE:
            # what the loop does to other objects ends with it
            unbroken = N("unbroken", eachn, brk)
            for lst, i in LOG[log0:]:
                if i < len(lst) and any(l is eachn for l in lits(lst[i][0])):
                    list.__setitem__(lst, i, (and_(lst[i][0], unbroken),) + lst[i][1:])
        if not self.each[:-1]:
            del LOG[log0:]
        del fr.breaks[brk0:]
        del fr.loopexits[l0:]
        fr.loopbase.pop()
        self.each.pop()
        del self.path[base:]
        for k, n in vals.items():
            init = pre.get(k)
            if k in pre or k in names and k in fr.early:
                # what one pass leaves to the next
                P = N("carry", level, init or N("undef"))
                if n is not P:
                    self.steps.append((P, N("loop", eachn, P.args[1], n) if brk is FALSE else N("loop", eachn, P.args[1], n, brk)))
            if k not in names and not k.startswith("self."):
                # loop target or comprehension leak
                env[k] = self.mk(self.post_loop(eachn, None, n, brk, level))
                continue
            if init is None and k in env and env[k] is env1.get(k):
                continue
            if init is None and k.startswith("self."):
                init = self.selfbase(k[5:])
            nv = self.mk(self.post_loop(eachn, init, n, brk, level), cls=env1[k].cls if k in env1 else None)
            if k in orig and orig[k].kind in ("list", "dict") and fr.depth and not rebinds(body, k):
                # a container owned by the caller of an inlined helper
                o = orig[k]
                ctx = set(o.ctx)
                g = and_(*[l for l in self.path if l.dig not in ctx])
                o.base, o.kind, o.parts, o.upds = ite(g, nv.base, pre[k]), None, [], []
            env[k] = nv
        for g in fr.retexits[n0:]:
            self.add_exit(g, fr.entry, base)
        if orelse:
            if brk is FALSE:
                return self.block(orelse, env, fr)
            c = not_(any_of(and_(eachn, brk)))
            self.branch(c, orelse, [], env, fr)
            return self._live
        return True

    def post_loop(self, eachn, init, val, brk, level):
        if init is None:
            return N("loop", eachn, N("undef"), val) if brk is FALSE else N("loop", eachn, N("undef"), val, brk)
        P = N("carry", level, init)
        if val is P:
            return init
        if brk is FALSE and eachn.args[0].op != "while":
            if val.op == "add" and any(t is P for t in val.args):
                rest = add(*[t for t in val.args if t is not P])
                if not contains(rest, P):
                    g = eachn
                    if rest.op == "ite" and rest.args[2] is C(0):
                        g, rest = and_(eachn, rest.args[0]), rest.args[1]
                    if rest.op == "ite" and rest.args[1] is C(0):
                        g, rest = and_(g, not_(rest.args[0])), rest.args[2]
                    if rest is C(1) and init is C(0):
                        return N("call", "len", N("list", N("item", TRUE, g)))
                    return add(init, N("call", "sum", N("list", N("item", rest, g))))
        if val.op == "ite" and brk is not FALSE and eachn.args[0].op != "while":
            # the first match of a search left with break
            c, a, b = val.args
            if b is P and brk is c and not contains(c, P) and not contains(a, P):
                g = and_(eachn, c)
                return ite(any_of(g), N("first", a, g), init)
        if brk is FALSE and eachn.args[0].op != "while" and val.op == ("and" if init is TRUE else "or") and init in (TRUE, FALSE) \
                and any(t is P for t in val.args):
            # a flag kept up to date in every pass
            rest = (and_ if init is TRUE else or_)(*[t for t in val.args if t is not P])
            if not contains(rest, P):
                return not_(any_of(and_(eachn, not_(rest)))) if init is TRUE else any_of(and_(eachn, rest))
        if val.op == "ite" and init in (TRUE, FALSE):
            c, a, b = val.args
            if a is P:
                c, a, b = not_(c), b, a
            if b is P and a.op == "const" and not contains(c, P):
                if a is TRUE and init is FALSE:
                    return any_of(and_(eachn, c))
                if a is FALSE and init is TRUE:
                    return not_(any_of(and_(eachn, c)))
        return N("loop", eachn, init, val) if brk is FALSE else N("loop", eachn, init, val, brk)

    def bind_iter(self, itv, expr, env):
        """(each-literal, binder). Recognises enumerate/zip/range(len)/items."""
        def lv(n):
            return sum(1 for e in self.each if e.args[0] is n)

        def go(n, v):
            if n.op == "call" and n.args[0] == "enumerate":
                inner = n.args[1]
                start = n.args[2] if len(n.args) > 2 else None
                if start is not None and start.op == "kw":
                    start = start.args[1]
                eachn, val = go(inner, None)
                p = N("pos", eachn.args[0], eachn.args[1])
                if start is not None:
                    p = add(p, start)
                return eachn, N("tuple", p, val)
            if n.op == "call" and n.args[0] == "range" and len(n.args) == 2:
                a = n.args[1]
                if a.op == "call" and a.args[0] == "len":
                    x = a.args[1]
                    k = lv(x)
                    return N("each", x, k), N("pos", x, k)
            if n.op == "call" and n.args[0] == "zip":
                arg = [a for a in n.args[1:] if isinstance(a, Node)]
                if arg and not any(a.op in ("star", "kw") for a in arg):
                    eachn, first = go(arg[0], None)
                    p = N("pos", eachn.args[0], eachn.args[1])
                    return eachn, N("tuple", first, *[idx_at(a, p) for a in arg[1:]])
                k = lv(n)
                return N("each", n, k), N("elem", n, k)
            if n.op == "m" and n.args[0] == "items" and len(n.args) == 2:
                d = n.args[1]
                k = lv(d)
                key = N("elem", d, k)
                return N("each", d, k), N("tuple", key, N("idx", d, key))
            if n.op == "m" and n.args[0] == "keys" and len(n.args) == 2:
                d = n.args[1]
                k = lv(d)
                return N("each", d, k), N("elem", d, k)
            if n.op == "m" and n.args[0] == "values" and len(n.args) == 2:
                d = n.args[1]
                k = lv(d)
                return N("each", d, k), N("idx", d, N("elem", d, k))
            if n.op == "call" and n.args[0] in ("list", "tuple", "iter", "iris.cube.CubeList") and len(n.args) == 2:
                return go(n.args[1], v)
            k = lv(n)
            return N("each", n, k), N("elem", n, k)

        n = self.snap(itv)
        # iterating a mapped list: for y in [f(x) for x in xs]: keep as elem
        eachn, val = go(n, itv)

        def unwrapped(x):
            while isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "iter") and len(x.args) == 1 and not x.keywords:
                x = x.args[0]
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "nditer" and x.args:
                x = x.args[0]       # the items stand for places of the array
            return x

        def link(name, x, e):
            if isinstance(x, ast.Starred) or name not in e:
                return
            x = unwrapped(x)
            e[name].links = [(itv if x is expr else self.ev(x, env), N("pelem"), TRUE)]

        def bind(target, e, fr):
            self.assign(target, self.mk(val), e, fr)
            x = unwrapped(expr)
            way = x.func.attr if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and not x.args else None
            if way in ("items", "values"):
                # the values of a dictionary are parts of it, as d[key] is
                part = val.args[1] if val.op == "tuple" and way == "items" and len(val.args) == 2 else val
                t = target if way == "values" else target.elts[1] if isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2 else None
                if isinstance(t, ast.Name) and t.id in e and part.op == "idx":
                    e[t.id].links = [(self.ev(x.func.value, env), N("pidx", part.args[1]), TRUE)]
                return
            if isinstance(target, ast.Name):
                if val.op in ("elem", "idx"):
                    link(target.id, x, e)
            # for (x, y) in zip(a, b): link the parts to their containers
            elif isinstance(target, (ast.Tuple, ast.List)) and isinstance(x, ast.Call):
                nm = x.func.id if isinstance(x.func, ast.Name) else None
                if nm == "zip" and len(x.args) == len(target.elts):
                    for t, a in zip(target.elts, x.args):
                        if isinstance(t, ast.Name):
                            link(t.id, a, e)
                elif nm == "enumerate" and len(target.elts) == 2 and isinstance(target.elts[1], ast.Name) and x.args:
                    link(target.elts[1].id, x.args[0], e)

        return eachn, bind

    def s_Continue(self, st, env, fr):
        g = and_(*self.path[self.loop_start(fr):])
        fr.loopexits.append(g)
        self.leave(g, env, fr)
        return False

    def leave(self, g, env, fr):
        """Note the values that variables of the loop have where this pass ends early."""
        if fr.passes:
            names, ends = fr.passes[-1]
            ends.append((g, {k: self.snap(v) for k, v in env.items() if (k in names or k.startswith("self.")) and v.kind != "closure"}))

    def s_Break(self, st, env, fr):
        g = and_(*self.path[self.loop_start(fr):])
        fr.loopexits.append(g)
        fr.breaks.append(g)
        self.leave(g, env, fr)
        return False

    def loop_start(self, fr):
        for i in range(len(self.path) - 1, -1, -1):
            if self.path[i].op == "each":
                return i + 1
        return 0

    def s_Try(self, st, env, fr):
        base = len(self.path)
        env0 = dict(env)
        n0, l0 = len(fr.retexits), len(fr.loopexits)
        r0, t0 = len(fr.rets), len(fr.retself)
        self.intry += bool(st.handlers)
        live = self.block(st.body, env, fr)
        self.intry -= bool(st.handlers)
        if live and st.orelse:
            live = self.block(st.orelse, env, fr)
        envs = env
        n1, r1, t1, fell = len(fr.retexits), len(fr.rets), len(fr.retself), []
        for h in st.handlers:
            self.nhandlers += 1
            names = []
            if h.type is None:
                names = ["*"]
            elif isinstance(h.type, ast.Tuple):
                names = sorted(self.exc_name(x, {}) for x in h.type.elts)
            else:
                names = [self.exc_name(h.type, {})]
            ex = N("exc", *names)
            e2 = dict(env0)
            if h.name:
                e2[h.name] = self.mk(N("excval", *names))
            del self.path[base:]
            self.path.append(ex)
            live2 = self.block(h.body, e2, fr)
            if live2:
                fell.append(not_(ex))
            s2 = self.snaps(env0, e2, live2)
            del self.path[base:]
            e1 = dict(envs)
            s1 = self.snaps(env0, e1, live)
            tmp = dict(env0)
            self.merge(ex, tmp, e2, e1, live2, live, s2, s1)
            if live or live2:
                envs = tmp
            live = live or live2
        if envs is not env:
            env.clear()
            env.update(envs)
        del self.path[base:]
        for i in range(n0, n1):
            # left from the body: not when a handler took over and went on
            fr.retexits[i] = and_(fr.retexits[i], *fell)
        for lst, a, b in ((fr.rets, r0, r1), (fr.retself, t0, t1)):
            for i in range(a, b):
                lst[i] = (and_(lst[i][0], *fell), lst[i][1])
        for g in fr.retexits[n0:]:
            self.add_exit(g, fr.entry, base)
        if st.finalbody:
            if not self.block(st.finalbody, env, fr):
                live = False
        return live

    def s_With(self, st, env, fr):
        for item in st.items:
            v = self.ev(item.context_expr, env)
            n = self.snap(v)
            self.effects.append((self.guard(), N("with", n)))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, self.mk(N("enter", n)), env, fr)
        return self.block(st.body, env, fr)

    # -------------------------------------------------------- expressions
    def node(self, e, env=None):
        if env is None:
            env = self.stack[-1].env
        return self.snap(self.ev(e, env))

    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.mk(self.opaque(type(e).__name__))
        return m(e, env)

    def e_Constant(self, e, env):
        if e.value is Ellipsis:
            return V(N("ellipsis"))
        return V(C(e.value))

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        fr = self.stack[-1]
        m = fr.module
        if e.id in m.consts and e.id not in m.multi:
            n = self.ip.modconst(m, e.id)
            if n.op in ("const", "tuple") or n.size < 12 and n.op != "global":
                return V(n)
            return self.mk(N("global", f"{m.name}.{e.id}"))
        r = self.p.resolve_name(m, e.id)
        if r is not None:
            return self.global_v(r)
        if e.id not in BUILTINS:
            for names, level in reversed(fr.carried):
                if e.id in names:
                    fr.early.add(e.id)
                    return self.mk(N("carry", level, N("undef")))
            return V(self.opaque("name " + e.id))
        return V(N("mod", e.id))

    def global_v(self, r):
        head, _, tail = r.rpartition(".")
        if head in self.p.modules and tail in self.p.modules[head].consts:
            n = self.ip.modconst(self.p.modules[head], tail)
            if n.op in ("const", "tuple") or n.size < 12 and n.op != "global":
                return V(n)
            return self.mk(N("global", r))
        return V(N("mod", ALIASES.get(r, r)))

    def e_Attribute(self, e, env):
        v = self.ev(e.value, env)
        return self.attr(v, e.attr, env)

    def attr(self, v, name, env):
        b = v.base
        if b is not None and b.op == "mod":
            r = self.p.canonical(f"{b.args[0]}.{name}")
            return self.global_v(r)
        if b is not None and b.op in ("self", "cls"):
            key = "self." + name
            if key in env:
                return env[key]
            # property defined by a new (unknown) helper
            if self.cls:
                mm = self.p.find_method(self.cls, name)
                if mm is not None and mm.kind == "property" and mm.qual not in self.ip.known and len(self.stack) < 5:
                    return self.inline(mm.node, mm.module, [v], [], True, mm.qual)
                if mm is not None:
                    return V(N("bound", name))
            if name not in self.selfvals:
                self.selfvals[name] = V(N("selfattr", name))
                self.selfvals[name].ctx = ()
            return self.selfvals[name]
        key = READ.get(name, None)
        last = [(g, u) for g, u, fp in v.upds if key is None or fp is None or key in fp][-1:]
        if last and last[0][1].op == "store" and last[0][1].args[0] == name and name in ("data", "points", "bounds", "attributes"):
            cur, ctx = self.here(), set(v.ctx)
            if all(l.dig in cur or l.dig in ctx for l in lits(last[0][0])):
                return self.mk(last[0][1].args[1], [(v, N("pattr", name), TRUE)])      # what was just put there
        n = N("attr", self.snap(v, key), name)
        return self.mk(n, [(v, N("pattr", name), TRUE)])

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        i = self.index(e.slice, env)
        if v.kind == "tuple" and isinstance(v.clo, list) and i.op == "const" and isinstance(i.args[0], int):
            k = i.args[0]
            if -len(v.clo) <= k < len(v.clo):
                return v.clo[k]
        if v.kind == "list" and i.op == "const" and isinstance(i.args[0], int):
            vs, k = self.elements(v), i.args[0]
            if vs is not None and -len(vs) <= k < len(vs):
                return vs[k]
        ax = added_axis(i)
        if ax is not None:
            return self.mk(N("call", "numpy.expand_dims", self.snap(v), C(ax)), [(v, N("pidx", i), TRUE)])
        if v.base is not None and v.base.op == "mod" and v.base.args[0] == "numpy.c_" and i.op == "tuple" and len(i.args) > 1:
            return self.mk(N("call", "numpy.column_stack", i))
        if v.kind == "list" and i.op == "slice":
            return self.mk(idx(self.snap(v), i))        # a new list
        return self.mk(idx(self.snap(v), i), [(v, N("pidx", i), TRUE)])

    def index(self, e, env):
        """The index expression; x[i, :] is x[i]."""
        i = self.node(e, env)
        if i.op == "call" and i.args[0] in ("numpy.where", "numpy.nonzero") and len(i.args) == 2 and isboolish(i.args[1]):
            i = i.args[1]           # the places at which it holds
        if i.op == "mod" and i.args[0] == "numpy.newaxis":
            i = NONE
        if i.op == "tuple" and any(a.op == "mod" and a.args[0] == "numpy.newaxis" for a in i.args):
            i = N("tuple", *[NONE if a.op == "mod" and a.args[0] == "numpy.newaxis" else a for a in i.args])
        if i.op == "slice" and all(y is NONE for y in i.args):
            return N("ellipsis")
        if i.op == "tuple" and isinstance(e, ast.Tuple) and not any(a.op in ("ellipsis", "star") for a in i.args):
            a = list(i.args)
            while len(a) > 1 and a[-1].op == "slice" and all(y is NONE for y in a[-1].args):
                a.pop()
            if len(a) < len(i.args):
                if len(a) == 1 and a[0].op == "slice" and all(y is NONE for y in a[0].args):
                    return N("ellipsis")
                return a[0] if len(a) == 1 else N("tuple", *a)
        return i

    def e_Slice(self, e, env):
        f = lambda x: self.node(x, env) if x is not None else NONE
        return V(sliced(f(e.lower), f(e.upper), f(e.step)))

    def e_Tuple(self, e, env):
        vs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                n = self.node(x.value, env)
                if n.op == "tuple":
                    vs.extend(self.mk(a) for a in n.args)
                elif n.op == "list" and all(p.op == "item" and len(p.args) == 1 for p in n.args):
                    vs.extend(self.mk(p.args[0]) for p in n.args)
                else:
                    vs.append(self.mk(N("star", n)))
            else:
                vs.append(self.ev(x, env))
        return self.tuplev(vs)

    def tuplev(self, vs):
        v = self.mk(N("tuple", *[self.snap(x) for x in vs]))
        v.kind, v.clo = "tuple", vs
        return v

    def e_List(self, e, env):
        v = self.mklist()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.extend(v, self.ev(x.value, env))
            else:
                v.parts.append(self.held(self.guard(), self.ev(x, env)))
        return v

    def e_Set(self, e, env):
        v = self.e_List(e, env)
        v.wrap = "set"
        return v

    def e_Dict(self, e, env):
        v = V(None, (), self.here(), kind="dict")
        g = self.guard()
        v.clo = {}
        for k, x in zip(e.keys, e.values):
            if k is None:
                v.parts.append((g, N("dsplice", self.node(x, env))))
            else:
                kn, xv = self.node(k, env), self.ev(x, env)
                v.parts.append(self.held(g, xv, kn))
                v.clo[kn.dig] = xv
        return v

    def e_JoinedStr(self, e, env):
        ps = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                ps.append(C(x.value))
            else:
                n = self.node(x.value, env)
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    spec = self.node(x.format_spec, env) if x.format_spec is not None else C("")
                    n = N("spec", n, spec, x.conversion)
                ps.append(N("s", n) if not (n.op == "const" and isinstance(n.args[0], str)) else n)
        return V(fmt(*ps))

    def e_FormattedValue(self, e, env):
        return self.ev(e.value, env)

    def e_Starred(self, e, env):
        return self.mk(N("star", self.node(e.value, env)))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env, self.stack[-1])
        return v

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Yield(self, e, env):
        fr = self.stack[-1]
        if fr.yields is None:
            fr.yields = V(None, (), (), kind="list")
        n = self.node(e.value, env) if e.value is not None else NONE
        fr.yields.parts.append((and_(*self.path[fr.entry:]), n))
        return self.mk(N("sent"))

    def e_YieldFrom(self, e, env):
        fr = self.stack[-1]
        if fr.yields is None:
            fr.yields = V(None, (), (), kind="list")
        self.extend(fr.yields, self.ev(e.value, env))
        return self.mk(N("sent"))

    def e_Lambda(self, e, env):
        return V(None, kind="closure", clo=Closure(e, env, "<lambda>"))

    def e_IfExp(self, e, env):
        c = self.cond(e.test, env)
        if c is TRUE:
            return self.ev(e.body, env)
        if c is FALSE:
            return self.ev(e.orelse, env)
        base = len(self.path)
        self.path.extend(lits(c))
        a = self.ev(e.body, env)
        na = self.snap(a) if a.kind != "closure" else self.lambda_node(a)
        del self.path[base:]
        self.path.extend(lits(not_(c)))
        b = self.ev(e.orelse, env)
        nb = self.snap(b) if b.kind != "closure" else self.lambda_node(b)
        del self.path[base:]
        if na is nb:
            return a
        if a.kind == "closure" or b.kind == "closure":
            return self.mk(ite(c, na, nb))
        return self.mk(ite(c, na, nb), [(a, None, c), (b, None, not_(c))], cls=a.cls if a.cls == b.cls else None)

    def e_BoolOp(self, e, env):
        ns = []
        base = len(self.path)
        isand = isinstance(e.op, ast.And)
        for x in e.values:
            n = self.node(x, env)
            ns.append(n)
            t = truth(n)
            self.path.extend(l for l in lits(t if isand else not_(t)) if l.op != "const")
        del self.path[base:]
        if all(isboolish(n) for n in ns):
            return V((and_ if isand else or_)(*ns))
        # value-returning and/or: keep as value but truth() turns it boolean
        n = ns[-1]
        for x in reversed(ns[:-1]):
            t = truth(x)
            n = ite(t, n, x) if isand else ite(t, x, n)
        return V(n)

    def e_UnaryOp(self, e, env):
        if isinstance(e.op, ast.Not):
            return V(not_(self.cond(e.operand, env)))
        n = self.node(e.operand, env)
        if isinstance(e.op, ast.USub):
            return self.mk(neg(n))
        if isinstance(e.op, ast.UAdd):
            return self.mk(n)
        return self.mk(invert(n))

    def binop(self, op, a, b):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return add(a, neg(b))
        if op == "Mult":
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "Pow":
            return pow_(a, b)
        if op == "BitAnd":
            return and_(a, b)
        if op == "BitOr":
            return or_(a, b)
        if op == "Mod" and a.op in ("fmt", "const") and (a.op == "fmt" or isinstance(a.args[0], str)):
            return N("fmt%", a, b)
        return N("bin", op, a, b)

    def e_BinOp(self, e, env):
        return self.mk(self.binop(type(e.op).__name__, self.node(e.left, env), self.node(e.right, env)))

    CMP = {
        ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
    }

    def e_Compare(self, e, env):
        left = self.node(e.left, env)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rn = self.node(r, env)
            out.append(cmp_(self.CMP[type(op)], left, rn))
            left = rn
        return self.mk(and_(*out))

    def comp(self, e, env, elts):
        env1 = dict(env)
        base = len(self.path)
        nb = len(self.each)
        fr = self.stack[-1]
        for g in e.generators:
            itv = self.ev(g.iter, env1)
            eachn, bind = self.bind_iter(itv, g.iter, env1)
            bind(g.target, env1, fr)
            self.path.append(eachn)
            self.each.append(eachn)
            for c in g.ifs:
                self.path.extend(lits(self.cond(c, env1)))
        ns = [self.node(x, env1) for x in elts]
        g = and_(*self.path[base:])
        del self.path[base:]
        del self.each[nb:]
        return ns, g

    def cases(self, n, g=TRUE):
        """[(condition, elements)] when n is one of a few literal lists, with None for the
        elements of any other list."""
        if n.op == "ite":
            a = self.cases(n.args[1], and_(g, n.args[0]))
            b = self.cases(n.args[2], and_(g, not_(n.args[0])))
            return a + b
        if n.op == "list" and all(x.op == "item" and len(x.args) == 1 for x in n.args) and len(n.args) <= 8:
            return [(g, [x.args[0] for x in n.args])]
        if n.op == "const" and isinstance(n.args[0], str) and 0 < len(n.args[0]) <= 5:
            return [(g, [C(x) for x in n.args[0]])]
        if n.op == "tuple" and len(n.args) <= 8 and not any(x.op == "star" for x in n.args):
            return [(g, list(n.args))]
        return [(g, n)]

    def comps(self, e, env, elts):
        """comp(), element by element where the iterable is a literal."""
        if len(e.generators) == 1:
            gen = e.generators[0]
            itv = self.ev(gen.iter, env)
            n = self.snap(itv)
            cs = self.cases(n)
            if n.op == "call" and n.args[0] in ("zip", "enumerate"):
                vs = self.written(gen.iter, itv, env)
                if vs:
                    cs = [(TRUE, [self.snap(x) for x in vs])]
            if len(cs) <= 3 and any(isinstance(c[1], list) for c in cs):
                out = []
                fr = self.stack[-1]
                base = len(self.path)
                for g, xs in cs:
                    self.path.extend(lits(g))
                    if isinstance(xs, list):
                        for x in xs:
                            at = len(self.path)
                            env1 = dict(env)
                            self.assign(gen.target, self.mk(x), env1, fr)
                            for c in gen.ifs:
                                self.path.extend(lits(self.cond(c, env1)))
                            ns = [self.node(y, env1) for y in elts]
                            out.append((ns, and_(*self.path[base:])))
                            del self.path[at:]
                    else:
                        env1 = dict(env)
                        env1["__xs"] = self.mk(xs, [(itv, None, TRUE)])
                        ge = ast.comprehension(gen.target, ast.copy_location(ast.Name("__xs", ast.Load()), gen.iter), gen.ifs, 0)
                        ns, g2 = self.comp(ast.copy_location(ast.ListComp(elts[0], [ge]), e), env1, elts)
                        out.append((ns, and_(g, g2)))
                    del self.path[base:]
                return out
        return [self.comp(e, env, elts)]

    def e_ListComp(self, e, env):
        v = self.mklist()
        cs = self.comps(e, env, [e.elt])
        if len(cs) != 1 or any(l.op != "each" for l in lits(cs[0][1])):
            for ns, g in cs:
                v.parts.append((and_(self.guard(), g), ns[0]))
            return v
        (ns, g), = cs
        # [x for x in xs] is list(xs)
        if g.op == "each" and ns[0].op == "elem" and ns[0].args[0] is g.args[0] and ns[0].args[1] == g.args[1]:
            v.parts.append((self.guard(), N("splice", g.args[0])))
        else:
            v.parts.append((and_(self.guard(), g), ns[0]))
        return v

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        v = self.e_ListComp(e, env)
        v.wrap = "set"
        return v

    def e_DictComp(self, e, env):
        v = V(None, (), self.here(), kind="dict")
        for ns, g in self.comps(e, env, [e.key, e.value]):
            v.parts.append((and_(self.guard(), g), N("ent", ns[0], ns[1])))
        return v

    # -------------------------------------------------------------- calls
    def args(self, e, env):
        pos, kws, vs = [], [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                n = self.node(a.value, env)
                if n.op == "tuple":
                    pos.extend(V(x) for x in n.args)
                elif n.op == "list" and all(p.op == "item" and len(p.args) == 1 for p in n.args):
                    pos.extend(V(p.args[0]) for p in n.args)
                else:
                    v = self.mk(N("star", n), [(self.ev(a.value, env), N("pelem"), TRUE)])
                    pos.append(v)
            else:
                pos.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                dv = self.ev(k.value, env)
                n = self.snap(dv)
                if n.op == "dict" and all(x.op == "ent" and len(x.args) == 2 and x.args[0].op == "const" for x in n.args):
                    made = dv.clo if dv.kind == "dict" and isinstance(dv.clo, dict) else {}
                    for x in n.args:
                        xv = made.get(x.args[0].dig)
                        kws.append((str(x.args[0].args[0]), xv if xv is not None and self.snap(xv) is x.args[1] else V(x.args[1])))
                else:
                    kws.append(("**", V(n)))
            else:
                kws.append((k.arg, self.ev(k.value, env)))
        return pos, kws

    def e_Call(self, e, env):
        return self.call(e, env)

    def bind(self, fn, pos, kws, skip):
        """Bind to parameter names; returns list[(name, V)] or None."""
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        out = []
        if any(v.base is not None and v.base.op == "star" for v in pos):
            return None
        for i, v in enumerate(pos):
            if i < len(names):
                out.append((names[i], v))
            elif a.vararg:
                out.append((f"*{i - len(names)}", v))
            else:
                return None
        for k, v in kws:
            out.append((k, v))
        return out

    def bound_args(self, b, fn, label=None):
        ns = []
        dflt = self.defaults_of(fn)
        for k, d in dflt.items():
            DEFAULTS.setdefault((label, k), set()).add(d.dig if d is not None else "")
        for k, v in b:
            n = self.snap(v)
            if k in dflt and dflt[k] is n:
                continue  # passing the default explicitly
            ns.append((k, n))
        return [N("kw", k, n) for k, n in sorted(ns, key=lambda t: t[0])]

    def defaults_of(self, fn):
        a = fn.args
        out = {}
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if isinstance(d, ast.Constant):
                out[x.arg] = C(d.value) if d.value is not Ellipsis else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if isinstance(d, ast.Constant):
                out[x.arg] = C(d.value)
        return out

    def call(self, e, env, discard=False):
        fn = e.func
        # super().method
        if (
            isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call)
            and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super"
        ):
            pos, kws = self.args(e, env)
            n = N("fn", f"super.{fn.attr}", *[self.snap(v) for v in pos], *[N("kw", k, self.snap(v)) for k, v in sorted(kws, key=lambda t: t[0])])
            if discard:
                self.effects.append((self.guard(), n))
            return self.mk(n)
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, env)
            b = recv.base
            if b is not None and b.op == "call" and b.args[0] == "super":
                pos, kws = self.args(e, env)
                n = N("fn", f"super.{fn.attr}", *[self.snap(v) for v in pos], *[N("kw", k, self.snap(v)) for k, v in sorted(kws, key=lambda t: t[0])])
                if discard:
                    self.effects.append((self.guard(), n))
                return self.mk(n)
            if b is not None and b.op == "mod":
                target = self.p.canonical(f"{b.args[0]}.{fn.attr}")
                pos, kws = self.args(e, env)
                return self.call_named(target, pos, kws, discard, env)
            if b is not None and b.op in ("self", "cls"):
                pos, kws = self.args(e, env)
                key = "self." + fn.attr
                if key in env:
                    return self.call_value(env[key], pos, kws, discard)
                return self.call_self(fn.attr, recv, pos, kws, discard, env)
            pos, kws = self.args(e, env)
            return self.call_method(recv, fn.attr, pos, kws, discard)
        if isinstance(fn, ast.Name) and fn.id in ("map", "filter") and fn.id not in env and not e.keywords and len(e.args) >= 2 \
                and not any(isinstance(a, ast.Starred) for a in e.args) and (fn.id == "map" or len(e.args) == 2):
            return self.ev(self.as_comp(e), env)
        v = self.ev(fn, env)
        pos, kws = self.args(e, env)
        if v.kind == "closure":
            return self.inline_closure(v, pos, kws, discard)
        if v.base is not None and v.base.op == "mod":
            return self.call_named(v.base.args[0], pos, kws, discard, env)
        if v.base is not None and v.base.op == "bound":
            return self.call_self(v.base.args[0], None, pos, kws, discard, env)
        either = tabled(v.base) if v.base is not None and v.base.op == "idx" and not v.upds else v.base
        if either is not None and either.op == "ite" and routines(either):
            return self.call_either(either, pos, kws, discard, env)
        return self.call_value(v, pos, kws, discard)

    def call_either(self, n, pos, kws, discard, env):
        """A call of one routine or another, as the choice of the two calls."""
        if n.op == "bound":
            return self.call_self(n.args[0], None, pos, kws, discard, env)
        if n.op == "mod":
            return self.call_named(n.args[0], pos, kws, discard, env)
        c, base = n.args[0], len(self.path)
        envs, out, snaps = [dict(env), dict(env)], [], []
        for b, e, g in zip(n.args[1:], envs, (c, not_(c))):
            self.path.extend(lits(g))
            v = self.call_either(b, pos, kws, discard, e)
            out.append((v, self.snap(v), g))
            snaps.append(self.snaps(env, e, True))
            del self.path[base:]
        self.merge(c, env, *envs, True, True, *snaps)
        (a, x, g), (b, y, h) = out
        return self.mk(ite(c, x, y), [(a, None, g), (b, None, h)], cls=a.cls if a.cls == b.cls else None)

    def as_comp(self, e):
        """map(f, xs) and filter(f, xs) as the generator expressions they are."""
        hit = _CANON.get(("map", id(e)))
        if hit is None:
            f, its = e.args[0], e.args[1:]
            names = [f"__m{i}" for i in range(len(its))]
            args = [ast.Name(x, ast.Load()) for x in names]
            it = its[0] if len(its) == 1 else ast.Call(ast.Name("zip", ast.Load()), its, [])
            t = ast.Name(names[0], ast.Store()) if len(its) == 1 else ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())
            if e.func.id == "map":
                g = ast.GeneratorExp(ast.Call(f, args, []), [ast.comprehension(t, it, [], 0)])
            else:
                test = args[0] if isinstance(f, ast.Constant) and f.value is None else ast.Call(f, args, [])
                g = ast.GeneratorExp(args[0], [ast.comprehension(t, it, [test], 0)])
            ast.copy_location(g, e)
            for x in ast.walk(g):
                if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, "lineno"):
                    ast.copy_location(x, e)
            hit = _CANON[("map", id(e))] = (e, g)
        return hit[1]

    def flat(self, pos, kws):
        ks = [N("kw", k, self.snap(v)) for k, v in kws]
        return [self.snap(v) for v in pos] + sorted(ks, key=lambda n: (n.args[0], n.dig))

    def call_value(self, v, pos, kws, discard):
        if v.kind == "closure":
            return self.inline_closure(v, pos, kws, discard)
        if v.base is not None and v.base.op == "bound":
            return self.call_self(v.base.args[0], None, pos, kws, discard, self.stack[-1].env)
        return self.call_method(v, "__call__", pos, kws, discard)

    def call_named(self, target, pos, kws, discard, env):
        target = ALIASES.get(target, target)
        if target in self.p.funcs:
            f = self.p.funcs[target]
            skip = 1 if f.kind in ("method", "classmethod") else 0
            if f.kind == "staticmethod" or f.kind == "function":
                skip = 0
            if target in self.ip.known or len(self.stack) > 5 or self.recursing(f.node):
                b = self.bind(f.node, pos, kws, 1 if f.kind == "classmethod" else 0)
                if b is None:
                    n = N("fn", target, *self.flat(pos, kws))
                else:
                    n = N("fn", target, *self.bound_args(b, f.node, target))
                    for pn in self.ip.mutated(target):
                        for k, v in b:
                            if k == pn:
                                self.update(v, N("mutby", target, pn), None)
                if discard:
                    self.effects.append((self.guard(), n))
                return self.mk(n)
            return self.inline(f.node, f.module, pos, kws, False, f.qual, cls=f.cls, discard=discard)
        if target in self.p.classes:
            c = self.p.classes[target]
            init = self.p.find_method(target, "__init__")
            b = self.bind(init.node, pos, kws, 1) if init is not None else None
            if b is None:
                n = N("fn", f"new {target}", *self.flat(pos, kws))
            else:
                n = N("fn", f"new {target}", *self.bound_args(b, init.node, f"new {target}"))
            if target not in self.ip.known:
                self.nopaque += 1
            if discard:
                self.effects.append((self.guard(), n))
            return self.mk(n, cls=target)
        return self.external(target, pos, kws, discard, env)

    def helper_def(self, call, env, fr):
        """(function node, params to skip) if `call` is going to be inlined."""
        f = call.func
        if isinstance(f, ast.Name):
            if f.id in env:
                v = env[f.id]
                return (v.clo.node, 0) if v.kind == "closure" and isinstance(v.clo.node, ast.FunctionDef) else None
            r = self.p.resolve_name(fr.module, f.id)
            if r in self.p.funcs and r not in self.ip.known:
                return self.p.funcs[r].node, 0
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.cls and \
                f.value.id in env and env[f.value.id].base is not None and env[f.value.id].base.op in ("self", "cls"):
            mm = self.p.find_method(self.cls, f.attr)
            if mm is not None and mm.qual not in self.ip.known:
                return mm.node, 0 if mm.kind == "staticmethod" else 1
        return None

    def recursing(self, node):
        return any(fr.fn is node for fr in self.stack)

    def external(self, t, pos, kws, discard, env):
        if t in libsig.SIG and not any(k == "**" for k, _ in kws) and not any(v.base is not None and v.base.op == "star" for v in pos):
            pos, kws = libsig.settle(libsig.SIG[t], list(pos), list(kws), self.snap)
        kd = dict(kws)
        if t in ("numpy.around", "numpy.rint"):
            if len(pos) == 2 and not kws and self.snap(pos[1]) is C(0):
                pos = pos[:1]
            elif len(pos) == len(kws) == 1 and self.snap(kd.get("decimals", pos[0])) is C(0):
                kws, kd = [], {}
            if len(pos) == 1 and not kws:
                t = "numpy.rint"
        if t in NPBIN and len(pos) == 2 and not kws:
            a, b = self.snap(pos[0]), self.snap(pos[1])
            op = NPBIN[t]
            mp = {"+": "Add", "-": "Sub", "*": "Mult", "/": "Div", "**": "Pow"}
            if op in mp:
                return self.mk(self.binop(mp[op], a, b))
            return self.mk(cmp_(op, a, b))
        if t == "next" and len(pos) == 2 and not kws:
            n, d = self.snap(pos[0]), self.snap(pos[1])
            if n.op == "list" and len(n.args) == 1 and n.args[0].op == "item" and len(n.args[0].args) == 2:
                x, g = n.args[0].args
                return self.mk(ite(any_of(g), N("first", x, g), d))
        if t == "sorted" and len(pos) == 1:
            n = self.snap(pos[0])
            while n.op == "call" and n.args[0] in ("list", "tuple", "iter") and len(n.args) == 2:
                n = n.args[1]
            if n.op == "list" and len(n.args) == 1 and n.args[0].op == "splice":
                n = n.args[0].args[0]
            pos = [self.mk(n)]
        if len(pos) == 1 and not kws:
            v = pos[0]
            if t in ("numpy.logical_not", "operator.not_", "numpy.invert"):
                return self.mk(invert(self.snap(v)))
            if t == "numpy.negative":
                return self.mk(neg(self.snap(v)))
            if t == "numpy.square":
                return self.mk(pow_(self.snap(v), C(2)))
            if t == "numpy.sqrt":
                return self.mk(pow_(self.snap(v), C(0.5)))
            if t == "bool":
                return self.mk(truth(self.snap(v)))
            if t == "any":
                n = self.snap(v)
                if n.op == "list" and len(n.args) == 1 and n.args[0].op == "item" and len(n.args[0].args) == 2:
                    return self.mk(any_of(and_(truth(n.args[0].args[0]), n.args[0].args[1])))
                if n.op == "list" and all(p.op == "item" and len(p.args) == 1 for p in n.args):
                    return self.mk(or_(*[truth(p.args[0]) for p in n.args]))
            if t == "all":
                n = self.snap(v)
                if n.op == "list" and len(n.args) == 1 and n.args[0].op == "item" and len(n.args[0].args) == 2:
                    return self.mk(not_(any_of(and_(not_(truth(n.args[0].args[0])), n.args[0].args[1]))))
                if n.op == "list" and all(p.op == "item" and len(p.args) == 1 for p in n.args):
                    return self.mk(and_(*[truth(p.args[0]) for p in n.args]))
            if t == "sum":
                n = self.snap(v)
                if n.op == "list" and len(n.args) == 1 and n.args[0].op == "item" and len(n.args[0].args) == 2:
                    x, g = n.args[0].args
                    if isboolish(x):
                        x = ite(x, C(1), C(0))
                    if x.op == "ite" and x.args[1:] == (C(0), C(1)):
                        g, x = and_(g, not_(x.args[0])), C(1)
                    elif x.op == "ite" and x.args[1:] == (C(1), C(0)):
                        g, x = and_(g, x.args[0]), C(1)
                    if x is C(1):
                        return self.mk(N("call", "len", N("list", N("item", TRUE, g))))
            if t in ("list", "tuple") and self.snap(v).op == ("list" if t == "list" else "tuple"):
                if v.kind in ("list",) or t == "tuple":
                    nv = V(None, (), self.here(), kind="list") if t == "list" else self.mk(self.snap(v))
                    if t == "list":
                        self.extend(nv, v)
                    return nv
            if t == "list":
                nv = V(None, (), self.here(), kind="list")
                self.extend(nv, v)
                return nv
            if t == "tuple":
                n = self.snap(v)
                if n.op == "list" and all(p.op == "item" and len(p.args) == 1 for p in n.args):
                    return self.mk(N("tuple", *[p.args[0] for p in n.args]))
            if t == "dict":
                nv = V(None, (), self.here(), kind="dict")
                nv.parts.append((self.guard(), N("dsplice", self.snap(v))))
                return nv
            if t == "str":
                n = self.snap(v)
                return self.mk(fmt(N("s", n)))
            if t == "len":
                n = self.snap(v)
                if n.op == "tuple" or (n.op == "list" and all(p.op == "item" and len(p.args) == 1 for p in n.args)):
                    return V(C(len(n.args)))
                if n.op == "attr" and n.args[1] == "shape":
                    return self.mk(N("attr", n.args[0], "ndim"))
                if n.op == "list" and len(n.args) == 1 and n.args[0].op == "item":
                    return self.mk(N("call", "len", N("list", N("item", TRUE, n.args[0].args[1]))))
        if t == "list" and not pos and not kws:
            return self.mklist()
        if t == "iris.cube.CubeList" and len(pos) <= 1 and not kws:
            nv = V(None, (), self.here(), kind="list")
            if pos:
                self.extend(nv, pos[0])
            nv.wrap = t
            return nv
        if t == "slice" and pos and not kws:
            a = [self.snap(v) for v in pos]
            a = [NONE, a[0], NONE] if len(a) == 1 else (a + [NONE])[:3]
            return V(sliced(*a))
        if t == "reversed" and len(pos) == 1 and not kws:
            return self.mk(idx(self.snap(pos[0]), N("slice", NONE, NONE, C(-1))))
        if t == "numpy.diff" and len(pos) == 1 and not kws and self.snap(pos[0]).op == "attr" and self.snap(pos[0]).args[1] == "points":
            n = self.snap(pos[0])
            return self.mk(add(idx(n, N("slice", C(1), NONE, NONE)), neg(idx(n, N("slice", NONE, C(-1), NONE)))))
        if t == "range" and not kws and len(pos) > 1:
            a = [self.snap(v) for v in pos]
            if len(a) == 3 and a[2] is C(1):
                a = a[:2]
            if len(a) == 2 and a[0] is C(0):
                a = a[1:]
            return self.mk(N("call", "range", *a))
        if t == "set" and len(pos) <= 1 and not kws:
            nv = self.mklist()
            nv.wrap = "set"
            if pos:
                self.extend(nv, pos[0])
            return nv
        if t == "dict" and not pos:
            nv = V(None, (), self.here(), kind="dict")
            for k, v in kws:
                nv.parts.append(self.held(self.guard(), v, C(k)) if k != "**" else (self.guard(), N("dsplice", self.snap(v))))
            return nv
        if t in ("numpy.logical_and", "numpy.bitwise_and") and len(pos) == 2 and not kws:
            return self.mk(and_(self.snap(pos[0]), self.snap(pos[1])))
        if t in ("numpy.logical_or", "numpy.bitwise_or") and len(pos) == 2 and not kws:
            return self.mk(or_(self.snap(pos[0]), self.snap(pos[1])))
        if t == "isinstance" and len(pos) == 2:
            x, ty = self.snap(pos[0]), self.snap(pos[1])
            if ty.op == "tuple":
                return V(or_(*[N("call", "isinstance", x, y) for y in ty.args]))
            return V(N("call", "isinstance", x, ty))
        if t == "numpy.where" and len(pos) == 3 and not kws:
            c, a, b = [self.snap(v) for v in pos]
            if c.op == "not":
                c, a, b = c.args[0], b, a
            if a is TRUE and b is FALSE and isboolish(c):
                return self.mk(c)
            if a is FALSE and b is TRUE and isboolish(c):
                return self.mk(not_(c))
            return self.mk(N("where", c, a, b))
        if t in ("numpy.shape", "numpy.ndim", "numpy.size") and len(pos) == 1 and not kws:
            return self.attr(pos[0], t[6:], env)
        if t == "getattr" and len(pos) == 2:
            n = self.snap(pos[1])
            if n.op == "const":
                return self.attr(pos[0], n.args[0], env)
        if t == "setattr" and len(pos) == 3 and self.snap(pos[1]).op == "const":
            at = self.snap(pos[1]).args[0]
            if pos[0].base is not None and pos[0].base.op == "self":
                env["self." + at] = pos[2]
                self.selfst.append((at, self.guard(), self.snap(pos[2]), pos[2]))
            else:
                self.update(pos[0], N("store", at, self.snap(pos[2])), FP_STORE.get(at))
            return V(NONE)
        if t == "setattr" and len(pos) == 3:
            self.update(pos[0], N("setattr", self.snap(pos[1]), self.snap(pos[2])), None)
            return V(NONE)
        if t in ("copy.copy", "copy.deepcopy") and len(pos) == 1:
            return self.mk(self.snap(pos[0]), cls=pos[0].cls)
        if t == "print":
            self.effects.append((self.guard(), N("print", *self.flat(pos, kws))))
            return V(NONE)
        if t == "warnings.warn":
            cat = "UserWarning"
            if len(pos) > 1:
                cat = self.snap(pos[1])
            elif "category" in kd:
                cat = self.snap(kd["category"])
            self.effects.append((self.guard(), N("warn", cat)))
            return V(NONE)
        for v in pos:
            if v.kind == "closure":
                pass
        if t in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero") and len(pos) == 1 and not kws:
            n = self.snap(pos[0])
            if n.op == "call" and n.args[0] in ("numpy.count_nonzero", "len"):
                pos = [self.mk(lt(C(0), n))]
            if t == "numpy.nonzero":
                t = "numpy.where"
            if t == "numpy.flatnonzero":
                return self.mk(idx(N("call", "numpy.where", self.snap(pos[0])), C(0)))
        if t in ("numpy.mod", "numpy.remainder", "numpy.floor_divide") and len(pos) == 2 and not kws:
            return self.mk(self.binop("FloorDiv" if t == "numpy.floor_divide" else "Mod", self.snap(pos[0]), self.snap(pos[1])))
        if t == "numpy.reshape" and not kws and len(pos) in (2, 3):
            d = [self.snap(v) for v in pos[1:]]
            d = list(d[0].args) if len(d) == 1 and d[0].op == "tuple" else d
            if len(d) == 2 and d[0] is C(-1) and d[1] is C(1):
                return self.mk(N("call", "numpy.expand_dims", self.snap(pos[0]), C(1)))
        if t in ("min", "max") and len(pos) == 1 and not kws:
            n = self.snap(pos[0])
            if n.op == "call" and n.args[0] == "sorted" and len(n.args) == 2:
                return self.mk(N("call", t, n.args[1]))
        if t == "hasattr" and len(pos) == 2:
            n, a = self.snap(pos[0]), self.snap(pos[1])
            while n.op == "obj":
                n = n.args[0]
            if n.op == "m" and n.args[0] == "coord" and a.op == "const" and a.args[0] in ("bounds", "points", "units", "attributes", "coord_system"):
                return V(TRUE)
        if t == "sum" and len(pos) == 1 and not kws:
            n = self.snap(pos[0])
            if n.op == "list" and n.args and all(x.op == "item" and len(x.args) == 1 and (x.args[0].op in ("param", "const") or isboolish(x.args[0])) for x in n.args):
                t = "numpy.sum"
        if t in ("numpy.abs", "numpy.cos") and pos and not kws:
            pos = [self.mk(unsigned(self.snap(pos[0])))] + pos[1:]
        n = N("call", t, *self.flat(pos, kws))
        # in-place externals
        if "out" in kd:
            self.update(kd["out"], N("out", n), {"data"})
        if t in ("numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.random.shuffle") and pos:
            self.update(pos[0], n, {"data"})
        elif discard:
            self.effects.append((self.guard(), n))
        return self.mk(n)

    def call_self(self, name, recv, pos, kws, discard, env):
        mm = self.p.find_method(self.cls, name) if self.cls else None
        if mm is None:
            n = N("fn", f"self.{name}", *self.flat(pos, kws))
            if discard:
                self.effects.append((self.guard(), n))
            return self.mk(n)
        if mm.kind == "property":
            return self.call_value(self.attr(self.mk(N("self")), name, env), pos, kws, discard)
        if mm.qual not in self.ip.known and len(self.stack) < 6 and not self.recursing(mm.node):
            a = [self.mk(N("self"))] + pos if mm.kind != "staticmethod" else pos
            return self.inline(mm.node, mm.module, a, kws, mm.kind != "staticmethod", mm.qual, cls=mm.cls, callerenv=env, discard=discard)
        b = self.bind(mm.node, pos, kws, 0 if mm.kind == "staticmethod" else 1)
        reads, writes = self.ip.rw(self.cls, name)
        st = []
        for r in sorted(reads):
            k = "self." + r
            if k in env:
                st.append(N("kw", "@" + r, self.snap(env[k])))
            elif r in self.selfvals and self.selfvals[r].upds:
                st.append(N("kw", "@" + r, self.snap(self.selfvals[r])))
        if b is None:
            n = N("fn", f"self.{name}", *self.flat(pos, kws), *st)
        else:
            n = N("fn", f"self.{name}", *self.bound_args(b, mm.node, f"self.{name}"), *st)
            for pn in self.ip.mutated(mm.qual):
                for k, v in b:
                    if k == pn:
                        self.update(v, N("mutby", f"self.{name}", pn), None)
        for w in writes:
            env["self." + w] = self.mk(N("after", w, n))
        if discard:
            self.effects.append((self.guard(), n))
        return self.mk(n)

    def call_method(self, recv, name, pos, kws, discard):
        points = any(k == "points" for k, _ in kws)
        sig = libsig.METHODS.get(name) if not recv.cls else None
        if sig and not any(k == "**" for k, _ in kws) and not any(v.base is not None and v.base.op == "star" for v in pos):
            pos, kws = libsig.settle(sig, list(pos), list(kws), self.snap)
        if name == "has_bounds" and not pos and not kws:
            return V(not_(is_(self.snap(self.attr(recv, "bounds", None)), NONE)))
        # containers
        if recv.kind == "list" and recv.wrap == "set" and name in ("add", "update", "append", "extend"):
            name = {"add": "append", "update": "extend"}.get(name, name + " ")
        if recv.kind == "list":
            if name == "append" and len(pos) == 1 and not recv.upds:
                recv.parts.append(self.held(self.guard(), pos[0]))
                for (tt, path, ex) in recv.links:
                    if path is not None:
                        self.update(tt, N("at", path, N("append", self.snap(pos[0]))), None)
                return V(NONE)
            if name == "insert" and len(pos) == 2 and not recv.upds and not recv.links and not recv.wrap and self.snap(pos[0]) is C(0) \
                    and not any(l.op == "each" for l in lits(self.guard())):
                recv.parts.append(self.held(self.guard(), pos[1]))
                recv.parts.insert(0, recv.parts.pop())
                return V(NONE)
            if name == "extend" and len(pos) == 1 and not recv.upds:
                self.extend(recv, pos[0])
                return V(NONE)
        if recv.kind == "dict":
            if name == "update":
                for k, v in kws:
                    recv.parts.append(self.held(self.guard(), v, C(k)) if k != "**" else (self.guard(), N("dsplice", self.snap(v))))
                for v in pos:
                    n = self.snap(v)
                    if n.op == "dict":
                        for x in n.args:
                            g = self.guard()
                            if x.op == "ent" and len(x.args) == 3:
                                g = and_(g, x.args[2])
                                x = N("ent", x.args[0], x.args[1])
                            recv.parts.append((g, x))
                    else:
                        recv.parts.append((self.guard(), N("dsplice", n)))
                return V(NONE)
        elif name == "update" and recv.kind is None and discard:
            ds = [self.snap(v) for v in pos]
            if len(ds) < 2 and all(k != "**" for k, _ in kws) and \
                    all(n.op == "dict" and all(x.op == "ent" and len(x.args) == 2 for x in n.args) for n in ds):
                # d.update({k: v}) is d[k] = v
                for k, x in [(x.args[0], x.args[1]) for n in ds for x in n.args] + [(C(k), self.snap(v)) for k, v in kws]:
                    self.update(recv, N("setitem", k, x), {"data", "items"})
                return V(NONE)
        if name == "pop" and discard and not kws and len(pos) in (1, 2) and recv.kind in (None, "dict"):
            # x.pop(k) is del x[k]; x.pop(k, d) is the same where k is in x
            k = self.snap(pos[0])
            if not (k.op == "const" and isinstance(k.args[0], int) and recv.kind is None and len(pos) == 1):
                self.update(recv, N("delitem", k), None, extra=TRUE if len(pos) == 1 else in_(k, self.snap(recv)))
                return V(NONE)
        rn = self.snap(recv, READ.get(name))
        if name == "format" and rn.op == "const" and isinstance(rn.args[0], str):
            f = self.str_format(rn.args[0], pos, kws)
            if f is not None:
                return V(f)
        if name == "join" and len(pos) == 1:
            pass
        a = self.flat(pos, kws)
        if name in METH2NP and rn.op not in ("obj",) or name in METH2NP:
            if name == "round":
                return self.external("numpy.around", [recv] + list(pos), kws, False, self.stack[-1].env)
            if kws or len(pos) > 0:
                t = "numpy." + name
                if t in libsig.SIG and not any(k == "**" for k, _ in kws) and not any(v.base is not None and v.base.op == "star" for v in pos):
                    mp, mk = libsig.settle(libsig.SIG[t], [recv] + list(pos), list(kws), self.snap)
                    a = self.flat(mp[1:], mk)
            n = N("call", "numpy." + name, rn, *a)
            if name in ("reshape", "nonzero"):
                return self.external("numpy." + name, [recv] + list(pos), kws, False, self.stack[-1].env)
            return self.mk(n)
        if name == "astype" and len(a) == 1 and rn.op in ("not", "lt", "eq", "and", "or") and isboolish(rn) and a[0].op == "mod" \
                and "bool" not in a[0].args[0]:
            # a yes/no field as numbers
            n = N("where", rn, C(1), C(0)) if rn.op != "not" else N("where", rn.args[0], C(0), C(1))
            return self.mk(n if a[0].args[0] == "int" else N("m", "astype", n, *a))
        if name == "keys" and not a:
            pass
        if name == "get" and len(a) == 2 and a[1] is NONE:
            a = a[:1]
        if name == "get" and len(a) in (1, 2) and rn.op == "dict" and 0 < len(rn.args) <= 6 and not kws and all(
                x.op == "ent" and len(x.args) == 2 and (x.args[0].op == "const" or x.args[0].op == "tuple" and all(y.op == "const" for y in x.args[0].args))
                for x in rn.args):
            n = a[1] if len(a) == 2 else NONE
            for x in rn.args:
                n = ite(eq(a[0], x.args[0]), x.args[1], n)
            return self.mk(n)
        if name == "copy" and not a and rn.op not in ("mod", "self", "cls"):
            return self.mk(rn, cls=recv.cls)       # what it holds now; in-place changes are followed per value
        if name == "copy" and len(pos) == 1 and not kws and points is False and rn.op not in ("mod", "self", "cls"):
            v = self.mk(rn, cls=recv.cls)          # a copy with other data
            self.update(v, N("store", "data", a[0]), FP_STORE["data"])
            return v
        n = N("m", name, rn, *a)
        if name == "process" and recv.cls or name == "__call__" and recv.cls:
            mm = self.p.find_method(recv.cls, "process")
            if mm is not None:
                b = self.bind(mm.node, pos, kws, 1)
                if b is not None:
                    n = N("m", name, rn, *self.bound_args(b, mm.node))
                    for pn in self.ip.mutated(mm.qual):
                        for k, v in b:
                            if k == pn:
                                self.update(v, N("mutby", mm.qual, pn), None)
        elif recv.cls:
            mm = self.p.find_method(recv.cls, name)
            if mm is not None and mm.kind == "method":
                b = self.bind(mm.node, pos, kws, 1)
                if b is not None:
                    n = N("m", name, rn, *self.bound_args(b, mm.node))
        mut = name in MUTATORS and (discard or name not in NONMUT_CHAIN)
        if name in ("add", "remove", "update", "pop", "insert", "sort", "transpose", "replace_units") and not discard and name != "pop":
            mut = False
        if mut:
            self.update(recv, N("mcall", name, *a), FP.get(name))
        elif discard and name == "__call__" and not recv.cls:
            self.effects.append((self.guard(), n))
        elif discard and name in QUERIES:
            if self.intry:
                self.tried.append((self.guard(), n))
        elif discard:
            self.update(recv, N("mcall", name, *a), FP.get(name))
            if rn.op not in ("param", "selfattr") and recv.kind is None and not self.rooted(recv):
                self.effects.append((self.guard(), n))
        links = []
        if name in ACCESSORS:
            links = [(recv, N("pm", name, *a), TRUE)]
        return self.mk(n, links)

    def rooted(self, v, d=0):
        if d > 8:
            return True
        if v.base is not None and v.base.op in ("param", "selfattr", "self"):
            return True
        return any(self.rooted(t, d + 1) for t, _, _ in v.links)

    def str_format(self, s, pos, kws):
        import string
        try:
            parts = list(string.Formatter().parse(s))
        except ValueError:
            return None
        kd = dict(kws)
        out, auto = [], 0
        for lit, field, spec, conv in parts:
            if lit:
                out.append(C(lit))
            if field is None:
                continue
            if spec or conv or "." in field or "[" in field:
                return None
            if field == "":
                if auto >= len(pos):
                    return None
                v = pos[auto]
                auto += 1
            elif field.isdigit():
                if int(field) >= len(pos):
                    return None
                v = pos[int(field)]
            else:
                if field not in kd:
                    return None
                v = kd[field]
            n = self.snap(v)
            out.append(N("s", n) if not (n.op == "const" and isinstance(n.args[0], str)) else n)
        return fmt(*out)

    # ----------------------------------------------------------- inlining
    def inline_closure(self, v, pos, kws, discard=False):
        c = v.clo
        if len(self.stack) > 6 or self.recursing(c.node):
            return self.mk(N("reccall", c.name, *self.flat(pos, kws)))
        if isinstance(c.node, ast.Lambda):
            env = dict(c.env)
            if not self.bind_env(c.node, pos, kws, env):
                return self.mk(self.opaque("lambdacall"))
            fr = self.stack[-1]
            return self.ev(c.node.body, env)
        return self.inline(c.node, None, pos, kws, False, c.name, closure=c, discard=discard)

    def bind_env(self, fn, pos, kws, env):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwn = [x.arg for x in a.kwonlyargs]
        got = set()
        if any(v.base is not None and v.base.op == "star" for v in pos):
            return False
        for i, v in enumerate(pos):
            if i < len(names):
                env[names[i]] = v
                got.add(names[i])
            elif not a.vararg:
                return False
        if a.vararg:
            extra = pos[len(names):]
            t = self.mk(N("tuple", *[self.snap(x) for x in extra]))
            t.kind, t.clo = "tuple", list(extra)
            env[a.vararg.arg] = t
        rest = []
        for k, v in kws:
            if k in names or k in kwn:
                env[k] = v
                got.add(k)
            elif a.kwarg:
                rest.append((k, v))
            else:
                return False
        if a.kwarg:
            d = V(None, (), self.here(), kind="dict")
            for k, v in rest:
                d.parts.append(self.held(self.guard(), v, C(k)) if k != "**" else (self.guard(), N("dsplice", self.snap(v))))
            env[a.kwarg.arg] = d
        for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if x not in got:
                env[x] = self.ev(d, {})
                got.add(x)
        for x, d in zip(kwn, a.kw_defaults):
            if x not in got and d is not None:
                env[x] = self.ev(d, {})
                got.add(x)
        return all(n in got for n in names)

    def inline(self, node, module, pos, kws, is_method, qual, cls=None, closure=None, callerenv=None, discard=False):
        cur = self.stack[-1]
        env = dict(closure.env) if closure else {}
        if is_method:
            src = callerenv if callerenv is not None else cur.env
            for k, v in src.items():
                if k.startswith("self."):
                    env[k] = v
        if not self.bind_env(node, pos, kws, env):
            n = N("fn", qual, *self.flat(pos, kws))
            self.nopaque += 1
            return self.mk(n)
        mod = self.p.modules[module] if module else cur.module
        fr = Frame(self.ip, node, mod, cls, env, cur.depth + 1)
        fr.entry = len(self.path)
        fr.discard = discard
        self.stack.append(fr)
        savedpath = list(self.path)
        nr = 0
        oldmod = self.module
        self.module = mod
        fr.live = self.block(node.body, env, fr)
        self.module = oldmod
        self.stack.pop()
        self.path[:] = savedpath
        if is_method:
            dst = callerenv if callerenv is not None else cur.env
            old = {k: dst.get(k) for k in dst if k.startswith("self.")}
            for k, v in env.items():
                if k.startswith("self."):
                    dst[k] = v
            # attributes stored on a way out before the end
            for i, (g, early) in reversed(list(enumerate(fr.retself))):
                for k in {k for k in list(early) + list(dst) if k.startswith("self.")}:
                    was = old.get(k)
                    a = early.get(k)
                    if a is None:
                        a = self.snap(was) if was is not None else self.selfbase(k[5:])
                    if not fr.live and i == len(fr.retself) - 1:
                        n = a
                    else:
                        b = self.snap(dst[k]) if k in dst else self.selfbase(k[5:])
                        n = ite(g, a, b)
                    if k in dst and self.snap(dst[k]) is n or k not in dst and n is self.selfbase(k[5:]):
                        continue
                    v = dst.get(k) or was
                    dst[k] = self.mk(n, [(v, None, TRUE)] if v is not None else (), cls=v.cls if v is not None else None)
        if closure:
            for k in list(closure.env):
                if k.startswith("self.") and k in env:
                    closure.env[k] = env[k]
        if len(fr.rets) == 1 and lits(fr.rets[0][0]) == () and fr.retv is not None:
            return fr.retv
        n = self.result(fr, node)
        if fr.yields is not None:
            nv = V(None, (), self.here(), kind="list")
            self.extend(nv, V(n))
            return nv
        # changes made to the result are changes to whichever object was returned
        return self.mk(n, [(v, None, g) for (g, _), v in zip(fr.rets, fr.retvs)
                           if v is not None and v.kind != "closure" and not any(l.op == "each" for l in lits(g))])

    def lambda_node(self, v):
        c = v.clo
        if c.name == "@active" or self.recursing(c.node) or len(self.stack) > 8:
            return N("recfn")
        a = c.node.args
        lvl = sum(1 for fr in self.stack if fr.fn is not None and getattr(fr, "islam", False))
        env = dict(c.env)
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            env[x.arg] = self.mk(N("bp", lvl, i))
        if a.vararg:
            env[a.vararg.arg] = self.mk(N("bp", lvl, -1))
        if a.kwarg:
            env[a.kwarg.arg] = self.mk(N("bp", lvl, -2))
        cur = self.stack[-1]
        fr = Frame(self.ip, c.node, cur.module, cur.cls, env, cur.depth + 1)
        fr.entry = len(self.path)
        fr.islam = True
        self.stack.append(fr)
        saved = list(self.path)
        e0, r0, s0 = len(self.effects), len(self.raises), len(self.selfst)
        try:
            if isinstance(c.node, ast.Lambda):
                n = self.node(c.node.body, env)
            else:
                fr.live = self.block(c.node.body, env, fr)
                n = self.result(fr, c.node)
            effs = self.effects[e0:]
            rs = self.raises[r0:]
        finally:
            self.stack.pop()
            self.path[:] = saved
            del self.effects[e0:]
            del self.raises[r0:]
            del self.selfst[s0:]
        extra = [N("ef", x, g) for g, x in effs] + [N("rz", g, x) for g, x in rs]
        extra = sorted({x.dig: x for x in extra}.values(), key=lambda n: n.dig)
        return N("lambda", n, *extra)


# frame extras
def _frame_init(self, ip, func_node, module, cls, env, depth, parent=None):
    self.ip, self.fn, self.module, self.cls = ip, func_node, module, cls
    self.env, self.depth = env, depth
    self.rets, self.yields, self.entry = [], None, 0
    self.retexits, self.loopexits, self.loopbase, self.breaks, self.passes, self.carried = [], [], [], [], [], []
    self.early = set()
    self.retv, self.retvs = None, []
    self.retself = []
    self.islam = False
    self.discard = False
    self.live = True


Frame.__init__ = _frame_init


def _s_Return(self, st, env, fr):
    fr.retv = None
    if st.value is not None:
        if fr.discard and isinstance(st.value, ast.Call):
            v = self.call(st.value, env, discard=True)
        else:
            v = self.ev(st.value, env)
        n = self.snap(v)
        if not fr.rets:
            fr.retv = v
        fr.retvs.append(v)
    else:
        n = NONE
        fr.retvs.append(None)
    g = and_(*self.path[fr.entry:])
    fr.rets.append((g, n))
    fr.retexits.append(g)
    if fr.depth:
        fr.retself.append((g, {k: self.snap(x) for k, x in env.items() if k.startswith("self.") and x.kind != "closure"}))
    return False


Run.s_Return = _s_Return


def unit_of(u):
    """The object whose units u sets (the value itself: TRUE), else None."""
    if u.op == "mcall":
        return TRUE if u.args[0] == "convert_units" and len(u.args) == 2 else None
    if u.op == "at" and len(u.args) == 2:
        x = unit_of(u.args[1])
        return None if x is None else u.args[0] if x is TRUE else N("at", u.args[0], x)
    return None


def elem(a, k):
    # zip(range(len(x)), ...) etc. are left alone
    if a.op == "call" and a.args[0] == "enumerate":
        return N("tuple", N("pos", a.args[1], k), N("elem", a.args[1], k))
    return N("elem", a, k)


def added_axis(i):
    """The place of the dimension added by x[:, None], x[None] or x[..., None]."""
    if i is NONE:
        return 0
    if i.op != "tuple" or not i.args:
        return None
    *front, last = i.args
    if last is NONE and front and all(a.op == "slice" and all(y is NONE for y in a.args) for a in front):
        return len(front)
    if last is NONE and len(front) == 1 and front[0].op in ("ellipsis",) or last is NONE and len(front) == 1 and front[0] is C(Ellipsis):
        return -1
    if i.args[0] is NONE and all(a.op == "slice" and all(y is NONE for y in a.args) for a in i.args[1:]):
        return 0
    return None


def sliced(a, b, c):
    """A slice; starting at 0 going forward is starting at the beginning."""
    if c is C(1):
        c = NONE
    if a is C(0) and (c is NONE or is_num(c) and c.args[0] > 0):
        a = NONE
    return N("slice", a, b, c)


def idx_at(a, p):
    if a.op == "call" and a.args[0] == "range" and len(a.args) == 2:
        return p
    if a.op == "m" and a.args[0] == "values" and len(a.args) == 2:
        return N("idx", a, p)
    return idx(a, p)


def truth(n):
    if n.op == "andv":
        return and_(*[truth(x) for x in n.args])
    if n.op == "orv":
        return or_(*[truth(x) for x in n.args])
    if n.op == "const":
        return C(bool(n.args[0]))
    if n.op == "list":
        if not n.args:
            return FALSE
        if any(p.op == "item" and len(p.args) == 1 for p in n.args):
            return TRUE
        if all(p.op == "item" for p in n.args) and len(n.args) <= 4:
            return or_(*[any_of(p.args[1]) if any(l.op == "each" for l in lits(p.args[1])) else p.args[1] for p in n.args])
    if n.op == "m" and n.args[0] == "coord":
        return TRUE         # found, or refused
    if n.op == "ite":
        c, a, b = n.args
        ta = truth(a)
        if ta is c:
            return or_(c, truth(b))
        tb = truth(b)
        if tb is c:
            return and_(c, ta)
        if ta is not_(c):
            return and_(ta, tb)
        if tb is not_(c):
            return or_(tb, ta)
    if n.op == "ite" and any(x.op == "const" for x in n.args[1:]):
        c, a, b = n.args
        ta, tb = truth(a), truth(b)
        return or_(and_(c, ta), and_(not_(c), tb))
    if n.op == "call" and n.args[0] == "len" and len(n.args) == 2:
        return cmp_("<", C(0), n)
    return n


def invert(n):
    return not_(truth(n))


def any_eq(c):
    l = c.args[0] if c.op == "not" else c
    return l.op == "eq" and any(a.op == "const" for a in l.args)


def exclusive(p, q):
    if len(p.args) < 2 or len(q.args) < 2:
        return False
    if and_(p.args[1], q.args[1]) is FALSE:
        return True
    # what a handler adds, and what is added where nothing failed
    a, b = [{l.dig for l in lits(x.args[1]) if l.op == "each"} for x in (p, q)]
    return a == b and bool(a) and any(l.op == "exc" for x in (p, q) for l in lits(x.args[1]))


def tabled(n):
    """One of the few entries of a table written out, as a choice by the key."""
    d, k = n.args
    if d.op != "dict" or not 2 <= len(d.args) <= 6 or k.op == "const" or any(
            x.op != "ent" or len(x.args) != 2 or x.args[0].op != "const" or not routines(x.args[1]) for x in d.args):
        return n
    ents = sorted(d.args, key=lambda x: repr(x.args[0].args[0]))
    out = ents[-1].args[1]
    for x in ents[:-1]:
        out = ite(eq(k, x.args[0]), x.args[1], out)
    return out


def routines(n):
    """Whether n is a routine known by name, or a choice of such."""
    return n.op in ("bound", "mod") or n.op == "ite" and routines(n.args[1]) and routines(n.args[2])




def complementary(g1, g2):
    """If g1 = G & c and g2 = G & not c: (c, G)."""
    s1 = {l.dig: l for l in lits(g1)}
    s2 = {l.dig: l for l in lits(g2)}
    d1 = [l for d, l in s1.items() if d not in s2]
    d2 = [l for d, l in s2.items() if d not in s1]
    if not d1 or not d2:
        return None
    a, b = and_(*d1), and_(*d2)
    if not_(a) is b:
        G = and_(*[l for d, l in s1.items() if d in s2])
        return (a, G) if a.op != "not" else (a, G)
    return None


def last_wins(lst):
    """Stores of one attribute in program order -> its final value, where no loop or
    handler is involved."""
    if len(lst) == 1 or any(l.op in ("each", "exc") or l.op == "not" and l.args[0].op == "exc" for g, _ in lst for l in lits(g)):
        return None
    g, v = lst[0]
    shared = [l for l in lits(g) if all(l in lits(g2) for g2, _ in lst[1:])]
    rest = lambda g: and_(*[l for l in lits(g) if l not in shared])
    g = rest(g)
    for g2, n in lst[1:]:
        g2 = rest(g2)
        v = ite(g2, n, v)
        g = or_(g, g2)
    for l in shared:
        v = cofactor(v, l, True)
    return [(and_(g, *shared), v)]


def standing(upds):
    """The changes without attributes set that are set again whenever they were."""
    if sum(u.op == "store" for _, u, _ in upds) < 2:
        return upds
    out = []
    for g, u, fp in upds:
        if u.op == "store":
            ds = {l.dig for l in lits(g)}
            out = [x for x in out if not (x[1].op == "store" and x[1].args[0] == u.args[0] and ds <= {l.dig for l in lits(x[0])})]
        out.append((g, u, fp))
    return out


def merge_guarded(lst, force=False):
    """[(guard,node)] -> merge complementary guards with same-shaped nodes."""
    out = []
    seen = {}
    for g, n in lst:
        k = (g.dig, n.dig)
        if k in seen:
            continue
        seen[k] = 1
        out.append((g, n))
    changed = True
    while changed:
        changed = False
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                (g1, n1), (g2, n2) = out[i], out[j]
                m = complementary(g1, g2)
                if m is None:
                    if n1 is n2:
                        g = or_(g1, g2)
                        out[i] = (g, n1)
                        del out[j]
                        changed = True
                        break
                    continue
                c, G = m
                if n1 is n2:
                    out[i] = (G, n1)
                    del out[j]
                    changed = True
                    break
                v = ite(c, n1, n2) if force or compatible(n1, n2) else None
                if v is not None:
                    out[i] = (G, v)
                    del out[j]
                    changed = True
                    break
            if changed:
                break
    return out


def compatible(a, b):
    """Same construct (same callee / stored target): merge into one effect."""
    if a.op != b.op or len(a.args) != len(b.args):
        return a.op not in ("mcall", "store", "setitem", "at", "fn", "call", "m", "warn", "mutby", "with", "delitem",
                            "delattr", "out", "setattr", "append", "extend", "globaldecl") and \
            b.op not in ("mcall", "store", "setitem", "at", "fn", "call", "m", "warn", "mutby", "with", "delitem",
                         "delattr", "out", "setattr", "append", "extend", "globaldecl")
    for x, y in zip(a.args, b.args):
        if not isinstance(x, Node) and x != y:
            return False
    if a.op in ("at",):
        return a.args[0] is b.args[0] and compatible(a.args[1], b.args[1])
    if a.op == "setitem":
        return a.args[0] is b.args[0]
    return True


def dnf(g, cap=24):
    """Disjuncts of g as a sorted list of conjunctions."""
    def go(n):
        if n.op == "or":
            out = []
            for x in n.args:
                out += go(x)
            return out
        if n.op == "and":
            acc = [()]
            for x in n.args:
                ds = go(x)
                acc = [a + (d,) for a in acc for d in ds]
                if len(acc) > cap:
                    return [n]
            return [and_(*a) for a in acc]
        return [n]

    ds = {d.dig: d for d in go(g) if d is not FALSE}
    # absorption
    keep = []
    sets = {k: {l.dig for l in lits(d)} for k, d in ds.items()}
    for k, d in ds.items():
        if any(k2 != k and sets[k2] < sets[k] for k2 in ds):
            continue
        keep.append(d)
    return sorted(keep, key=lambda n: n.dig)


def assigned(body):
    """Names (and self.attrs) rebound in a loop body, excluding nested defs."""
    out = set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
            out.add("self." + t.attr)

    def walk(st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(st, ast.Assign):
            for t in st.targets:
                targets(t)
        elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
            targets(st.target)
        elif isinstance(st, ast.For):
            targets(st.target)
        elif isinstance(st, ast.With):
            for i in st.items:
                if i.optional_vars is not None:
                    targets(i.optional_vars)
        for c in ast.iter_child_nodes(st):
            if isinstance(c, (ast.stmt, ast.ExceptHandler)):
                walk(c)
            elif isinstance(c, ast.NamedExpr):
                targets(c.target)

    for s in body:
        walk(s)
    return out


def grown_and_read(body, helper=lambda c: None):
    """Names of containers both grown in the loop body and read in it: their
    contents come from earlier iterations."""
    grown, growuse = set(), set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call):
                h = helper(x)
                if h is not None:
                    fn, skip = h
                    names = [a.arg for a in fn.args.posonlyargs + fn.args.args][skip:]
                    pairs = list(zip(names, x.args)) + [(k.arg, k.value) for k in x.keywords]
                    for pn, a in pairs:
                        if isinstance(a, ast.Name) and pn in grown_names(fn.body):
                            grown.add(a.id)
                            if pn not in read_names(fn.body):
                                growuse.add(id(a))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                    and x.func.attr in ("append", "extend", "pop", "update", "insert", "remove", "add", "discard", "setdefault", "clear", "popitem"):
                grown.add(x.func.value.id)
                if x.func.attr in ("append", "extend", "update", "add", "setdefault"):
                    growuse.add(id(x.func.value))
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        grown.add(t.value.id)
                        growuse.add(id(t.value))
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                grown.add(x.target.id)
    read = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in growuse:
                read.add(x.id)
    return grown & read


def across(body):
    """Names set in one branch of the loop body and read in the other: what is read there was
    set by an earlier pass."""
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.If) and x.orelse:
                sets = assigned(x.body)
                other = assigned(x.orelse)
                out |= {y.id for z in x.orelse for y in ast.walk(z) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in sets and y.id not in other}
    return out


def grown_names(body):
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                    and x.func.attr in ("append", "extend", "pop", "update", "insert", "remove", "add", "discard"):
                out.add(x.func.value.id)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        out.add(t.value.id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
    return out


def read_names(body):
    use = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                    and x.func.attr in ("append", "extend", "update", "add"):
                use.add(id(x.func.value))
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        use.add(id(t.value))
    return {x.id for s in body for x in ast.walk(s)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in use}


def rebinds(body, name):
    """True if name is rebound other than by += (list extension)."""
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store):
                            return True
            elif isinstance(x, ast.For):
                for y in ast.walk(x.target):
                    if isinstance(y, ast.Name) and y.id == name:
                        return True
    return False


def _load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2
