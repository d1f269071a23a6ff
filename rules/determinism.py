"""Determinism rule (C24).

 source   a read of the clock, of process identity or of an unseeded random stream
 order    the iteration order of a set reaching a sequence, a join or a loop
 cache    a cached function whose key leaves out state it reads, or whose cached
          result is changed in place
Occurrences are counted per module; the confirmed ones are listed with the reason
they cannot reach a result, and only additional ones are findings."""
import ast
from collections import Counter

from .common import callee, local_imports, resolve

CLOCK = {
    "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "time.time",
    "time.time_ns", "time.localtime", "time.gmtime", "time.ctime", "os.getpid", "os.urandom", "uuid.uuid1", "uuid.uuid4", "os.listdir",
    "os.scandir", "glob.glob", "id", "hash", "time.perf_counter", "time.monotonic", "locals_order", "os.environ", "os.getenv", "socket.gethostname",
    "datetime.now", "datetime.utcnow", "datetime.today",
}
SOURCES_OK = {
    ("metadata.amend", "datetime.datetime.now"): (2, "the history attribute and an explicitly requested {now} placeholder record the time of running"),
    ("ensemble_copula_coupling.utilities", "numpy.random.uniform"): (1, "percentiles sampled at random only when that was asked for"),
    ("cli", "hash"): (2, "names of in-memory objects, used for display and argument parsing only"),
    ("cli", "id"): (1, "names of in-memory objects, used for display and argument parsing only"),
    ("cli", "time.perf_counter"): (2, "run-time display"),
    ("memprofile", "*"): (99, "profiling"), ("profile", "*"): (99, "profiling"),
}
ORDER_OK = {
    "calibration.dz_rescaling": "site names used only for membership in a constraint",
    "calibration.ensemble_calibration": "coordinates removed in any order; message text",
    "blending.weights": "sets of dimension tuples of integers iterate in a fixed order",
    "utilities.solar": "sets of dimension tuples of integers iterate in a fixed order",
    "blending.utilities": "sorted when joined",
    "utilities.cube_checker": "names in an error message and membership tests",
    "categorical.decision_tree": "records are sorted when joined",
    "categorical.utilities": "problem report",
    "cube_combiner": "each named coordinate is expanded on its own, in any order",
    "metadata.utilities": "the values in an error message; the one value of a set of one",
    "utilities.compare": "order of the messages of a report",
    "utilities.cube_manipulation": "realization numbers, whose hash does not vary; merged into order afterwards",
    "calibration.rainforest_calibration": "sorted before use",
    "developer_tools.metadata_interpreter": "message text",
}
LEAST = {"functions": 1000, "set_values": 30}
SETOPS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
FREE = {"sorted", "len", "min", "max", "sum", "any", "all", "set", "frozenset", "isinstance", "bool"}


def sources(p):
    c, where = Counter(), {}
    for q, f in p.funcs.items():
        m = p.modules[f.module]
        loc = local_imports(p, f)
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            r = resolve(p, m, x.func, loc)
            if r is None and isinstance(x.func, ast.Name) and x.func.id in ("id", "hash") and x.func.id not in f.all_params:
                r = x.func.id
            if r is None:
                continue
            bad = r in CLOCK
            if r.startswith("numpy.random.") or r.startswith("random."):
                bad = not (r.endswith(("RandomState", "default_rng", "Random", "SeedSequence", "Generator")) and (x.args or x.keywords)
                           and not any(isinstance(a, ast.Constant) and a.value is None for a in x.args))
                # a seed that is possibly None is what "without a seed" means
            if bad:
                k = (short(f.cmod), r)
                c[k] += 1
                where.setdefault(k, []).append((q, f"{f.relpath}:{x.lineno}"))
    return c, where


def short(m):
    return m[len("improver."):] if m != "improver" else ""


class Sets(ast.NodeVisitor):
    """Uses of set values in a function whose order shows."""

    def __init__(self, f, attrs=()):
        self.f = f
        self.names = set()
        for _ in range(3):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and self.isset(x.value):
                    self.names.add(x.targets[0].id)
        for x in ast.walk(f.node):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AnnAssign, ast.For)) else []
            for t in ts:
                if isinstance(t, ast.Name) and t.id in self.names and not (isinstance(x, ast.Assign) and self.isset(x.value)):
                    self.names.discard(t.id)
        self.found = []
        self.nsets = sum(self.isset(x) for x in ast.walk(f.node) if isinstance(x, ast.expr) and not isinstance(x, ast.Name))
        for x in ast.walk(f.node):
            self.check(x)

    def isset(self, e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
                return bool(e.args) or True
            if isinstance(e.func, ast.Attribute) and e.func.attr in SETOPS:
                return self.isset(e.func.value)
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            return self.isset(e.left) or self.isset(e.right)
        if isinstance(e, ast.Name):
            return e.id in self.names
        return False

    def hit(self, e, how):
        self.found.append((how, e.lineno))

    def check(self, x):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "enumerate", "zip", "map", "iter", "next", "reversed") or \
                    isinstance(x.func, ast.Attribute) and x.func.attr in ("join", "extend", "array", "asarray", "fromiter"):
                for a in x.args:
                    if self.isset(a) and not self.ordered(x):
                        self.hit(x, "sequence")
            for a in x.args:
                if isinstance(a, ast.Starred) and self.isset(a.value):
                    self.hit(x, "arguments")
                if isinstance(a, (ast.GeneratorExp, ast.ListComp)) and self.isset(a.generators[0].iter):
                    fn = x.func.id if isinstance(x.func, ast.Name) else ""
                    if fn in FREE:
                        self.skip.add(id(a)) if hasattr(self, "skip") else None
        elif isinstance(x, ast.For) and self.isset(x.iter):
            if not only_sets(x.body):
                self.hit(x, "loop")
        elif isinstance(x, (ast.ListComp, ast.GeneratorExp)) and self.isset(x.generators[0].iter):
            if not self.ordered(x):
                self.hit(x, "comprehension")
        elif isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Tuple, ast.List)) and len(x.targets[0].elts) > 1 and self.isset(x.value):
            self.hit(x, "unpacking")

    def ordered(self, x):
        """x is an argument of an order-free call (sorted(list(set)))."""
        for y in ast.walk(self.f.node):
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in FREE and any(a is x for a in y.args):
                return True
            if isinstance(y, ast.Compare) and any(a is x for a in y.comparators) and all(isinstance(o, (ast.In, ast.NotIn)) for o in y.ops):
                return True
            if isinstance(y, (ast.For,)) and y.iter is x and only_sets(y.body):
                return True
        return False


def only_sets(body):
    """A loop body in which order cannot show: membership bookkeeping and raising."""
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, (ast.Raise, ast.Return, ast.Yield, ast.Break)):
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr not in ("add", "discard", "update", "setdefault"):
                return False
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                return False
    return True


def orders(p):
    c, where, n = Counter(), {}, 0
    for q, f in p.funcs.items():
        s = Sets(f)
        n += s.nsets
        for how, ln in s.found:
            k = short(f.cmod)
            c[k] += 1
            where.setdefault(k, []).append((q, f"{f.relpath}:{ln}", how))
    return c, where, n


def cached(p):
    return {q: f for q, f in p.funcs.items() for d in f.node.decorator_list
            if "cache" in ast.unparse(d).split("(")[0].split(".")[-1] and ast.unparse(d).split("(")[0].split(".")[-1] in ("lru_cache", "cache", "cached_property")}


def caches(p):
    """Findings about cached functions."""
    from vlib.effects import self_rw
    out, n = {}, 0
    for q, f in cached(p).items():
        n += 1
        if f.cls and f.kind != "staticmethod":
            reads, _ = self_rw(p, f.cls, f.name)
            varying = set()
            for name in p.classes[f.cls].methods:
                if name == "__init__":
                    continue
                for x in ast.walk(p.classes[f.cls].methods[name].node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        varying.add(x.attr)
            dep = reads & varying
            if dep:
                bad = stale(p, f, dep)
                if bad:
                    out[(q, "stale")] = (f, f"{q} is cached by its arguments but reads {', '.join('self.' + d for d in sorted(dep))}; {bad}")
        # module-level state read by a cached function and changed elsewhere is caught by the mutation rule
        # callers must not change the cached value
        for q2, g in p.funcs.items():
            m = p.modules[g.module]
            loc = local_imports(p, g)
            for x in ast.walk(g.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) \
                        and callee(p, m, g, x.value) == q:
                    nm = x.targets[0].id
                    for y in ast.walk(g.node):
                        t = None
                        if isinstance(y, ast.AugAssign):
                            t = y.target
                        elif isinstance(y, ast.Assign):
                            t = y.targets[0] if isinstance(y.targets[0], ast.Subscript) else None
                        elif isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("sort", "append", "fill", "clip_") and \
                                isinstance(y.func.value, ast.Name) and y.func.value.id == nm:
                            out[(q2, "changed " + q)] = (g, f"{q2} changes in place the value cached by {q}")
                        while isinstance(t, ast.Subscript):
                            t = t.value
                        if isinstance(t, ast.Name) and t.id == nm:
                            out[(q2, "changed " + q)] = (g, f"{q2} changes in place the value cached by {q}")
    return out, n


def stale(p, f, dep):
    """Every entry that changes `dep` must clear the cache after the change and before a call."""
    for en in ("process", "__call__"):
        e = p.classes[f.cls].methods.get(en)
        if e is not None:
            w = Stale(p, f.cls, f.name, dep)
            w.run(e, False, ())
            if w.called:
                return f"{e.qual} calls it after changing them without clearing the cache"
    return None


class Stale:
    """May-analysis of one bit: an attribute the cached method reads was assigned and the
    cache not cleared since. None: control does not get here."""

    def __init__(self, p, cq, name, dep):
        self.p, self.cq, self.name, self.dep, self.called = p, cq, name, dep, False

    def run(self, f, dirty, stack):
        rets = []
        out = self.block(f.node.body, dirty, rets, stack + (f.qual,))
        return bool(out) or any(rets)

    def block(self, body, d, rets, stack):
        for st in body:
            if d is None:
                return None
            d = self.stmt(st, d, rets, stack)
        return d

    def expr(self, n, d, stack):
        order = sorted((x for x in ast.walk(n) if hasattr(x, "lineno") and isinstance(x, (ast.Attribute, ast.Call))),
                       key=lambda x: (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store), x.lineno, x.col_offset))
        for x in order:
            if isinstance(x, ast.Attribute):
                if isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in self.dep:
                    d = True
            elif isinstance(x.func, ast.Attribute):
                t = x.func
                if t.attr == "cache_clear" and isinstance(t.value, ast.Attribute) and t.value.attr == self.name:
                    d = False
                elif isinstance(t.value, ast.Name) and t.value.id == "self":
                    if t.attr == self.name:
                        self.called = self.called or d
                    else:
                        m = self.p.find_method(self.cq, t.attr)
                        if m is not None and m.qual not in stack:
                            d = self.run(m, d, stack)
        return d

    def stmt(self, st, d, rets, stack):
        if isinstance(st, ast.If):
            d = self.expr(st.test, d, stack)
            outs = [self.block(st.body, d, rets, stack), self.block(st.orelse, d, rets, stack)]
        elif isinstance(st, (ast.For, ast.While)):
            d = self.expr(st.iter if isinstance(st, ast.For) else st.test, d, stack)
            outs = [d]
            for _ in range(2):
                d2 = self.block(st.body, any(x for x in outs if x), rets, stack)
                outs.append(d2)
            d = any(x for x in outs if x)
            return self.block(st.orelse, d, rets, stack)
        elif isinstance(st, ast.Try):
            a = self.block(st.body, d, rets, stack)
            start = bool(a) or d
            outs = [self.block(h.body, start, rets, stack) for h in st.handlers]
            outs.append(self.block(st.orelse, a, rets, stack) if a is not None else None)
            live = [x for x in outs if x is not None]
            d2 = self.block(st.finalbody, any(live), rets, stack)
            return d2 if live else None
        elif isinstance(st, ast.With):
            for i in st.items:
                d = self.expr(i.context_expr, d, stack)
            return self.block(st.body, d, rets, stack)
        elif isinstance(st, ast.Return):
            rets.append(self.expr(st, d, stack))
            return None
        elif isinstance(st, ast.Raise):
            return None
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return d
        else:
            return self.expr(st, d, stack)
        live = [x for x in outs if x is not None]
        return any(live) if live else None


EXAMPLE = {"__init__.py": "", "ex.py": '''
import functools
import numpy as np
from datetime import datetime

def a(names):
    return ",".join(set(names)), datetime.now(), np.random.rand(3)

class P:
    @functools.lru_cache()
    def get(self, k):
        return self.x + k
    def process(self, x):
        self.x = x
        return self.get(1)
'''}


def run(v, pid):
    from vlib.load import AnalysisBroken, Project
    ex = Project(sources={f"improver/{k}": s for k, s in EXAMPLE.items()})
    if not (orders(ex)[0]["ex"] and sources(ex)[0][("ex", "datetime.datetime.now")] and sources(ex)[0][("ex", "numpy.random.rand")] and caches(ex)[0]):
        raise AnalysisBroken("determinism rule no longer fires on its own example")
    out = []
    c, where = sources(v.cur)
    for k in sorted(c):
        ok = SOURCES_OK.get(k, SOURCES_OK.get((k[0], "*"), (0, "")))[0]
        if c[k] > ok:
            q, at = where[k][-1]
            out.append((f"source:{k[0]}:{k[1]}", at, f"{', '.join(sorted({w[0] for w in where[k]}))}: reads {k[1]}; the result then depends on more than inputs and options"))
    c2, w2, n = orders(v.cur)
    r2, rw, _ = orders(v.ref)
    for k in sorted(c2):
        if c2[k] > (r2[k] if k in ORDER_OK else 0):
            old = Counter(q for q, _, _ in rw.get(k, []))
            new = [(q, at, how) for q, at, how in w2[k] if Counter(z[0] for z in w2[k])[q] > old[q]] or w2[k]
            q, at, how = new[-1]
            out.append((f"order:{q}:{how}", at, f"{q}: the order of a set shows in a {how}; it differs between processes"))
    c3, n3 = caches(v.cur)
    for (q, w), (f, text) in sorted(c3.items(), key=lambda t: t[0]):
        out.append((f"cache:{q}:{w}", f.where, text))
    return out, dict(functions=len(v.cur.funcs), set_values=n, clock_or_random_reads=sum(c.values()), cached_functions=n3)
