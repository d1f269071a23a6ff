"""Kept-value rule (every compared property): an array put into a container, and changed in
place by a later statement or a later pass of the loop, changes what was put there too.  Reported
where the confirmed definition has no such pair (it puts a copy there, or computes a new array)."""
import ast

from .common import local_imports, resolve

LEAST = {"kept_values": 0}
NEW = ("numpy.", "scipy.")


def flat(body):
    for st in body:
        yield st
        for k in ("body", "orelse", "finalbody"):
            yield from flat(getattr(st, k, []))
        for h in getattr(st, "handlers", []):
            yield from flat(h.body)


def own(st):
    """The expressions of one statement, not of the statements inside it."""
    for f, x in ast.iter_fields(st):
        for y in (x if isinstance(x, list) else [x]):
            if isinstance(y, ast.expr):
                yield from ast.walk(y)
            elif isinstance(y, ast.withitem):
                yield from ast.walk(y.context_expr)


def names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def direct(e):
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, (ast.Tuple, ast.List)):
        return set().union(*[direct(x) for x in e.elts]) if e.elts else set()
    if isinstance(e, ast.Starred):
        return set()
    return set()


def keeps(st):
    """Names whose object the statement puts into a container."""
    out = set()
    for x in own(st):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add", "insert") and x.args:
            out |= direct(x.args[-1])
    if isinstance(st, ast.Assign):
        for t in st.targets:
            if isinstance(t, ast.Subscript) and isinstance(t.value, (ast.Name, ast.Attribute)) and isinstance(t.slice, (ast.Name, ast.Constant, ast.Attribute)):
                out |= {("item", n) for n in direct(st.value)}
        if isinstance(st.value, (ast.List, ast.Dict)):
            out |= direct(st.value) if isinstance(st.value, ast.List) else set().union(*[direct(x) for x in st.value.values if x is not None])
    return out


def binds(st):
    out = set()
    if isinstance(st, ast.Assign):
        for t in st.targets:
            out |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    elif isinstance(st, ast.AnnAssign) and st.value is not None:
        out |= names(st.target)
    elif isinstance(st, (ast.For, ast.AsyncFor)):
        out |= names(st.target)
    elif isinstance(st, (ast.With, ast.AsyncWith)):
        for i in st.items:
            if i.optional_vars is not None:
                out |= names(i.optional_vars)
    for x in own(st):
        if isinstance(x, ast.NamedExpr):
            out.add(x.target.id)
    return out


class Fn:
    def __init__(self, p, f):
        self.p, self.m = p, p.modules[f.module]
        self.loc = local_imports(p, f)
        self.arr = set()
        sts = list(flat(f.node.body))
        n = -1
        while n != len(self.arr):
            n = len(self.arr)
            for st in sts:
                if isinstance(st, (ast.Assign, ast.AugAssign)) and self.array(st.value):
                    for t in getattr(st, "targets", None) or [st.target]:
                        if isinstance(t, ast.Name):
                            self.arr.add(t.id)
        self.dicts = {t.id for st in sts if isinstance(st, ast.Assign) and isinstance(st.value, (ast.Dict, ast.DictComp))
                      for t in st.targets if isinstance(t, ast.Name)}
        self.out, self.n = {}, 0
        self.block(f.node.body)

    def array(self, e):
        """Certainly an array."""
        if isinstance(e, ast.Name):
            return e.id in self.arr
        if isinstance(e, ast.Attribute):
            return e.attr in ("data", "points", "bounds") and not (isinstance(e.value, ast.Name) and e.value.id == "self")
        if isinstance(e, ast.BinOp):
            return self.array(e.left) or self.array(e.right)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "astype", "reshape", "filled", "flatten"):
                return self.array(e.func.value)
            r = resolve(self.p, self.m, e.func, self.loc) or ""
            return r.startswith("numpy.") and r.split(".")[-1] in (
                "where", "zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like", "empty_like", "stack", "concatenate",
                "masked_where", "masked_array", "array", "broadcast_to", "clip", "nan_to_num", "cumsum", "add", "multiply", "subtract", "divide")
        return False

    def block(self, body):
        for i, st in enumerate(body):
            ks = {(k[1], True) if isinstance(k, tuple) else (k, False) for k in keeps(st)}
            for k, item in ks:
                if item and not any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in self.dicts for t in st.targets):
                    continue
                self.n += 1
                self.after(k, st, body[i + 1:])
            for k in ("body", "orelse", "finalbody"):
                b = getattr(st, k, None)
                if isinstance(b, list):
                    if k == "body" and isinstance(st, (ast.For, ast.While)):
                        inner = list(flat(b))
                        bound = set().union(*[binds(x) for x in inner + [st]])
                        for x in inner:
                            for y in keeps(x):
                                if isinstance(y, str) and y not in bound:
                                    self.after(y, x, b)
                    self.block(b)
            for h in getattr(st, "handlers", []):
                self.block(h.body)

    def after(self, k, st0, body):
        for st in flat(body):
            if k in binds(st):
                return
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == k and (k in self.arr or self.array(st.value)):
                self.out.setdefault(k, (st0.lineno, st.lineno))


def analyse(p, only=None):
    out, n = {}, 0
    for q, f in p.funcs.items():
        if only is None or q in only:
            r = Fn(p, f)
            n += r.n
            if r.out:
                out[q] = r.out
    return out, n


GOOD = '''
import numpy as np
def a(xs):
    out, t = [], 0
    for x in xs:
        t += np.where(x.data > 0, x.data, 0)
        out.append(t.copy())
    return out
def b(x):
    y = np.zeros(3)
    out = [y]
    y = y + x
    return out, y
'''
BAD = GOOD.replace("t.copy()", "t").replace("y = y + x", "y += x")


def run(v, pid, only):
    from vlib.load import AnalysisBroken, Project
    g, b = [analyse(Project(sources={"improver/__init__.py": "", "improver/ex.py": s}))[0] for s in (GOOD, BAD)]
    if g or set(b) != {"improver.ex.a", "improver.ex.b"}:
        raise AnalysisBroken("kept-value rule no longer fires on its own example")
    only = set(only) & set(v.cur.funcs)
    got, n = analyse(v.cur, only)
    ref, _ = analyse(v.ref, set(got))
    out = []
    for q, d in sorted(got.items()):
        if len(d) > len(ref.get(q, ())):
            f = v.cur.funcs[q]
            for k, (a, b) in d.items():
                if k not in ref.get(q, ()):
                    out.append((f"kept:{q}:{k}", f"{f.relpath}:{a}", f"{q} keeps the array '{k}' (line {a}) and changes it in place afterwards (line {b}): what was kept changes with it"))
    return out, dict(kept_values=n)
