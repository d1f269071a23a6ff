"""Cheap transitive effect summaries over the syntax tree."""
import ast

from .interp import MUTATORS


def self_rw(project, cq, name, _seen=None):
    """Self attributes read / written by method `name` of class cq, through
    self-method calls."""
    seen = _seen if _seen is not None else set()
    if name in seen:
        return frozenset(), frozenset()
    seen.add(name)
    f = project.find_method(cq, name)
    if f is None:
        return frozenset(), frozenset()
    ps = f.all_params
    if not ps or f.kind == "staticmethod":
        return frozenset(), frozenset()
    me = ps[0]
    reads, writes = set(), set()

    def root_attr(e):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
                return e.attr
            e = e.func if isinstance(e, ast.Call) else e.value
        return None

    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
            m = project.find_method(cq, x.attr)
            if m is not None:
                r, w = self_rw(project, cq, x.attr, seen)
                reads |= r
                writes |= w
            elif isinstance(x.ctx, ast.Load):
                reads.add(x.attr)
            else:
                writes.add(x.attr)
        elif isinstance(x, ast.AugAssign):
            a = root_attr(x.target)
            if a:
                writes.add(a)
                reads.add(a)
        elif isinstance(x, (ast.Assign, ast.AnnAssign)):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            for t in ts:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    a = root_attr(t)
                    if a:
                        writes.add(a)
        elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute):
            if x.value.func.attr in MUTATORS:
                a = root_attr(x.value.func.value)
                if a:
                    writes.add(a)
    return frozenset(reads), frozenset(writes)


def mutated_params(project, qual):
    f = project.funcs[qual]
    ps = set(f.all_params)
    if f.kind in ("method", "classmethod") and f.all_params:
        ps.discard(f.all_params[0])
    rebound = set()
    out = set()

    def root(e):
        first = True
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(e, ast.Call):
                fn = e.func
                if isinstance(fn, ast.Attribute) and fn.attr in ("coord", "coords", "slices", "slices_over", "get"):
                    e = fn.value
                    continue
                return None
            e = e.value
        return e.id if isinstance(e, ast.Name) else None

    body = list(f.node.body)
    # names rebound unconditionally at top level before use are ignored only
    # when rebound from a copy
    for st in f.node.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            if st.targets[0].id in ps:
                rebound.add(st.targets[0].id)
    for x in ast.walk(f.node):
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            for t in ts:
                for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(y, (ast.Attribute, ast.Subscript)):
                        r = root(y)
                        if r in ps and r not in rebound:
                            out.add(r)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
            if x.func.attr in ("transpose", "add", "update", "remove", "sort", "insert", "pop") :
                pass
            r = root(x.func.value)
            if r in ps and r not in rebound:
                out.add(r)
        elif isinstance(x, ast.Delete):
            for t in x.targets:
                if isinstance(t, ast.Subscript):
                    r = root(t)
                    if r in ps and r not in rebound:
                        out.add(r)
    return frozenset(out)
