"""Compare every function's current value normal form with the confirmed one.

Verdict per function: list of (item, text) evidence, list of undecided entries.
An item alarms only when it has evidence and nothing undecided.  Functions that
changed together and call each other are compared with the callee unfolded on
both sides, so that moving work between them is no difference."""
import ast
import copy
import sys

from . import confirmed
from .align import align
from .differ import compare_items
from .footprint import features
from .logic import tests
from .interp import Interp
from .load import Project, Module
from .nodes import C, N, Node

sys.setrecursionlimit(40000)


def signature(f):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if f.kind in ("method", "property", "classmethod"):
        ps = ps[1:]
    return tuple(ps), a.vararg and a.vararg.arg, tuple(x.arg for x in a.kwonlyargs), a.kwarg and a.kwarg.arg


def self_attrs(c):
    out = {}
    for m in c.methods.values():
        ps = m.all_params
        if not ps or m.kind == "staticmethod":
            continue
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == ps[0]:
                out.setdefault(x.attr, set()).add(type(x.ctx).__name__)
    return out


_PLAIN = {"str", "int", "float", "bool", "Optional", "Union", "List", "Tuple", "Sequence", "Dict", "list", "tuple", "dict", "None"}


def annotated(f):
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None:
            w = {y.id for y in ast.walk(x.annotation) if isinstance(y, ast.Name)} | \
                {y.value for y in ast.walk(x.annotation) if isinstance(y, ast.Constant) and isinstance(y.value, str)}
            if w and w <= _PLAIN:
                yield x.arg


class Result:
    __slots__ = ("qual", "evidence", "undecided", "items", "size", "opaque")


class Validation:
    def __init__(self, root=None, cur=None, ref=None):
        self.ref = ref or Project(sources=confirmed.load())
        self.cur = cur or Project(root)
        self.cur = unrename(self.ref, align(self.ref, self.cur))
        both = set(self.ref.funcs) & set(self.cur.funcs)
        self.changed_sig = {q for q in both if signature(self.ref.funcs[q]) != signature(self.cur.funcs[q])}
        self.both = both
        self.methods = frozenset(m for c in self.ref.classes.values() for m in c.methods)
        self.known = (both - self.changed_sig) | (set(self.ref.classes) & set(self.cur.classes))
        self.iref = Interp(self.ref, self.known)
        self.icur = Interp(self.cur, self.known, self.iref)
        self.memo = {}
        self._alt = {}
        self._callers = None

    # one function, as the confirmed tree has it and as it is now
    def raw(self, q, drop=frozenset()):
        key = (q, drop)
        if key in self.memo:
            return self.memo[key]
        if drop:
            if drop not in self._alt:
                k = self.known - drop
                ir = Interp(self.ref, k)
                self._alt[drop] = (ir, Interp(self.cur, k, ir))
            ir, ic = self._alt[drop]
        else:
            ir, ic = self.iref, self.icur
        r = Result()
        r.qual = q
        try:
            a = ir.summary(q)
            b = ic.summary(q)
        except RecursionError:
            r.evidence, r.undecided, r.items, r.size, r.opaque = [], [("all", "too deep")], {}, 0, 0
            self.memo[key] = r
            return r
        E, U = compare_items(a.items, b.items, b.opaque, self.plain(q), self.methods)
        if E and a.handlers != b.handlers:
            # a test in place of a caught exception, or the other way round
            ta, tb = ({d for n in x.items.values() for d in tests(n)} for x in (a, b))
            if (tb - ta if a.handlers > b.handlers else ta - tb):
                E, U = [], U + [(k, "handler exchanged for a test: " + m) for k, m in E]
        r.evidence, r.undecided = E, U
        r.items, r.size, r.opaque = a.items, sum(n.size for n in b.items.values()), b.opaque
        self.memo[key] = r
        return r

    def plain(self, q):
        """Options of q annotated, in both definitions, as text, numbers or sequences of them."""
        out = []
        for p in (self.ref, self.cur):
            f = p.funcs[q]
            x = {N("param", n).dig for n in annotated(f)}
            i = p.find_method(f.cls, "__init__") if f.cls else None
            if i is not None:
                x |= {N("selfattr", n).dig for n in annotated(i)}
            out.append(x)
        return frozenset(out[0] & out[1])

    def alarms(self, r):
        bad = {i for i, _ in r.undecided}
        return [(i, m) for i, m in r.evidence if i not in bad]

    # constants, class entry points and signatures: pseudo functions
    def extras(self):
        """[(pseudo qual, module, alarms)] for public constants, entry points, signatures."""
        out = []
        n = 0
        for mn, m in self.ref.modules.items():
            cm = self.cur.modules.get(mn)
            if cm is None:
                continue
            for name in m.consts:
                if name.startswith("_") or name in m.multi or name not in cm.consts or name in cm.multi:
                    continue
                n += 1
                a, b = self.iref.modconst(m, name), self.icur.modconst(cm, name)
                if a is not b and not a.opq and not b.opq:
                    E, U = compare_items({"const": a}, {"const": b})
                    if E and not U:
                        out.append((f"{mn}.{name}", mn, E))
        for cq, c in self.ref.classes.items():
            cc = self.cur.classes.get(cq)
            if cc is None:
                continue
            for name, e in c.consts.items():
                if name.startswith("_") or name not in cc.consts:
                    continue
                n += 1
                a = self.constant(self.iref, c, e)
                b = self.constant(self.icur, cc, cc.consts[name])
                if a is not None and b is not None and a is not b and not a.opq and not b.opq:
                    E, U = compare_items({"const": a}, {"const": b})
                    if E and not U:
                        out.append((f"{cq}.{name}", c.module, E))
            for name in ("__call__", "process"):
                a, b = self.ref.find_method(cq, name), self.cur.find_method(cq, name)
                if a is None:
                    continue
                n += 1
                if a.cls != cq and (b is None or b.qual != a.qual and b.cls in self.ref.classes):
                    out.append((cq, c.module, [("bases", f"{name} was inherited from {a.cls.split('.')[-1]}, is now {'missing' if b is None else 'from ' + b.cls.split('.')[-1]}")]))
        for q in sorted(self.changed_sig):
            f, g = self.ref.funcs[q], self.cur.funcs[q]
            if f.name.startswith("_") and f.name not in ("__init__", "__call__"):
                continue
            a, b = signature(f), signature(g)
            if list(b[0][:len(a[0])]) == list(a[0]) and set(a[2]) <= set(b[2]) | set(b[0]) and a[1] == b[1]:
                continue
            if a[1] != b[1] and a[0] == b[0] and bool(a[1]) == bool(b[1]):
                continue
            out.append((q, f.module, [("params", f"parameters changed from {a} to {b}")]))
        self.nextras = n + len(self.both)
        return out

    def constant(self, ip, c, e):
        from .interp import Run
        try:
            return Run(ip, None, module=ip.p.modules[c.module]).const_value(e)
        except Exception:
            return None

    # call graph over both trees (simple names resolved through the loader)
    def callgraph(self):
        if self._callers is not None:
            return self._callers
        out = {}
        for p in (self.ref, self.cur):
            for q, f in p.funcs.items():
                for t in callees(p, f):
                    out.setdefault(t, set()).add(q)
        self._callers = out
        return out

    def verdict(self, q):
        """-> (alarms, undecided, Result)"""
        r = self.raw(q)
        al = self.alarms(r)
        if not al and not r.undecided:
            return al, r.undecided, r
        # a helper written out in place, or code that an existing helper already had
        moved = self.moved(q)
        if moved:
            r2 = self.raw(q, frozenset(moved))
            if not r2.evidence and not r2.undecided:
                return [], [], r2
        if not al:
            return al, r.undecided, r
        # order of what its own helpers do
        own = self.own(q)
        if own:
            r2 = self.raw(q, frozenset(own))
            if not r2.evidence and not r2.undecided:
                return [], [], r2
        # changed together with a callee or a caller?
        near = self.connected(q)
        if near:
            drop = frozenset(near)
            cg = self.callgraph()
            private = q.split(".")[-1].startswith("_") and not q.endswith("__")
            r2 = self.raw(q, drop - {q})
            a2 = self.alarms(r2)
            if not a2 and not r2.undecided:
                return [], [], r2
            if private:
                cs = [c for c in cg.get(q, ()) if c in self.both and c != q]
                if cs:
                    rs = [self.raw(c, drop | {q}) for c in sorted(cs)]
                    if all(not x.evidence and not x.undecided for x in rs):
                        return [], [], r
            return (a2 if a2 and not private else al), r.undecided, r2
        return al, r.undecided, r

    def moved(self, q):
        """Functions of the repository that only one of the two definitions of q calls."""
        a, b = self.iref.summary(q), self.icur.summary(q)
        x = {f for n in a.items.values() for f in features(n) if f.startswith("call of ")}
        y = {f for n in b.items.values() for f in features(n) if f.startswith("call of ")}
        out = set()
        cls = self.ref.funcs[q].cls
        for f in x ^ y:
            t = f[8:]
            if t.startswith("self.") and cls:
                m = self.ref.find_method(cls, t[5:])
                t = m.qual if m is not None else None
            if t in self.both and t != q:
                out.add(t)
        return out if len(out) <= 4 else set()

    def own(self, q):
        """Functions of the same module that both definitions of q call."""
        out = set()
        for t in callees(self.ref, self.ref.funcs[q]) & callees(self.cur, self.cur.funcs[q]):
            if t in self.both and t in self.known and self.ref.funcs[t].module == self.ref.funcs[q].module and \
                    t.split(".")[-1] not in ("__init__", "process", "__call__"):
                out.add(t)
        return out if len(out) <= 6 else set()

    def same(self, q):
        """q computes, refuses and changes exactly what the confirmed definition does."""
        if q not in self.both:
            return False
        al, und, _ = self.verdict(q)
        return not al and not und

    def same_class(self, cq):
        """So does every method the class had."""
        if cq not in self.ref.classes or cq not in self.cur.classes:
            return False
        return all(self.same(m.qual) for c in self.ref.mro(cq) for m in c.methods.values())

    def connected(self, q):
        """Other functions with differences linked to q by calls (transitively)."""
        cg = self.callgraph()
        fwd = {}
        for t, cs in cg.items():
            for c in cs:
                fwd.setdefault(c, set()).add(t)
        seen, todo = {q}, [q]
        while todo:
            x = todo.pop()
            for y in (cg.get(x, set()) | fwd.get(x, set())):
                if y in seen or y not in self.known or y not in self.both:
                    continue
                r = self.raw(y)
                if r.evidence or r.undecided:
                    seen.add(y)
                    todo.append(y)
        return seen - {q}


def callees(p, f):
    m = p.modules[f.module]
    out = set()
    me = f.all_params[0] if f.kind in ("method", "classmethod", "property") and f.all_params else None
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute):
            if isinstance(x.value, ast.Name) and x.value.id == me and f.cls:
                t = p.find_method(f.cls, x.attr)
                if t is not None:
                    out.add(t.qual)
                for sc in p.subclasses(f.cls):
                    if x.attr in sc.methods:
                        out.add(sc.methods[x.attr].qual)
            else:
                t = p.resolve_expr(m, x)
                if t in p.funcs:
                    out.add(t)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            t = p.resolve_name(m, x.id)
            if t in p.funcs:
                out.add(t)
            elif t in p.classes:
                for n in ("__init__", "process", "__call__"):
                    mm = p.find_method(t, n)
                    if mm is not None:
                        out.add(mm.qual)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Call) \
                and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == "super" and f.cls:
            for c in p.mro(f.cls)[1:]:
                if x.func.attr in c.methods:
                    out.add(c.methods[x.func.attr].qual)
                    break
    out.discard(f.qual)
    # functions imported locally
    for x in ast.walk(f.node):
        if isinstance(x, ast.ImportFrom) and x.module:
            for a in x.names:
                t = p.canonical(f"{x.module}.{a.name}")
                if t in p.funcs:
                    out.add(t)
                elif t in p.classes:
                    for n in ("__init__", "process", "__call__"):
                        mm = p.find_method(t, n)
                        if mm is not None:
                            out.add(mm.qual)
    return out


def unrename(ref, cur):
    """Undo consistent renames of instance attributes, class by class."""
    todo = {}
    for cq, c in cur.classes.items():
        if cq not in ref.classes:
            continue
        a, b = self_attrs(ref.classes[cq]), self_attrs(c)
        gone = [x for x in a if x not in b and "Store" in a[x] and ref.find_method(cq, x) is None]
        new = [x for x in b if x not in a and "Store" in b[x] and cur.find_method(cq, x) is None]
        if not gone or not new:
            continue
        both = {q for q in ref.funcs if q in cur.funcs}
        known = both | (set(ref.classes) & set(cur.classes))
        ia, ib = Interp(ref, known), Interp(cur, known)
        pairs = {}
        for mn, m in c.methods.items():
            if m.qual not in ref.funcs:
                continue
            sa, sb = ia.summary(m.qual).items, ib.summary(m.qual).items
            for x in gone:
                for y in new:
                    na, nb = sa.get("self:" + x), sb.get("self:" + y)
                    if na is not None and na is nb:
                        pairs.setdefault(x, set()).add(y)
        mp = {}
        for x, ys in pairs.items():
            if len(ys) == 1:
                (y,) = ys
                if sum(y in z for z in pairs.values()) == 1:
                    mp[y] = x
        if mp:
            for k in [cq] + [s.qual for s in cur.subclasses(cq)]:
                todo.setdefault(k, {}).update(mp)
    if not todo:
        return cur
    for cq, mp in todo.items():
        c = cur.classes[cq]
        for m in c.methods.values():
            ps = m.all_params
            if not ps or m.kind == "staticmethod":
                continue
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == ps[0] and x.attr in mp:
                    x.attr = mp[x.attr]
    return cur
