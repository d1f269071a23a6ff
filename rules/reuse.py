"""Reuse rule: no call of a plugin may depend on what an earlier call left behind.

Flow-sensitive, interprocedural over self calls.  For each class with a public
call entry (process / __call__ / any public method of a helper class), the set of
attributes definitely assigned since the entry is propagated through the method
bodies.  An attribute that some step of the call (re)assigns or changes in place
and that may be read before this call has assigned it carries a previous call's
value: finding (class, attribute)."""
import ast

from vlib.interp import MUTATORS

ENTRY = ("process", "__call__")


class _All:
    def __contains__(self, x):
        return True


ALL = _All()


class Flow:
    def __init__(self, project, cq, varying):
        self.p, self.cq = project, cq
        self.varying = varying      # attributes some call assigns or changes
        self.memo = {}
        self.reads = {}     # attr -> (method, line) read with incoming value
        self.writes = {}    # attr -> (method, line)
        self.inplace = {}   # attr -> (method, line, defined?)

    def call(self, name, defs):
        f = self.p.find_method(self.cq, name)
        if f is None or f.kind == "staticmethod" or not f.all_params:
            return defs
        key = (name, defs)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = defs
        b = Body(self, f)
        out = b.block(f.node.body, defs)
        rs = b.rets + ([out] if out is not None else [])
        res = frozenset.intersection(*rs) if rs else defs
        self.memo[key] = res
        return res


class Body:
    def __init__(self, flow, f):
        self.fl, self.f = flow, f
        self.me = f.all_params[0]
        self.rets = []
        self.alias = {}
        self.locals = set(f.all_params[1:]) | {
            n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        stores = [n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)]
        self.once = {n.targets[0].id: n.value for n in ast.walk(f.node)
                     if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)
                     and stores.count(n.targets[0].id) == 1 and n.targets[0].id not in f.all_params}

        defs = [n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node]
        self.inner = {d.name: d for d in defs if d.name not in stores and sum(x.name == d.name for x in defs) == 1}

    # expression: visit in evaluation order (approximation: generic order)
    def expr(self, e, defs):
        if e is None:
            return defs
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me:
            m = self.fl.p.find_method(self.fl.cq, e.attr)
            if m is not None:
                if m.kind == "property":
                    return self.fl.call(e.attr, defs)
                return self.fl.call(e.attr, defs)   # bound method passed around
            if isinstance(e.ctx, ast.Load):
                self.read(e.attr, e, defs)
            return defs
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.me \
                    and self.fl.p.find_method(self.fl.cq, fn.attr) is not None:
                for a in e.args:
                    defs = self.expr(a, defs)
                for k in e.keywords:
                    defs = self.expr(k.value, defs)
                return self.fl.call(fn.attr, defs)
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                    and fn.value.func.id == "super":
                for a in e.args:
                    defs = self.expr(a, defs)
                # parent implementation analysed in the context of this class
                for b in self.fl.p.mro(self.f.cls)[1:]:
                    c = self.fl.p.classes.get(b)
                    if c and fn.attr in c.methods:
                        sub = Body(self.fl, c.methods[fn.attr])
                        out = sub.block(c.methods[fn.attr].node.body, defs)
                        rs = sub.rets + ([out] if out is not None else [])
                        return frozenset.intersection(*rs) if rs else defs
                return defs
            if isinstance(fn, ast.Attribute):
                defs = self.expr(fn.value, defs)
                if fn.attr in MUTATORS:
                    a = self.root(fn.value)
                    if a and not (fn.attr in ("transpose", "sort", "add", "remove", "insert", "update", "pop") and False):
                        self.inplace(a, e, defs, fn.attr)
            else:
                defs = self.expr(fn, defs)
            for a in e.args:
                defs = self.expr(a, defs)
            for k in e.keywords:
                defs = self.expr(k.value, defs)
            # passing self.attr to a function that changes that parameter
            return defs
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            d = defs
            for c in ast.iter_child_nodes(e):
                d = self.generic(c, d)
            return defs
        if isinstance(e, (ast.BoolOp, ast.IfExp)):
            if isinstance(e, ast.IfExp):
                defs = self.expr(e.test, defs)
                self.expr(e.body, defs)
                self.expr(e.orelse, defs)
                return defs
            defs = self.expr(e.values[0], defs)
            for v in e.values[1:]:
                self.expr(v, defs)
            return defs
        return self.generic(e, defs)

    def generic(self, e, defs):
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                defs = self.expr(c, defs)
            elif isinstance(c, (ast.comprehension, ast.keyword, ast.FormattedValue)):
                defs = self.generic(c, defs)
        return defs

    def root(self, e):
        """self attribute an lvalue-ish expression is rooted in (with aliases)."""
        while True:
            if isinstance(e, ast.Attribute):
                if isinstance(e.value, ast.Name) and e.value.id == self.me:
                    return e.attr if self.fl.p.find_method(self.fl.cq, e.attr) is None else None
                e = e.value
            elif isinstance(e, ast.Subscript):
                e = e.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in (
                    "coord", "coords", "values", "items", "get"):
                e = e.func.value
            elif isinstance(e, ast.Name):
                return self.alias.get(e.id)
            else:
                return None

    def configured(self, test):
        """The test reads only attributes no call assigns (and constants, and names assigned
        once from such), directly or through helpers that only work out such a test."""
        return self.conf(test, self.me, frozenset(), 0) is True

    def conf(self, n, me, free, depth):
        """True: configured; None: neither reads configuration nor anything that varies; False: varies."""
        kids = []
        if isinstance(n, ast.Name):
            if n.id == me or n.id in free:
                return None
            if not isinstance(n.ctx, ast.Load):
                return False
            if me == self.me and n.id in self.locals:
                return n.id in self.once and self.conf(self.once[n.id], me, free, depth + 1) is not False if depth < 6 else False
            return None
        if isinstance(n, (ast.Lambda, ast.NamedExpr)):
            return False
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            m = self.fl.p.find_method(self.fl.cq, n.attr)
            if m is not None:
                return self.conf_helper(m.node, m.all_params[0] if m.all_params else None, (), depth) if m.kind == "property" else False
            return False if n.attr in self.fl.varying else True
        if isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Name) and fn.id in ("isinstance", "len", "any", "all", "bool"):
                kids = n.args + [k.value for k in n.keywords]
            else:
                r = False
                if isinstance(fn, ast.Name) and fn.id in self.inner:
                    d = self.inner[fn.id]
                    r = self.conf_helper(d, me, [a.arg for a in d.args.args], depth)
                elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me:
                    m = self.fl.p.find_method(self.fl.cq, fn.attr)
                    if m is not None and m.kind in ("method", "staticmethod"):
                        ps = m.all_params
                        r = self.conf_helper(m.node, ps[0] if m.kind == "method" and ps else None, ps, depth)
                if r is False:
                    return False
                got = [self.conf(a, me, free, depth) for a in n.args + [k.value for k in n.keywords]]
                return False if False in got else True if r or True in got else None
        else:
            kids = list(ast.iter_child_nodes(n))
        got = [self.conf(c, me, free, depth) for c in kids]
        return False if False in got else True if True in got else None

    def conf_helper(self, fn, me, params, depth):
        body = [st for st in fn.body if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant))]
        if depth > 4 or len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None or fn.args.vararg or fn.args.kwarg:
            return False
        return self.conf(body[0].value, me, frozenset(params), depth + 1)

    def read(self, attr, e, defs):
        if attr not in defs:
            self.fl.reads.setdefault(attr, (self.f.qual, e.lineno))

    def inplace(self, attr, e, defs, how):
        if attr not in defs:
            self.fl.inplace.setdefault(attr, (self.f.qual, e.lineno, how))
            self.fl.writes.setdefault(attr, (self.f.qual, e.lineno))

    def write(self, attr, e):
        self.fl.writes.setdefault(attr, (self.f.qual, e.lineno))

    def target(self, t, defs, aug=False):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me:
            if aug:
                self.read(t.attr, t, defs)
            self.write(t.attr, t)
            return defs | {t.attr}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                defs = self.target(x, defs)
            return defs
        if isinstance(t, ast.Starred):
            return self.target(t.value, defs)
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            a = self.root(t)
            if isinstance(t, ast.Subscript):
                defs = self.expr(t.slice, defs)
            defs = self.expr(t.value, defs)
            if a:
                self.inplace(a, t, defs, "item/attribute assignment")
            return defs
        if isinstance(t, ast.Name):
            self.alias.pop(t.id, None)
        return defs

    def block(self, body, defs):
        for i, st in enumerate(body):
            if defs is None:
                return None
            if isinstance(st, ast.If) and leaves(st.body) != leaves(st.orelse) and self.configured(st.test):
                # one side returns and the configuration alone decides which: the
                # statements that follow belong to the other side
                return self.split(st, body[i + 1:], self.expr(st.test, defs))
            defs = self.stmt(st, defs)
        return defs

    def split(self, st, rest, defs):
        sides = []
        for b in (st.body, st.orelse):
            n = len(self.rets)
            out = self.block(b if leaves(b) else b + rest, defs)
            rets = self.rets[n:]
            del self.rets[n:]
            ends = rets + ([out] if out is not None else [])
            sides.append((out, rets, frozenset.intersection(*ends) if ends else frozenset()))
        (a, ra, da), (b, rb, db) = sides
        self.rets += [x | db for x in ra] + [x | da for x in rb]
        if a is not None and b is not None:
            return a | b
        return a | db if a is not None else b | da if b is not None else None

    def stmt(self, st, defs):
        if isinstance(st, ast.Assign):
            defs = self.expr(st.value, defs)
            for t in st.targets:
                defs = self.target(t, defs)
                if isinstance(t, ast.Name):
                    a = self.root(st.value) if isinstance(st.value, (ast.Attribute, ast.Subscript, ast.Name)) else None
                    if a:
                        self.alias[t.id] = a
            return defs
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                defs = self.expr(st.value, defs)
                defs = self.target(st.target, defs)
            return defs
        if isinstance(st, ast.AugAssign):
            defs = self.expr(st.value, defs)
            return self.target(st.target, defs, aug=True)
        if isinstance(st, (ast.Expr, ast.Return)):
            v = st.value
            defs = self.expr(v, defs) if v is not None else defs
            if isinstance(st, ast.Return):
                self.rets.append(defs)
                return None
            return defs
        if isinstance(st, ast.Raise):
            if st.exc is not None:
                self.expr(st.exc, defs)
            return None
        if isinstance(st, ast.If):
            defs = self.expr(st.test, defs)
            a = self.block(st.body, defs)
            b = self.block(st.orelse, defs)
            if a is not None and b is not None and self.configured(st.test):
                # decided by the configuration alone, so the same in every call:
                # what the branch assigns is assigned in every call, or in none
                return a | b
            if a is None:
                return b
            if b is None:
                return a
            return a & b
        if isinstance(st, (ast.For, ast.While)):
            if isinstance(st, ast.For):
                defs = self.expr(st.iter, defs)
                al = self.root(st.iter)
                self.target(st.target, defs)
                if al and isinstance(st.target, ast.Name):
                    self.alias[st.target.id] = al
            else:
                defs = self.expr(st.test, defs)
            self.block(st.body, defs)
            if st.orelse:
                return self.block(st.orelse, defs)
            return defs
        if isinstance(st, ast.Try):
            a = self.block(st.body, defs)
            if a is not None and st.orelse:
                a = self.block(st.orelse, a)
            outs = [a] if a is not None else []
            for h in st.handlers:
                o = self.block(h.body, defs)
                if o is not None:
                    outs.append(o)
            out = frozenset.intersection(*outs) if outs else None
            if st.finalbody:
                out2 = self.block(st.finalbody, out if out is not None else defs)
                out = out2 if out is not None else None
            return out
        if isinstance(st, ast.With):
            for i in st.items:
                defs = self.expr(i.context_expr, defs)
                if i.optional_vars is not None:
                    defs = self.target(i.optional_vars, defs)
            return self.block(st.body, defs)
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    a = self.root(t)
                    if a:
                        self.inplace(a, t, defs, "del")
            return defs
        if isinstance(st, ast.Assert):
            return self.expr(st.test, defs)
        if isinstance(st, (ast.Break, ast.Continue)):
            return None
        return defs


def leaves(body):
    return bool(body) and isinstance(body[-1], ast.Return)


def analyse(project):
    """-> (findings {(class, attr): text}, stats)"""
    out, nclasses, nattrs, nmeth = {}, 0, 0, 0
    for cq, c in sorted(project.classes.items()):
        entry = next((e for e in ENTRY if project.find_method(cq, e) is not None), None)
        if entry is None:
            continue
        nclasses += 1
        first = Flow(project, cq, ALL)
        first.call(entry, frozenset())
        fl = Flow(project, cq, set(first.writes) | set(first.inplace))
        fl.call(entry, frozenset())
        nattrs += len(set(fl.reads) | set(fl.writes))
        nmeth += len({k[0] for k in fl.memo})
        for a in sorted(fl.writes):
            if a in fl.inplace:
                m, ln, how = fl.inplace[a]
                f = project.funcs[m]
                out[(cq, a)] = f"{f.relpath}:{ln}: {m} changes self.{a} in place ({how}); the next call of {cq.split('.')[-1]}.{entry} starts from the changed value"
            elif a in fl.reads:
                m, ln = fl.writes[a]
                m2, ln2 = fl.reads[a]
                f, f2 = project.funcs[m], project.funcs[m2]
                out[(cq, a)] = f"{f.relpath}:{ln}: {m} reassigns self.{a}, which {m2} ({f2.relpath}:{ln2}) reads before this call has assigned it: a second call of {cq.split('.')[-1]}.{entry} sees the first call's value"
    return out, {"classes": nclasses, "methods": nmeth, "attributes": nattrs}


# confirmed by reading
REUSE_OK = {("improver.blending.calculate_weights_and_blend.WeightAndBlend", "blend_coord"):
            "set to the value that every later call would set it to ('model_id' for 'model')"}
LEAST = {"classes": 100, "methods": 350, "attributes": 350}


def handed(p, ip, cq):
    """Configured attributes a call hands to something that changes them in place."""
    out = {}
    entry = next((e for e in ENTRY if p.find_method(cq, e) is not None), None)
    if entry is None:
        return out
    assigned = set()
    seen, todo = set(), [entry]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        f = p.find_method(cq, n)
        if f is None or not f.all_params or f.kind == "staticmethod":
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.all_params[0]:
                if isinstance(x.ctx, ast.Store):
                    assigned.add(x.attr)
                elif p.find_method(cq, x.attr) is not None:
                    todo.append(x.attr)
    for n in sorted(seen):
        f = p.find_method(cq, n)
        if f is None:
            continue
        for k in ip.summary(f.qual).items:
            if k.startswith("selfupd:") and k[8:] not in assigned:
                out[(cq, k[8:])] = f"{f.where}: {f.qual} changes self.{k[8:]} in place; the next call of {cq.split('.')[-1]}.{entry} starts from the changed value"
    return out


EXAMPLE = {"__init__.py": "", "ex.py": """
class A:
    def __init__(self, names):
        self.names = names
        self.units = None
        self.seen = []
    def process(self, cube):
        if self.units is None:
            self.units = cube.units
        self.seen.append(cube)
        self.names.sort()
        return self.units, self.seen
class B:
    def __init__(self):
        self.units = None
    def process(self, cube):
        self.units = cube.units
        return self.show()
    def show(self):
        return self.units
"""}


def run(v, pid):
    from vlib.interp import Interp
    from vlib.load import AnalysisBroken, Project
    ex = Project(sources={f"improver/{k}": s for k, s in EXAMPLE.items()})
    o, _ = analyse(ex)
    a = "improver.ex.A"
    if set(o) != {(a, "units"), (a, "seen"), (a, "names")} or not handed(ex, Interp(ex, set(ex.funcs) | set(ex.classes)), a):
        raise AnalysisBroken("reuse rule no longer decides its own example")
    o, stats = analyse(v.cur)
    for cq in v.cur.classes:
        for k, t in handed(v.cur, v.icur, cq).items():
            o.setdefault(k, t)
    out = []
    for (cq, at), text in sorted(o.items()):
        if (cq, at) in REUSE_OK or v.same_class(cq):
            continue
        where = text.split(": ")[0]
        out.append((f"reuse:{cq}:{at}", where, text.split(": ", 1)[1]))
    return out, stats
