"""Mutation rule (C02).

 option    a public entry changes in place a list or dictionary option it was given
 kept      a plugin changes in place an attribute that is the very list or
           dictionary its constructor was given
 constant  a module-level or class-level table is changed in place
 default   a mutable default value is changed in place, or kept in an attribute that
           some method changes in place"""
import ast

from vlib.interp import MUTATORS

from .common import selftest

LEAST = {"collection_options": 100, "constants": 125}
# confirmed by reading
OPTION_OK = {("improver.generate_ancillaries.generate_orographic_smoothing_coefficients.OrographicSmoothingCoefficients.create_coefficient_cube", "attributes"):
             "a step of process, which passes a copy of the attributes made for it",
             ("improver.categorical.utilities.update_tree_thresholds", "tree"):
             "documented to return the tree it was given; both callers pass a copy made for it"}
COLL = ("List", "Dict", "list", "dict", "Sequence", "Mapping", "Iterable")
NOT = ("Cube", "Coord", "ndarray", "Array", "Callable")
MUT = set(MUTATORS) | {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "update", "clear", "setdefault", "popitem", "add", "discard"}


def collection(ann):
    if ann is None:
        return False
    t = ast.unparse(ann)
    return any(w in t for w in COLL) and not any(w in t for w in NOT)


def public(f):
    return not f.name.startswith("_") or f.name in ("__init__", "__call__")


def options(p, ip):
    out, n = {}, 0
    for q, f in p.funcs.items():
        if not public(f):
            continue
        a = f.node.args
        cs = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if collection(x.annotation)}
        n += len(cs)
        if not cs:
            continue
        s = ip.summary(q)
        for k in s.items:
            if k.startswith("upd:") and k[4:] in cs:
                out[(q, k[4:])] = f
    return out, n


def kept(p, ip):
    out = {}
    for cq, c in p.classes.items():
        i = c.methods.get("__init__")
        if i is None or not i.all_params:
            continue
        me = i.all_params[0]
        a = i.node.args
        ann = {x.arg: x.annotation for x in a.args + a.kwonlyargs}
        direct = {}
        for st in ast.walk(i.node):
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Name) and collection(ann.get(st.value.id)):
                for t in st.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        direct[t.attr] = st.value.id
        for st in ast.walk(i.node):     # a name rebound (to a copy) is not the caller's object
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        direct = {k: x for k, x in direct.items() if x != t.id}
        for m in list(c.methods.values()):
            s = ip.summary(m.qual)
            for k in s.items:
                if k.startswith("selfupd:") and k[8:] in direct:
                    out[(cq, k[8:])] = (m, direct[k[8:]])
    return out


def root_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e


def chain(e):
    """Dotted text of a name/attribute chain, without subscripts at its end."""
    while isinstance(e, ast.Subscript):
        e = e.value
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return ".".join([e.id] + parts[::-1])
    return None


def mutable_literal(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "dict", "set", "defaultdict", "OrderedDict") or \
        isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("array", "CubeList", "fromkeys")


def changes(f):
    """(chain text, line) of every in-place change in f."""
    for x in ast.walk(f.node):
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(y, ast.Subscript):
                        c = chain(y)
                        if c:
                            yield c, x.lineno
                    elif isinstance(x, ast.AugAssign) and isinstance(y, (ast.Name, ast.Attribute)):
                        c = chain(y)
                        if c:
                            yield c, x.lineno
        elif isinstance(x, ast.Delete):
            for t in x.targets:
                if isinstance(t, ast.Subscript) and chain(t):
                    yield chain(t), x.lineno
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
            c = chain(x.func.value)
            if c:
                yield c, x.lineno


def constants(p):
    out, n = {}, 0
    table = {}
    for mn, m in p.modules.items():
        for name, e in m.consts.items():
            if mutable_literal(e):
                table[f"{mn}.{name}"] = m
    ctable = {}
    for cq, c in p.classes.items():
        for name, e in c.consts.items():
            if mutable_literal(e):
                ctable[(cq, name)] = c
    n = sum(len(m.consts) for m in p.modules.values()) + sum(len(c.consts) for c in p.classes.values())
    for q, f in p.funcs.items():
        m = p.modules[f.module]
        stores = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(f.all_params)
        glob = {g for x in ast.walk(f.node) if isinstance(x, ast.Global) for g in x.names}
        me = f.all_params[0] if f.cls and f.kind != "staticmethod" and f.all_params else None

        def target(text):
            """Constant a chain names, directly."""
            head = text.split(".")[0]
            if head in stores and head not in glob and head != me:
                return None
            if me and head == me:
                parts = text.split(".")
                if len(parts) == 2:
                    for k in p.mro(f.cls):
                        if (k.qual, parts[1]) in ctable and not any(
                                parts[1] in stored(p, b.qual) for b in p.mro(f.cls)):
                            return f"{k.qual}.{parts[1]}"
                return None
            try:
                t = p.resolve_expr(m, ast.parse(text, mode="eval").body)
            except SyntaxError:
                return None
            if t in table:
                return t
            if t and "." in t and (t.rsplit(".", 1)[0], t.rsplit(".", 1)[1]) in ctable:
                return t
            return None

        alias = {}
        count = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                count[x.id] = count.get(x.id, 0) + 1
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Name, ast.Attribute)) and chain(x.value):
                t = target(chain(x.value))
                if t:
                    for y in x.targets:
                        if isinstance(y, ast.Name) and count.get(y.id) == 1:
                            alias[y.id] = t
        for text, ln in changes(f):
            t = alias.get(text.split(".")[0]) if text.split(".")[0] in alias and "." not in text else target(text)
            if t:
                out[(q, t)] = (f, ln)
        # an attribute that is the constant itself, changed in place by a method
        if f.name == "__init__" and f.cls:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Name, ast.Attribute)) and chain(x.value):
                    t = target(chain(x.value))
                    if not t:
                        continue
                    for y in x.targets:
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == me:
                            for k in [f.cls] + [s.qual for s in p.subclasses(f.cls)]:
                                for mm in p.classes[k].methods.values():
                                    for text, ln in changes(mm):
                                        if text == f"{mm.all_params[0] if mm.all_params else ''}.{y.attr}":
                                            out[(mm.qual, t)] = (mm, ln)
    return out, n


def stored(p, cq):
    out = set()
    for m in p.classes[cq].methods.values():
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and m.all_params and x.value.id == m.all_params[0]:
                out.add(x.attr)
    return out


def defaults(p, ip):
    out = {}
    for q, f in p.funcs.items():
        a = f.node.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        names = [x.arg for x, d in pairs if mutable_literal(d)]
        if not names:
            continue
        s = ip.summary(q)
        for n in names:
            if f"upd:{n}" in s.items:
                out[(q, n)] = (f, "changed in place")
        if f.name == "__init__" and f.cls:
            me = f.all_params[0]
            for st in ast.walk(f.node):
                if isinstance(st, ast.Assign) and isinstance(st.value, ast.Name) and st.value.id in names:
                    for t in st.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                            for m in p.classes[f.cls].methods.values():
                                if f"selfupd:{t.attr}" in ip.summary(m.qual).items:
                                    out[(q, st.value.id)] = (f, f"kept in self.{t.attr}, which {m.name} changes in place")
    return out


EXAMPLE = {"__init__.py": "", "ex.py": '''
from typing import List, Dict
TABLE = ["a"]
class K:
    names = ["x"]
    def __init__(self, given: List[str], seen=[]):
        self.given = given
        self.seen = seen
    def process(self, extra: Dict[str, int]):
        self.given.append("x")
        self.seen.append(1)
        extra["b"] = 1
        TABLE.append("c")
        t = TABLE
        t.sort()
        self.names.append("q")
'''}


def run(v, pid):
    from vlib.interp import Interp
    from vlib.load import AnalysisBroken, Project
    ex = Project(sources={f"improver/{k}": s for k, s in EXAMPLE.items()})
    ie = Interp(ex, set(ex.funcs) | set(ex.classes))
    q = "improver.ex.K.process"
    if not ((q, "extra") in options(ex, ie)[0] and ("improver.ex.K", "given") in kept(ex, ie) and (q, "improver.ex.TABLE") in constants(ex)[0]
            and (q, "improver.ex.K.names") in constants(ex)[0] and defaults(ex, ie)):
        raise AnalysisBroken("mutation rule no longer fires on its own example")
    out = []
    o, n = options(v.cur, v.icur)
    for (q, x), f in sorted(o.items(), key=lambda t: t[0]):
        if (q, x) in OPTION_OK:
            continue
        out.append((f"option:{q}:{x}", f.where, f"{q} changes the caller's '{x}' in place"))
    for (cq, a), (m, x) in sorted(kept(v.cur, v.icur).items(), key=lambda t: t[0]):
        out.append((f"kept:{cq}:{a}", m.where, f"{m.qual} changes self.{a} in place, which is the object the caller passed as '{x}'"))
    c, nc = constants(v.cur)
    for (q, t), (f, ln) in sorted(c.items(), key=lambda t: t[0]):
        out.append((f"constant:{q}:{t}", f"{f.relpath}:{ln}", f"{q} changes the shared table {t} in place"))
    for (q, x), (f, how) in sorted(defaults(v.cur, v.icur).items(), key=lambda t: t[0]):
        out.append((f"default:{q}:{x}", f.where, f"default value of '{x}' of {q} is {how}"))
    return out, dict(collection_options=n, constants=nc)
