"""Options rule (C37): every accepted option reaches a read; zero is a number; no
result of a side-effect-free step is thrown away.

 unused      a parameter of a public function, constructor or command that nothing reads
 unread      a constructor parameter whose only use is an attribute nothing reads
 overwritten a parameter (or configured attribute) replaced before it is read
 truth       a numeric option tested for truth, so that zero counts as absent
 contrary    a search for the lowest that goes upwards and keeps the last match
 discarded   a call of an effect-free function of the package whose result is dropped"""
import ast
from collections import Counter

from .common import callee, selftest

# confirmed by reading: (function, parameter): reason
UNUSED_OK = {
    ("improver.metadata.forecast_times._create_frt_type_coord", "cube"): "kept in the signature; the coordinate depends on the point alone",
    ("improver.regrid.bilinear.lakes_islands", "in_lons_size"): "kept for symmetry with in_latlons indexing",
}
# numeric options for which a truth test is right: zero means "not requested" or is refused with the same error
TRUTH_OK = {
    ("calibration.ensemble_calibration", "realizations_count"): "zero realizations are refused like none",
    ("categorical.decision_tree", "target_period"): "a period of zero seconds is no period",
    ("categorical.utilities", "target_period"): "a period of zero seconds is no period",
    ("cli.blend_with_vicinity_and_rename", "vicinity_radius"): "a radius of zero is no vicinity",
    ("utilities.spatial", "vicinity_radius"): "a radius of zero is no vicinity",
    ("ensemble_copula_coupling.ensemble_copula_coupling", "no_of_percentiles"): "zero percentiles means none requested",
}
LEAST = {"parameters": 2200, "attributes": 350, "numeric_options": 120}


def loads(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def abstract(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not [s for s in body if not isinstance(s, (ast.Pass, ast.Raise))]


def numeric(ann):
    if ann is None:
        return False
    t = ast.unparse(ann)
    if any(w in t for w in ("List", "Dict", "Tuple", "Cube", "Sequence", "ndarray", "Iterable", "Callable", "list", "dict", "Array")):
        return False
    return any(w in t.replace("[", " ").replace("]", " ").replace(",", " ").split() for w in ("float", "int"))


def leaves(t):
    """Sub-expressions whose truth value a test takes."""
    if isinstance(t, ast.BoolOp):
        for v in t.values:
            yield from leaves(v)
    elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        yield from leaves(t.operand)
    elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("bool", "any", "all") and len(t.args) == 1:
        a = t.args[0]
        for x in (a.elts if isinstance(a, (ast.List, ast.Tuple, ast.Set)) else [a] if t.func.id == "bool" else []):
            yield from leaves(x)
    else:
        yield t


def truth_tests(p, f):
    """Names of numeric options tested for truth in f, with lines."""
    a = f.node.args
    num = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if numeric(x.annotation)}
    attrs = set()
    me = None
    if f.cls and f.kind != "staticmethod" and f.all_params:
        me = f.all_params[0]
        i = p.find_method(f.cls, "__init__")
        if i is not None:
            attrs = {x.arg for x in i.node.args.args + i.node.args.kwonlyargs if numeric(x.annotation)}
    tests = []
    for x in ast.walk(f.node):
        if isinstance(x, (ast.If, ast.IfExp, ast.While, ast.Assert)):
            tests.append(x.test)
        elif isinstance(x, ast.BoolOp):
            tests.append(x)
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            tests.append(x)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("bool", "any", "all"):
            tests.append(x)
        elif isinstance(x, ast.comprehension):
            tests += x.ifs
    out = {}
    for t in tests:
        for l in leaves(t):
            if isinstance(l, ast.Name) and l.id in num:
                out[(l.id, l.lineno, l.col_offset)] = l.id
            elif me and isinstance(l, ast.Attribute) and isinstance(l.value, ast.Name) and l.value.id == me and l.attr in attrs:
                out[(l.attr, l.lineno, l.col_offset)] = l.attr
    return out


def truths(p):
    c, where = Counter(), {}
    n = 0
    for q, f in p.funcs.items():
        n += sum(numeric(x.annotation) for x in f.node.args.args + f.node.args.kwonlyargs)
        for (name, ln, _), _n in truth_tests(p, f).items():
            k = (f.cmod[len("improver."):], name)
            c[k] += 1
            where.setdefault(k, []).append((q, f"{f.relpath}:{ln}"))
    return c, where, n


def unused(p):
    out, n = {}, 0
    for q, f in p.funcs.items():
        if abstract(f) or f.name in ("__new__", "__exit__", "__getattr__", "__repr__"):
            continue
        names = loads(f.node)
        ps = f.all_params
        if f.kind in ("method", "classmethod", "property"):
            ps = ps[1:]
        n += len(ps)
        if "locals" in names:
            continue
        for x in ps:
            if x not in names:
                out[(q, x)] = f
    return out, n


def unread(p):
    """Constructor parameters that end in an attribute nothing reads."""
    read = set()
    for f in p.funcs.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                read.add(x.attr)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                read.add(x.value)      # getattr(self, "name")
    out, n = {}, 0
    for cq, c in p.classes.items():
        i = c.methods.get("__init__")
        if i is None or not i.all_params:
            continue
        me = i.all_params[0]
        for st in ast.walk(i.node):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) \
                    and isinstance(st.targets[0].value, ast.Name) and st.targets[0].value.id == me:
                n += 1
                a = st.targets[0].attr
                ps = loads(st.value) & set(i.all_params[1:])
                if not ps or a in read:
                    continue
                for x in ps:
                    uses = [y for y in ast.walk(i.node) if isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Load)]
                    mine = [y for y in ast.walk(st.value) if isinstance(y, ast.Name) and y.id == x]
                    if len(uses) == len(mine):
                        out[(cq, x)] = (i, a)
    return out, n


def overwritten(p):
    """Parameters replaced, on every path, before anything reads them."""
    out = {}
    for q, f in p.funcs.items():
        ps = set(f.all_params[1:] if f.kind in ("method", "classmethod", "property") else f.all_params)
        seen = set()
        for st in f.node.body:
            if isinstance(st, ast.Assign):
                used = loads(st.value)
                for t in st.targets:
                    used |= loads(t)
                seen |= used
                for t in st.targets:
                    for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(y, ast.Name) and y.id in ps and y.id not in seen:
                            out[(q, y.id)] = (f, st.lineno)
                        if isinstance(y, ast.Name):
                            seen.add(y.id)
            else:
                seen |= loads(st)
                for x in ast.walk(st):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        seen.add(x.id)
        # configured attributes: two unconditional stores in the constructor, nothing read between
        if f.name == "__init__" and f.all_params:
            me = f.all_params[0]
            last = {}
            for st in f.node.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) \
                        and isinstance(st.targets[0].value, ast.Name) and st.targets[0].value.id == me:
                    rd = {x.attr for x in ast.walk(st.value) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me}
                    if any(isinstance(x, ast.Call) for x in ast.walk(st.value)) and me in loads(st.value):
                        last = {}
                    for a in rd:
                        last.pop(a, None)
                    a = st.targets[0].attr
                    if a in last and last[a]:
                        out[(q, "self." + a)] = (f, st.lineno)
                    last[a] = bool(loads(st.value) & ps)
                elif me in loads(st):
                    last = {}
    return out


def discarded(p, ip):
    """Expression statements calling an effect-free function of the package."""
    from vlib.nodes import NONE
    out, n = {}, 0
    for q, f in p.funcs.items():
        m = p.modules[f.module]
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)):
                continue
            n += 1
            c = x.value
            t = None
            fresh = True
            if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and f.cls and f.all_params and \
                    c.func.value.id == f.all_params[0] and p.find_method(f.cls, c.func.attr) is None:
                k = attr_class(p, f.cls, c.func.attr)      # self.plugin(...)
                if k:
                    t = p.find_method(k, "process")
                    t = t.qual if t else None
            elif isinstance(c.func, ast.Call):          # Plugin(...)(...)
                k = callee(p, m, f, c.func)
                if k in p.classes:
                    t = p.find_method(k, "process") or p.find_method(k, "__call__")
                    t = t.qual if t else None
            elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                # local plugin object: name = Plugin(...)
                k = local_class(p, m, f, c.func.value.id)
                if k and c.func.attr == "process":
                    t = p.find_method(k, "process")
                    t = t.qual if t else None
                else:
                    t = callee(p, m, f, c)
            elif isinstance(c.func, ast.Name) and local_class(p, m, f, c.func.id):
                t = p.find_method(local_class(p, m, f, c.func.id), "process")
                t = t.qual if t else None
            else:
                t = callee(p, m, f, c)
                fresh = False
            if t not in p.funcs:
                continue
            s = ip.summary(t)
            if s.opaque or s.items["ret"] is NONE or s.items["ret"].opq:
                continue
            keys = [k for k, node in s.items.items() if not (k.startswith("upd:") and slices_only(node))]
            if p.funcs[t].name == "process" and fresh and not any(k.startswith(("upd:", "selfupd:")) for k in keys) or \
                    not any(k.startswith(("upd:", "selfupd:", "self:", "raise:")) or k == "eff" for k in keys):
                out[(q, t)] = (f, x.lineno)
    return out, n


def slices_only(node):
    """In-place work on slices of the argument (slices hold their own data)."""
    for u in node.args:
        x = u.args[0]
        if not (x.op == "under" and "slices" in str(x.args[0])):
            from vlib.nodes import show
            if not show(x, 4).startswith(".slices"):
                return False
    return True


def attr_class(p, cq, attr):
    i = p.find_method(cq, "__init__")
    if i is None:
        return None
    for x in ast.walk(i.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr == attr \
                and isinstance(x.value, ast.Call):
            k = callee(p, p.modules[i.module], i, x.value)
            return k if k in p.classes else None
    return None


def local_class(p, m, f, name):
    ks = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name:
            ks.add(callee(p, m, f, x.value) if isinstance(x.value, ast.Call) else None)
    if len(ks) == 1:
        (k,) = ks
        return k if k in p.classes else None
    return None


def reached(items):
    """Parameters and configured attributes that some result item depends on."""
    out, seen = set(), set()
    todo = list(items.values())
    while todo:
        n = todo.pop()
        if n.dig in seen:
            continue
        seen.add(n.dig)
        if n.op in ("param", "selfattr"):
            out.add((n.op, n.args[0]))
        todo += [a for a in n.args if hasattr(a, "dig")]
    return out


def lost(v):
    """Options a changed function's results depended on and no longer do."""
    out = {}
    for q in sorted(v.both):
        if not v.raw(q).evidence:
            continue
        al, _, _ = v.verdict(q)
        if not al:
            continue
        a, b = v.iref.summary(q), v.icur.summary(q)
        if b.opaque or any(n.opq for n in b.items.values()):
            continue
        f = v.cur.funcs[q]
        for op, x in sorted(reached(a.items) - reached(b.items)):
            if op == "param" and x in f.all_params or op == "selfattr" and f.cls and configured(v.cur, f.cls, x):
                out[(q, x)] = f
    return out


def configured(p, cq, attr):
    i = p.find_method(cq, "__init__")
    return i is not None and any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) for x in ast.walk(i.node))


def contrary(p):
    """Searches for the lowest that go upwards and let every later match replace the earlier one."""
    out = {}
    for q, f in p.funcs.items():
        wants = [x for x in f.all_params if x.endswith("lowest")]
        if not wants:
            continue
        rising = {}
        for s in ast.walk(f.node):
            if isinstance(s, ast.If) and isinstance(s.test, ast.Name) and s.test.id in wants and len(s.body) == len(s.orelse) == 1 \
                    and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], ast.Name):
                down = s.orelse[0].value
                if isinstance(down, ast.Call) and isinstance(down.func, ast.Name) and down.func.id == "reversed" \
                        and ast.dump(down.args[0]) == ast.dump(s.body[0].value):
                    rising[s.body[0].targets[0].id] = s.test.id
        for s in ast.walk(f.node):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and s.iter.id in rising and len(s.body) == 1 \
                    and isinstance(s.body[0], ast.Assign) and isinstance(s.body[0].value, ast.Call):
                a, c = s.body[0], s.body[0].value
                if isinstance(c.func, ast.Attribute) and c.func.attr == "where" and len(c.args) == 3 \
                        and ast.unparse(c.args[2]) == ast.unparse(a.targets[0]):
                    out[(q, rising[s.iter.id])] = (f, s.lineno)
    return out


EXAMPLE = {"__init__.py": "", "ex.py": '''
def step(a):
    return a + 1
class Plugin:
    def __init__(self, limit: float = None, unused_opt=1, size: int = 3):
        self.limit = limit
        self.kept = size
    def process(self, cube, ignored):
        cube = 1
        step(cube)
        if self.limit:
            return cube
        return None
def search(xs, wanted, find_lowest=True):
    found = None
    if find_lowest:
        order = range(len(xs))
    else:
        order = reversed(range(len(xs)))
    for i in order:
        found = np.where(xs[i] == wanted, i, found)
    return found
'''}


def run(v, pid):
    from vlib.interp import Interp
    from vlib.load import Project
    ex = Project(sources={f"improver/{k}": s for k, s in EXAMPLE.items()})
    q = "improver.ex.Plugin.process"
    ok = ((q, "ignored") in unused(ex)[0] and (q, "cube") in overwritten(ex) and ("ex", "limit") in truths(ex)[0]
          and (q, "improver.ex.step") in discarded(ex, Interp(ex, set(ex.funcs) | set(ex.classes)))[0])
    ok = ok and ("improver.ex.search", "find_lowest") in contrary(ex)
    ok = ok and ("improver.ex.Plugin", "size") in unread(ex)[0]
    if not ok:
        from vlib.load import AnalysisBroken
        raise AnalysisBroken("options rule no longer fires on its own example")
    cur, ref = v.cur, v.ref
    out = []
    u, n = unused(cur)
    ur, _ = unused(ref)
    for (q, x), f in sorted(u.items(), key=lambda t: t[0]):
        if (q, x) in UNUSED_OK or (q, x) in ur and q not in UNUSED_OK and False:
            continue
        private = f.name.startswith("_") and not f.name.startswith("__")
        if private and q not in ref.funcs or v.same(q) and (q, x) not in ur:
            continue
        out.append((f"unused:{q}:{x}", f.where, f"unused: {q} accepts '{x}' but nothing reads it, so it has no effect"))
    a, na = unread(cur)
    for (cq, x), (f, at) in sorted(a.items(), key=lambda t: t[0]):
        out.append((f"unread:{cq}:{x}", f.where, f"unread: option '{x}' of {cq} is only stored in self.{at}, which nothing reads"))
    ov, ovr = overwritten(cur), overwritten(ref)
    for (q, x), (f, ln) in sorted(ov.items(), key=lambda t: t[0]):
        if (q, x) in ovr or v.same(q):
            continue
        out.append((f"overwritten:{q}:{x}", f"{f.relpath}:{ln}", f"overwritten: '{x}' of {q} is replaced before anything reads it"))
    c, where, nn = truths(cur)
    rc, _, _ = truths(ref)
    for k in sorted(c):
        if c[k] > (rc[k] if k in TRUTH_OK else 0):
            new = [w for w in where[k] if not v.same(w[0])]
            if not new:
                continue
            q, at = new[-1]
            out.append((f"truth:{k[0]}:{k[1]}", at, f"truth: numeric option '{k[1]}' is tested for truth in {q}, so that zero counts as absent"))
    for (q, x), f in lost(v).items():
        if not (f.name.startswith("_") and q not in ref.funcs):
            out.append((f"lost:{q}:{x}", f.where, f"lost: no result of {q} depends on '{x}' any more"))
    for (q, x), (f, ln) in sorted(contrary(cur).items(), key=lambda z: z[0]):
        if q not in ref.funcs and f.name.startswith("_"):
            continue
        out.append((f"contrary:{q}:{x}", f"{f.relpath}:{ln}", f"contrary: with '{x}' {q} goes upwards and lets each later match replace the earlier, so it finds the highest"))
    d, nd = discarded(cur, v.icur)
    dr = discarded(ref, v.iref)[0]
    for (q, t), (f, ln) in sorted(d.items(), key=lambda z: z[0]):
        if t not in ref.funcs or v.same(q) and (q, t) not in dr:
            continue
        out.append((f"discarded:{q}:{t}", f"{f.relpath}:{ln}", f"discarded: {q} calls {t} and drops its result, which is the call's only effect"))
    return out, dict(parameters=n, attributes=na, numeric_options=nn, truth_tests=sum(c.values()), call_statements=nd)
