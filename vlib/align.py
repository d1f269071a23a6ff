"""Give what was only renamed or moved its confirmed name back, before the comparison.

 - a private function or method that is gone, and a new one in the same place with (nearly)
   the same body: the new name is replaced by the confirmed one everywhere
 - a function or class found through its old dotted name in another module keeps the old name
 - positional parameters of private functions get the confirmed names"""
import ast
from collections import Counter

from .load import Project


def private(name):
    return name.startswith("_") and not name.startswith("__")


def tokens(f):
    c = Counter()
    body = f.node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        body = body[1:]
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name):
                c[x.id] += 1
            elif isinstance(x, ast.Attribute):
                c["." + x.attr] += 1
            elif isinstance(x, ast.Constant):
                c[repr(x.value)] += 1
            elif isinstance(x, (ast.stmt, ast.operator, ast.cmpop, ast.unaryop, ast.boolop)):
                c[type(x).__name__] += 1
    return c


def alike(a, b):
    n = sum((a & b).values())
    m = max(sum(a.values()), sum(b.values()))
    return n / m if m else 0.0


def all_names(p):
    out = set()
    for m in p.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute):
                out.add(x.attr)
            elif isinstance(x, ast.Name):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.arg):
                out.add(x.arg)
            elif isinstance(x, ast.alias):
                out.add(x.asname or x.name.split(".")[-1])
    return out


def pairs(gone, new):
    """[(ref func, cur func)]: each other's best match and nearly the same."""
    tg, tn = {f.qual: tokens(f) for f in gone}, {f.qual: tokens(f) for f in new}
    best = {}
    for f in gone:
        r = sorted(((alike(tg[f.qual], tn[g.qual]), g.qual, g) for g in new if len(g.all_params) == len(f.all_params)), reverse=True, key=lambda t: t[:2])
        if r and r[0][0] >= 0.75 and (len(r) == 1 or r[1][0] < r[0][0]):
            best[f.qual] = (f, r[0][2])
    used = Counter(g.qual for _, g in best.values())
    return [(f, g) for f, g in best.values() if used[g.qual] == 1]


def align(ref, cur):
    cur = names(ref, cur)
    moved(ref, cur)
    params(ref, cur)
    return cur


def names(ref, cur):
    groups = {}
    for side, p, o in ((0, ref, cur), (1, cur, ref)):
        for q, f in p.funcs.items():
            if q not in o.funcs and (f.cls or f.module) in (o.classes if f.cls else o.modules):
                groups.setdefault(f.cls or f.module, ([], []))[side].append(f)
    todo = []
    for k, (gone, new) in groups.items():
        # what is still found under its old name (a re-export, an inherited method) is not gone
        gone = [f for f in gone if not (f.cls and cur.find_method(f.cls, f.name)) and cur.canonical(f.qual) not in cur.funcs]
        new = [f for f in new if not f.name.startswith("__")]
        if gone and new:
            todo += pairs(gone, new)
    if not todo:
        return cur
    known = all_names(ref)
    meth, func = {}, {}
    for f, g in todo:
        if g.name in known:
            continue
        if f.cls:
            meth.setdefault(g.name, set()).add(f.name)
        else:
            func[g.name] = (g.module, f.name)
    meth = {a: min(b) for a, b in meth.items() if len(b) == 1}
    if not meth and not func:
        return cur
    for m in cur.modules.values():
        inside = {g: o for g, (mod, o) in func.items() if mod == m.name}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute):
                if x.attr in meth:
                    x.attr = meth[x.attr]
                elif x.attr in func:
                    x.attr = func[x.attr][1]
            elif isinstance(x, ast.FunctionDef):
                if x.name in meth:
                    x.name = meth[x.name]
                elif x.name in inside:
                    x.name = inside[x.name]
            elif isinstance(x, ast.Name) and x.id in inside:
                x.id = inside[x.id]
            elif isinstance(x, ast.ImportFrom):
                for a in x.names:
                    if a.name in func and x.module and func[a.name][0].endswith(x.module.split(".")[-1]):
                        new = func[a.name][1]
                        if a.asname is None:
                            a.asname = a.name
                        a.name = new
    return Project(cur.root, trees={m.path: m.tree for m in cur.modules.values()})


def moved(ref, cur):
    again = False
    for q, f in ref.funcs.items():
        if f.cls is None and q not in cur.funcs:
            r = cur.canonical(q)
            if r in cur.funcs and r not in ref.funcs:
                g = cur.funcs.pop(r)
                g.qual = q
                g.cmod = f.module
                cur.funcs[q] = g
    for q, c in ref.classes.items():
        if q not in cur.classes:
            r = cur.canonical(q)
            if r in cur.classes and r not in ref.classes:
                d = cur.classes.pop(r)
                d.qual = q
                cur.classes[q] = d
                again = True
                for m in d.methods.values():
                    cur.funcs.pop(m.qual, None)
                    m.qual, m.cls = f"{q}.{m.name}", q
                    m.cmod = c.module
                    cur.funcs[m.qual] = m
    if again:
        cur.link()


def params(ref, cur):
    kw = {}
    for q, f in ref.funcs.items():
        g = cur.funcs.get(q)
        if g is None or not private(f.name) or g.node.args.vararg or f.node.args.vararg or f.kind != g.kind:
            continue
        a = [x for x in f.node.args.posonlyargs + f.node.args.args]
        b = [x for x in g.node.args.posonlyargs + g.node.args.args]
        if len(a) != len(b):
            continue
        mp = {y.arg: x.arg for x, y in zip(a, b) if x.arg != y.arg}
        old = {x.arg for x in a}
        if not mp or any(y in old for y in mp):      # exchanged, not renamed
            continue
        local = {x.id for x in ast.walk(g.node) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(g.node) if isinstance(x, ast.arg)}
        if any(x in local for x in mp.values()):
            continue
        for x in ast.walk(g.node):
            if isinstance(x, ast.Name) and x.id in mp:
                x.id = mp[x.id]
            elif isinstance(x, ast.arg) and x.arg in mp:
                x.arg = mp[x.arg]
        kw.setdefault(f.name, {}).update(mp)
    if not kw:
        return
    for m in cur.modules.values():
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call) and c.keywords:
                n = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
                for k in c.keywords if n in kw else ():
                    if k.arg in kw[n]:
                        k.arg = kw[n][k.arg]
