"""Behaviour-preserving edits, third set: single functions (KINDS) and whole modules (MODULE_KINDS)."""
import ast
import copy

from .refactor2 import blocks, ends, loads, name, stores


def _doc(fn):
    return 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str) else 0


def singleret(fn, rnd):
    """if c: return a (else) return b at the end -> if c: out = a else: out = b; return out"""
    b = fn.body
    if len(b) >= 2 and isinstance(b[-1], ast.Return) and b[-1].value is not None and isinstance(b[-2], ast.If) and not b[-2].orelse \
            and isinstance(b[-2].body[-1], ast.Return) and b[-2].body[-1].value is not None \
            and not any(isinstance(q, ast.Return) for s in b[-2].body[:-1] for q in ast.walk(s)):
        i = b[-2]
        i.body[-1] = ast.Assign([name("outcome", ast.Store())], i.body[-1].value)
        i.orelse = [ast.Assign([name("outcome", ast.Store())], b[-1].value)]
        b[-1] = ast.Return(name("outcome"))
        return True
    return False


def augassign(fn, rnd):
    """n += 1 <-> n = n + 1 for plain integers"""
    did = False
    for x, fld, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, int):
                b[i] = ast.Assign([st.target], ast.BinOp(name(st.target.id), st.op, st.value))
                did = True
    return did


def strcat(fn, rnd):
    """msg += '..' -> msg = msg + '..' for string constants / f-strings"""
    did = False
    for x, fld, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.op, ast.Add) and (
                    isinstance(st.value, ast.JoinedStr) or isinstance(st.value, ast.Constant) and isinstance(st.value.value, str)):
                b[i] = ast.Assign([st.target], ast.BinOp(name(st.target.id), st.op, st.value))
                did = True
    return did


def nonedefault(fn, rnd):
    """if x is None: x = v  ->  x = v if x is None else x"""
    did = False
    for x, fld, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Assign) and isinstance(st.test, ast.Compare) \
                    and isinstance(st.test.ops[0], ast.Is) and isinstance(st.test.left, ast.Name) and len(st.body[0].targets) == 1 \
                    and isinstance(st.body[0].targets[0], ast.Name) and st.body[0].targets[0].id == st.test.left.id:
                b[i] = ast.Assign(st.body[0].targets, ast.IfExp(st.test, st.body[0].value, name(st.test.left.id)))
                did = True
    return did


def unpack(fn, rnd):
    """a, b = f() -> pair = f(); a = pair[0]; b = pair[1] (results known to be tuples)"""
    did = 0
    for x, fld, b in list(blocks(fn)):
        out = []
        for st in b:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Call) \
                    and all(isinstance(t, ast.Name) for t in st.targets[0].elts) and isinstance(st.value.func, ast.Attribute) \
                    and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == "self":
                n = f"parts_{did}"
                out.append(ast.Assign([name(n, ast.Store())], st.value))
                for k, t in enumerate(st.targets[0].elts):
                    out.append(ast.Assign([t], ast.Subscript(name(n), ast.Constant(k), ast.Load())))
                did += 1
            else:
                out.append(st)
        setattr(x, fld, out)
    return bool(did)


def lenzero(fn, rnd):
    """len(x) == 0 -> not len(x); len(x) > 0 -> len(x) != 0"""
    did = False

    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            nonlocal did
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "len" \
                    and isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, int):
                k, o = n.comparators[0].value, type(n.ops[0])
                if k == 0 and o is ast.Eq:
                    did = True
                    return ast.UnaryOp(ast.Not(), n.left)
                if k == 0 and o in (ast.Gt, ast.NotEq):
                    did = True
                    return ast.Compare(n.left, [ast.GtE()], [ast.Constant(1)])
                if o is ast.Gt:
                    did = True
                    return ast.Compare(n.left, [ast.GtE()], [ast.Constant(k + 1)])
                if o is ast.GtE:
                    did = True
                    return ast.Compare(n.left, [ast.Gt()], [ast.Constant(k - 1)])
            return n
    T().visit(fn)
    return did


def keysiter(fn, rnd):
    """for k in d.items(): -> for k in d: v = d[k]"""
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr == "items" \
                and isinstance(x.iter.func.value, (ast.Name, ast.Attribute)) and isinstance(x.target, ast.Tuple) and all(isinstance(t, ast.Name) for t in x.target.elts) and len(x.target.elts) == 2:
            d = x.iter.func.value
            k, v = x.target.elts
            x.target, x.iter = k, d
            x.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), name(k.id), ast.Load())))
            did = True
    return did


def tryelse(fn, rnd):
    """try: x = f() except E: <leaves> ; rest  ->  try/except/else"""
    did = False
    for x, fld, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.Try) and not st.orelse and not st.finalbody and all(ends(h.body) for h in st.handlers) and i + 1 < len(b):
                st.orelse = b[i + 1:]
                setattr(x, fld, b[:i + 1])
                did = True
                break
    return did


def tryret(fn, rnd):
    """try: return f() except E: ... -> try: got = f() except E: ... else: return got"""
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Try) and not x.orelse and isinstance(x.body[-1], ast.Return) and x.body[-1].value is not None:
            x.orelse = [ast.Return(name("got"))]
            x.body[-1] = ast.Assign([name("got", ast.Store())], x.body[-1].value)
            did = True
    return did


def hoist(fn, rnd):
    """A constant assignment in a loop moves before the loop."""
    did = False
    for x, fld, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.For) and st.body and isinstance(st.body[0], ast.Assign) and len(st.body) > 1 and isinstance(st.body[0].targets[0], ast.Name):
                a = st.body[0]
                t = a.targets[0].id
                inner = {n for s in st.body for n in stores(s)} | set(stores(st.target))
                if not set(loads(a.value)) & inner and sum(stores(s).count(t) for s in st.body) == 1 and stores(fn).count(t) == 1 \
                        and not any(isinstance(q, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.Attribute, ast.Subscript)) for q in ast.walk(a.value)):
                    st.body.pop(0)
                    b.insert(i, a)
                    did = True
                    break
    return did


def floatlits(fn, rnd):
    """1000 -> 1e3, 0.5 -> 0.50, 100.0 -> 1e2: no visible change of value or type"""
    return False


def anyall(fn, rnd):
    """any(c for..) <-> not all(not c for ..)"""
    did = False

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal did
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
                g = n.args[0]
                did = True
                e = g.elt.operand if isinstance(g.elt, ast.UnaryOp) and isinstance(g.elt.op, ast.Not) else ast.UnaryOp(ast.Not(), g.elt)
                return ast.UnaryOp(ast.Not(), ast.Call(name("all" if n.func.id == "any" else "any"), [ast.GeneratorExp(e, g.generators)], []))
            return n
    T().visit(fn)
    return did


def listgen(fn, rnd):
    """any([..]) / sum([..]) / max([..]) -> generator"""
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("any", "all", "sum", "max", "min", "set", "tuple", "sorted") and len(x.args) == 1 and isinstance(x.args[0], ast.ListComp):
            x.args[0] = ast.GeneratorExp(x.args[0].elt, x.args[0].generators)
            did = True
    return did


def localdef(fn, rnd):
    """A loop body's single expression becomes an inner function? no: a conditional test becomes an inner function."""
    b = fn.body
    for i, st in enumerate(b):
        if isinstance(st, ast.If) and i >= _doc(fn) and not any(isinstance(q, (ast.NamedExpr, ast.Await, ast.Yield)) for q in ast.walk(st.test)) \
                and not (isinstance(st.test, ast.Call) and isinstance(st.test.func, ast.Name) and st.test.func.id == "super"):
            b[i:i + 1] = [ast.FunctionDef("_applies", ast.arguments([], [], None, [], [], None, []), [ast.Return(st.test)], [], lineno=1, type_params=[]),
                          ast.If(ast.Call(name("_applies"), [], []), st.body, st.orelse)]
            return True
    return False


def splat(fn, rnd):
    """f(a, k=v, l=w) -> kwargs = dict(k=v, l=w); f(a, **kwargs)"""
    did = 0
    for x, fld, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            st = b[i]
            if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) and isinstance(st.value, ast.Call) and len(st.value.keywords) >= 2 \
                    and all(k.arg for k in st.value.keywords) and not any(isinstance(a, ast.Starred) for a in st.value.args):
                n = f"settings_{did}"
                d = ast.Dict([ast.Constant(k.arg) for k in st.value.keywords], [k.value for k in st.value.keywords])
                st.value.keywords = [ast.keyword(None, name(n))]
                b.insert(i, ast.Assign([name(n, ast.Store())], d))
                did += 1
                i += 1
            i += 1
    return bool(did)


def notin(fn, rnd):
    did = False

    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            nonlocal did
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in (ast.NotIn, ast.IsNot, ast.NotEq):
                did = True
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [{ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}[type(n.ops[0])]()], n.comparators))
            return n
    T().visit(fn)
    return did


def whileloop(fn, rnd):
    """for i in range(n): B -> i = 0; while i < n: B; i += 1 (no continue in B)"""
    did = False
    for x, fld, b in list(blocks(fn)):
        out = []
        for st in b:
            if isinstance(st, ast.For) and not st.orelse and isinstance(st.target, ast.Name) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) \
                    and st.iter.func.id == "range" and len(st.iter.args) == 1 and not any(isinstance(q, (ast.Continue, ast.Break)) for q in ast.walk(st)) \
                    and isinstance(st.iter.args[0], (ast.Name, ast.Constant)) and st.target.id not in [n for s in st.body for n in stores(s)]:
                i = st.target.id
                out += [ast.Assign([name(i, ast.Store())], ast.Constant(0)),
                        ast.While(ast.Compare(name(i), [ast.Lt()], [st.iter.args[0]]), st.body + [ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                did = True
            else:
                out.append(st)
        setattr(x, fld, out)
    return did


def zipindex(fn, rnd):
    """for a, b in zip(x, y) -> for k in range(len(x)): a, b = x[k], y[k]  (lists, same length: only names)"""
    return False


def flatjoin(fn, rnd):
    """out = []; for..: out.append(e); return out -> return [e for ..]; and the reverse for return [..]"""
    did = False
    for x, fld, b in list(blocks(fn)):
        out = []
        for st in b:
            if isinstance(st, ast.Return) and isinstance(st.value, ast.ListComp) and len(st.value.generators) == 1:
                g = st.value.generators[0]
                body = [ast.Expr(ast.Call(ast.Attribute(name("found"), "append", ast.Load()), [st.value.elt], []))]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                out += [ast.Assign([name("found", ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), ast.Return(name("found"))]
                did = True
            else:
                out.append(st)
        setattr(x, fld, out)
    return did


def argtemps(fn, rnd):
    """Every attribute read of a parameter used as call argument becomes a local first."""
    did = 0
    for x, fld, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            st = b[i]
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.Call) and did < 4:
                for j, a in enumerate(st.value.args):
                    if isinstance(a, (ast.BinOp, ast.Subscript)) and not isinstance(a, ast.Starred) and all(
                            isinstance(q, (ast.Name, ast.Constant, ast.Attribute)) for q in st.value.args[:j]):
                        n = f"part_{did}"
                        st.value.args[j] = name(n)
                        b.insert(i, ast.Assign([name(n, ast.Store())], a))
                        did += 1
                        i += 1
                        break
            i += 1
    return bool(did)


def extractattr(fn, rnd):
    """x.data repeated in one statement -> local"""
    did = 0
    for x, fld, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            st = b[i]
            if isinstance(st, (ast.Assign, ast.Return)) and st.value is not None and did < 3 and not (isinstance(st, ast.Assign) and not all(isinstance(t, ast.Name) for t in st.targets)):
                at = [q for q in ast.walk(st.value) if isinstance(q, ast.Attribute) and q.attr in ("data", "points", "attributes", "units") and isinstance(q.value, ast.Name) and isinstance(q.ctx, ast.Load)]
                if at and not any(isinstance(q, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.IfExp, ast.BoolOp)) for q in ast.walk(st.value)):
                    n = f"values_{did}"
                    key = ast.dump(at[0])

                    class T(ast.NodeTransformer):
                        def visit_Attribute(self, q):
                            if ast.dump(q) == key:
                                return name(n)
                            self.generic_visit(q)
                            return q
                    src = copy.deepcopy(at[0])
                    st.value = T().visit(st.value)
                    b.insert(i, ast.Assign([name(n, ast.Store())], src))
                    did += 1
                    i += 1
            i += 1
    return bool(did)


def elifflat(fn, rnd):
    """if a: X elif b: Y else: Z -> if a: X / else: (if b: Y else: Z) printed as nested else"""
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If):
            x.orelse = [ast.Pass(), x.orelse[0]]
            did = True
    return did


def commute(fn, rnd):
    """a and b -> b and a for side-effect-free comparisons of names with constants"""
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.BoolOp) and all(isinstance(v, ast.Compare) and isinstance(v.left, (ast.Name, ast.Attribute)) and all(isinstance(c, (ast.Constant, ast.Name)) for c in v.comparators)
                                             and isinstance(v.ops[0], (ast.Is, ast.IsNot)) for v in x.values):
            x.values = x.values[::-1]
            did = True
    return did


def arith(fn, rnd):
    """x - (-1) style rewrites that keep the floating-point result: a > b -> b < a; a + b of names commuted; x * const commuted"""
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and isinstance(x.left, ast.Constant) != isinstance(x.right, ast.Constant) and not any(
                isinstance(q, ast.Constant) and isinstance(q.value, str) or isinstance(q, (ast.List, ast.Tuple)) for q in (x.left, x.right)):
            x.left, x.right = x.right, x.left
            did = True
    return did


KINDS = [singleret, augassign, strcat, nonedefault, unpack, lenzero, keysiter, tryelse, tryret, hoist, anyall, listgen, localdef, splat,
         notin, whileloop, flatjoin, argtemps, extractattr, elifflat, commute, arith]


# ---- whole modules: fn(sources) -> (new sources, edits)

def _parse(src):
    return {k: ast.parse(s) for k, s in src.items()}


def _emit(src, trees, changed):
    out = dict(src)
    for k in changed:
        out[k] = ast.unparse(ast.fix_missing_locations(trees[k]))
        compile(out[k], k, "exec")
    return out


def privmeth(src, rnd):
    """Private methods get another name, with every use."""
    t = _parse(src)
    names = {}
    for k, m in t.items():
        for c in ast.walk(m):
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name.startswith("_") and not f.name.startswith("__"):
                        names[f.name] = f"_run{f.name}"
    n = 0
    changed = set()
    taken = {x.name for m in t.values() for x in ast.walk(m) if isinstance(x, ast.FunctionDef)} | {x.attr for m in t.values() for x in ast.walk(m) if isinstance(x, ast.Attribute)}
    other = {y.name for m in t.values() for y in m.body if isinstance(y, ast.FunctionDef)}
    names = {a: b for a, b in names.items() if b not in taken and a not in other}
    for k, m in t.items():
        for x in ast.walk(m):
            if isinstance(x, ast.FunctionDef) and x.name in names:
                x.name = names[x.name]
                n += 1
                changed.add(k)
            elif isinstance(x, ast.Attribute) and x.attr in names:
                x.attr = names[x.attr]
                changed.add(k)
    return _emit(src, t, changed), n


def pubhelper(src, rnd):
    """Private module functions get another name, with every use in their module."""
    t = _parse(src)
    n, changed = 0, set()
    for k, m in t.items():
        names = {f.name: f"_impl{f.name}" for f in m.body if isinstance(f, ast.FunctionDef) and f.name.startswith("_") and not f.name.startswith("__")}
        if not names or any(isinstance(x, ast.alias) and x.name in names for q in t.values() for x in ast.walk(q)):
            continue
        for x in ast.walk(m):
            if isinstance(x, ast.FunctionDef) and x.name in names:
                x.name = names[x.name]
                n += 1
                changed.add(k)
            elif isinstance(x, ast.Name) and x.id in names:
                x.id = names[x.id]
    return _emit(src, t, changed), n


def importstyle(src, rnd):
    """from improver.a import f -> from improver import a; a.f   (module-level imports, functions used by call)"""
    t = _parse(src)
    n, changed = 0, set()
    for k, m in t.items():
        if k.startswith("improver/cli") or k.endswith("__init__.py"):
            continue
        out = []
        for st in m.body:
            if isinstance(st, ast.ImportFrom) and st.module and st.module.startswith("improver.") and not st.level and all(a.asname is None for a in st.names):
                used = {a.name for a in st.names}
                if any(isinstance(x, (ast.arg,)) and x.arg in used or isinstance(x, ast.Name) and x.id in used and not isinstance(x.ctx, ast.Load) for x in ast.walk(m)):
                    out.append(st)
                    continue
                pk, md = st.module.rsplit(".", 1)
                al = "_" + st.module.replace(".", "_") + "_mod"
                if f"{st.module.replace('.', '/')}.py" not in src:
                    out.append(st)
                    continue

                class T(ast.NodeTransformer):
                    def visit_Name(self, q):
                        return ast.Attribute(name(al), q.id, ast.Load()) if q.id in used and isinstance(q.ctx, ast.Load) else q
                out.append(ast.ImportFrom(pk, [ast.alias(md, al)], 0))
                m.body = [T().visit(s) if s is not st else s for s in m.body]
                n += 1
                changed.add(k)
                # names replaced in place: rebuild `out` objects are the same nodes
            else:
                out.append(st)
        m.body = out
    return _emit(src, t, changed), n


def npalias(src, rnd):
    """import numpy as np -> import numpy"""
    t = _parse(src)
    n, changed = 0, set()
    for k, m in t.items():
        hit = [st for st in m.body if isinstance(st, ast.Import) and any(a.name == "numpy" and a.asname == "np" for a in st.names)]
        if not hit:
            continue
        for st in hit:
            for a in st.names:
                if a.name == "numpy":
                    a.asname = None
        for x in ast.walk(m):
            if isinstance(x, ast.Name) and x.id == "np":
                x.id = "numpy"
        n += 1
        changed.add(k)
    return _emit(src, t, changed), n


def tostatic(src, rnd):
    """Methods that do not use self become static methods; called as before."""
    t = _parse(src)
    n, changed = 0, set()
    for k, m in t.items():
        for c in ast.walk(m):
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name.startswith("_") and not f.name.startswith("__") and not f.decorator_list and f.args.args and f.args.args[0].arg == "self" \
                            and "self" not in [q.id for q in ast.walk(f) if isinstance(q, ast.Name)] and not any(isinstance(q, ast.Name) and q.id == "super" for q in ast.walk(f)):
                        f.args.args.pop(0)
                        f.decorator_list.append(name("staticmethod"))
                        n += 1
                        changed.add(k)
    return _emit(src, t, changed), n


def tomodule(src, rnd):
    """Static methods become module functions; the method stays as a thin call."""
    t = _parse(src)
    n, changed = 0, set()
    for k, m in t.items():
        add = []
        for c in m.body:
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list) and len(f.decorator_list) == 1 \
                            and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs and not any(isinstance(q, ast.Name) and q.id == c.name for q in ast.walk(f)):
                        g = copy.deepcopy(f)
                        g.decorator_list = []
                        g.name = f"_{c.name.lower()}_{f.name.strip('_')}"
                        add.append(g)
                        d = _doc(f)
                        f.body = f.body[:d] + [ast.Return(ast.Call(name(g.name), [name(a.arg) for a in f.args.args], []))]
                        n += 1
                        changed.add(k)
        if add:
            i = next(i for i, s in enumerate(m.body) if isinstance(s, ast.ClassDef))
            m.body[i:i] = add
    return _emit(src, t, changed), n


def movehelper(src, rnd):
    """Module functions move to a new module next door and are imported back."""
    t = _parse(src)
    n, changed = 0, set()
    new = {}
    for k, m in list(t.items()):
        if k.startswith("improver/cli") or k.endswith("__init__.py"):
            continue
        tops = {s.name for s in m.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))} | {q.id for s in m.body if isinstance(s, (ast.Assign, ast.AnnAssign, ast.If, ast.Try)) for q in ast.walk(s) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
        move = [f for f in m.body if isinstance(f, ast.FunctionDef) and not f.decorator_list and not {q.id for q in ast.walk(f) if isinstance(q, ast.Name)} & tops and not any(isinstance(q, ast.Global) for q in ast.walk(f))]
        # defaults and annotations use imports only
        if not move:
            continue
        f = rnd.choice(move)
        imports = [copy.deepcopy(s) for s in m.body if isinstance(s, (ast.Import, ast.ImportFrom))]
        nk = k[:-3] + "_moved.py"
        new[nk] = ast.unparse(ast.fix_missing_locations(ast.Module(imports + [f], [])))
        i = max(i for i, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom))) if imports else 0
        m.body = [s for s in m.body if s is not f]
        m.body.insert(i + 1 if imports else 0, ast.ImportFrom(nk[:-3].replace("/", "."), [ast.alias(f.name)], 0))
        n += 1
        changed.add(k)
    out = _emit(src, t, changed)
    out.update(new)
    return out, n


def paramnames(src, rnd):
    """Parameters of private functions/methods get another name (positional call sites untouched, keyword ones updated)."""
    t = _parse(src)
    n, changed = 0, set()
    defs = {}
    for k, m in t.items():
        for f in ast.walk(m):
            if isinstance(f, ast.FunctionDef) and f.name.startswith("_") and not f.name.startswith("__"):
                defs.setdefault(f.name, []).append((k, f))
    kw = {}
    for m in t.values():
        for c in ast.walk(m):
            if isinstance(c, ast.Call):
                nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
                kw.setdefault(nm, set()).update(q.arg for q in c.keywords)
    for nm, fs in defs.items():
        for k, f in fs:
            for a in f.args.args:
                if a.arg in ("self", "cls") or a.arg in kw.get(nm, ()) or None in kw.get(nm, ()) or a.arg in {q.arg for z in ast.walk(f) if isinstance(z, (ast.FunctionDef, ast.Lambda)) and z is not f for q in z.args.args}:
                    continue
                old, newn = a.arg, a.arg + "_in"
                a.arg = newn
                for s in f.body:
                    for q in ast.walk(s):
                        if isinstance(q, ast.Name) and q.id == old:
                            q.id = newn
                n += 1
                changed.add(k)
    return _emit(src, t, changed), n


def inlinepriv(src, rnd):
    """One-line private functions/static methods (return expr) are written out at their call sites."""
    t = _parse(src)
    n, changed = 0, set()
    for k, m in t.items():
        small = {}
        for c in [m] + [c for c in m.body if isinstance(c, ast.ClassDef)]:
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name.startswith("_") and not f.name.startswith("__"):
                    d = _doc(f)
                    st = any(isinstance(q, ast.Name) and q.id == "staticmethod" for q in f.decorator_list)
                    if len(f.body) == d + 1 and isinstance(f.body[d], ast.Return) and f.body[d].value is not None and (st or not f.decorator_list) and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs and not f.args.defaults:
                        ps = [a.arg for a in f.args.args]
                        meth = c is not m and not st
                        if all(sum(isinstance(q, ast.Name) and q.id == p for q in ast.walk(f.body[d])) == 1 for p in ps[1 if meth else 0:]) and not any(isinstance(q, (ast.ListComp, ast.Lambda, ast.GeneratorExp, ast.DictComp)) for q in ast.walk(f.body[d])):
                            small[f.name] = (f, ps, meth, c is not m)

        class T(ast.NodeTransformer):
            def visit_Call(self, q):
                nonlocal n
                self.generic_visit(q)
                fn = q.func
                nm = fn.attr if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == "self" else fn.id if isinstance(fn, ast.Name) else None
                if nm in small and not q.keywords and isinstance(fn, ast.Attribute) == small[nm][3]:
                    f, ps, meth, _ = small[nm]
                    ps = ps[1:] if meth else ps
                    if len(ps) == len(q.args) and not any(isinstance(a, ast.Starred) for a in q.args):
                        sub = dict(zip(ps, q.args))

                        class S(ast.NodeTransformer):
                            def visit_Name(self, z):
                                return copy.deepcopy(sub[z.id]) if z.id in sub else z
                        n += 1
                        changed.add(k)
                        return S().visit(copy.deepcopy(f.body[_doc(f)].value))
                return q
        T().visit(m)
    return _emit(src, t, changed), n


def comments(src, rnd):
    return {k: s + "\n# maintained by the team\n" for k, s in src.items()}, len(src)


def reorder(src, rnd):
    """Methods of each class and functions of each module in another order (docstrings, constants and decorators keep their place)."""
    t = _parse(src)
    n, changed = 0, set()
    for k, m in t.items():
        for c in ast.walk(m):
            if isinstance(c, ast.ClassDef):
                at = [i for i, f in enumerate(c.body) if isinstance(f, ast.FunctionDef) and not any(isinstance(d, ast.Attribute) for d in f.decorator_list)]
                fs = [c.body[i] for i in at]
                if len(fs) > 1 and len({f.name for f in fs}) == len(fs):
                    rnd.shuffle(fs)
                    for i, f in zip(at, fs):
                        c.body[i] = f
                    n += 1
                    changed.add(k)
    return _emit(src, t, changed), n


MODULE_KINDS = [privmeth, pubhelper, importstyle, npalias, tostatic, tomodule, movehelper, paramnames, inlinepriv, comments, reorder]
