"""Save rule (C03).

 writer   only the save function writes data files
 check    every data set is checked against the mandatory standards before the write,
          on every path to it
 atomic   the write goes to a name derived from, and different from, the requested
          one; a rename of just that name to the requested one follows, when and only
          when the write has completed; nothing can refuse the request after that
The save function's steps are followed through the helpers it calls."""
import ast
import copy

from vlib.load import AnalysisBroken

from .common import callee, local_imports, resolve

LEAST = {"calls": 5000, "writes": 1, "renames": 1, "checks": 1}
SAVE = "improver.utilities.save.save_netcdf"
WRITERS = {"iris.save", "iris.fileformats.netcdf.save", "iris.fileformats.netcdf.Saver", "iris.fileformats.save", "netCDF4.Dataset", "scipy.io.netcdf_file",
           "xarray.Dataset.to_netcdf", "numpy.save", "numpy.savez", "iris.io.save"}
CHECK = "improver.metadata.check_datatypes.check_mandatory_standards"
RENAMES = {"os.rename", "os.replace", "shutil.move", "os.renames"}
REMOVES = {"os.remove", "os.unlink", "shutil.rmtree", "shutil.copy", "shutil.copyfile", "shutil.copy2", "os.link", "os.symlink"}


def external(p, m, f, call):
    """Dotted name of an external callee, resolving imports inside the function."""
    return resolve(p, m, call.func, local_imports(p, f))


def mode_writes(call):
    ms = [k.value for k in call.keywords if k.arg == "mode"] or call.args[1:2]
    return any(not (isinstance(x, ast.Constant) and x.value in ("r", "rb")) for x in ms)


def writers(p):
    out, n = [], 0
    for q, f in p.funcs.items():
        m = p.modules[f.module]
        loc = None
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                n += 1
                if isinstance(x.func, (ast.Attribute, ast.Name)):
                    tail = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id
                    if tail not in ("save", "Saver", "Dataset", "netcdf_file", "to_netcdf", "savez"):
                        continue
                    loc = local_imports(p, f) if loc is None else loc
                    r = resolve(p, m, x.func, loc)
                    if r in WRITERS and (r != "netCDF4.Dataset" or mode_writes(x)):
                        out.append((q, r, f"{f.relpath}:{x.lineno}"))
    return out, n


class Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return copy.deepcopy(self.env[n.id])
        return n


def strip(e):
    while isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and isinstance(e.func, (ast.Name, ast.Attribute)) and \
            (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in ("str", "Path", "fspath", "PurePath"):
        e = e.args[0]
    return e


def text(e):
    return ast.unparse(strip(e))


class Trace:
    """Events of the save function in execution order.
    An event: (kind, data, where, context) with context the enclosing conditions."""

    def __init__(self, p, f):
        self.p = p
        self.events = []
        self.depth = 0
        env = {}
        self.run(f, env, ())

    def run(self, f, env, ctx):
        self.depth += 1
        if self.depth < 8:
            self.block(f, f.node.body, dict(env), ctx)
        self.depth -= 1

    def block(self, f, body, env, ctx):
        for st in body:
            self.stmt(f, st, env, ctx)
            if isinstance(st, ast.If) and ends(st.body) and not st.orelse and not raises(st.body):
                ctx = ctx + (("if", st.lineno),)

    def val(self, e, env):
        return ast.fix_missing_locations(Subst(env).visit(copy.deepcopy(e)))

    def stmt(self, f, st, env, ctx):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(st, ast.Assign):
            self.expr(f, st.value, env, ctx)
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = self.val(st.value, env)
                    if len(ast.dump(env[t.id])) > 4000:
                        env.pop(t.id)
        elif isinstance(st, ast.If):
            self.expr(f, st.test, env, ctx)
            a, b = dict(env), dict(env)
            self.block(f, st.body, a, ctx + (("if", st.lineno),))
            self.block(f, st.orelse, b, ctx + (("if", st.lineno),))
            for k in set(a) | set(b):
                if k in a and k in b and ast.dump(a[k]) == ast.dump(b[k]):
                    env[k] = a[k]
                else:
                    env.pop(k, None)
        elif isinstance(st, (ast.For, ast.While)):
            it = self.val(st.iter, env) if isinstance(st, ast.For) else None
            self.expr(f, st.iter if it is not None else st.test, env, ctx)
            e2 = dict(env)
            if it is not None:
                for n in ast.walk(st.target):
                    if isinstance(n, ast.Name):
                        e2[n.id] = ast.Name(id=f"each[{ast.unparse(it)}]", ctx=ast.Load())
            self.block(f, st.body, e2, ctx + (("for", st.lineno),))
            self.block(f, st.orelse, e2, ctx)
        elif isinstance(st, ast.Try):
            self.block(f, st.body, env, ctx + (("try", st.lineno, bool(st.handlers) and not all(raises(h.body) for h in st.handlers)),))
            for h in st.handlers:
                self.block(f, h.body, dict(env), ctx + (("except", st.lineno),))
            self.block(f, st.orelse, env, ctx)
            self.block(f, st.finalbody, env, ctx + (("finally", st.lineno),))
        elif isinstance(st, ast.With):
            for i in st.items:
                self.expr(f, i.context_expr, env, ctx)
                if isinstance(i.optional_vars, ast.Name):
                    env[i.optional_vars.id] = self.val(i.context_expr, env)
            self.block(f, st.body, env, ctx + (("with", st.lineno),))
        elif isinstance(st, ast.Raise):
            self.events.append(("raise", None, f"{f.relpath}:{st.lineno}", ctx))
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.expr(f, st.value, env, ctx)
        else:
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.expr(f, x, env, ctx)

    def expr(self, f, e, env, ctx):
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            g = e.generators[0]
            it = self.val(g.iter, env)
            e2 = dict(env)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    e2[n.id] = ast.Name(id=f"each[{ast.unparse(it)}]", ctx=ast.Load())
            self.expr(f, e.elt, e2, ctx + (("for", e.lineno),) + ((("if", e.lineno),) if g.ifs else ()))
            return
        if isinstance(e, ast.Call):
            for a in list(e.args) + [k.value for k in e.keywords]:
                self.expr(f, a, env, ctx)
            self.call(f, e, env, ctx)
            return
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(f, x, env, ctx)

    def call(self, f, c, env, ctx):
        p, m = self.p, self.p.modules[f.module]
        where = f"{f.relpath}:{c.lineno}"
        t = callee(p, m, f, c)
        if t == CHECK:
            self.events.append(("check", self.val((c.args or [k.value for k in c.keywords])[0], env), where, ctx))
            return
        if t in p.funcs:
            g = p.funcs[t]
            if g.cmod == f.cmod or self.depth < 4:
                ps = g.all_params
                e2 = {}
                for x, a in zip(ps, c.args):
                    e2[x] = self.val(a, env)
                for k in c.keywords:
                    if k.arg:
                        e2[k.arg] = self.val(k.value, env)
                self.run(g, e2, ctx)
            return
        r = t or external(p, m, f, c)
        if r in WRITERS:
            args = list(c.args)
            path = args[1] if len(args) > 1 else next((k.value for k in c.keywords if k.arg in ("filename", "target")), None)
            cubes = args[0] if args else next((k.value for k in c.keywords if k.arg in ("cube", "source")), None)
            self.events.append(("write", (cubes is not None and self.val(cubes, env), path is not None and self.val(path, env)), where, ctx))
        elif r in RENAMES:
            a = [self.val(x, env) for x in c.args] + [self.val(k.value, env) for k in c.keywords]
            self.events.append(("rename", (a[0], a[1]), where, ctx))
        elif r in REMOVES:
            self.events.append(("remove", self.val(c.args[-1], env), where, ctx))
        elif isinstance(c.func, ast.Attribute) and c.func.attr in ("rename", "replace") and len(c.args) == 1 and not isinstance(strip(c.args[0]), ast.Constant) and r is None:
            self.events.append(("rename", (self.val(c.func.value, env), self.val(c.args[0], env)), where, ctx))
        elif isinstance(c.func, ast.Attribute) and c.func.attr == "unlink":
            self.events.append(("remove", self.val(c.func.value, env), where, ctx))


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def raises(body):
    return bool(body) and isinstance(body[-1], ast.Raise)


def atomic(p, save=SAVE):
    f = p.funcs.get(save)
    if f is None:
        raise AnalysisBroken("the save function is no longer found")
    final = f.all_params[1]
    ev = Trace(p, f).events
    out = []
    ws = [(i, e) for i, e in enumerate(ev) if e[0] == "write"]
    rs = [(i, e) for i, e in enumerate(ev) if e[0] == "rename"]
    cs = [(i, e) for i, e in enumerate(ev) if e[0] == "check"]
    stats = dict(writes=len(ws), renames=len(rs), checks=len(cs))
    soft = lambda ctx: [x for x in ctx if x[0] in ("if", "except", "for") or x[0] == "try" and x[2]]
    for i, (_, (cubes, path), where, ctx) in ws:
        if not path:
            out.append(("atomic:path", where, "the file is written to a name that is not given"))
            continue
        pt = text(path)
        if pt == final:
            out.append(("atomic:direct", where, "the file is written under its final name, so that an interrupted save leaves a partial file there"))
        elif final not in {n.id for n in ast.walk(path) if isinstance(n, ast.Name)}:
            out.append(("atomic:elsewhere", where, f"the file is written to {pt}, which does not derive from the requested name"))
        mine = [(j, e) for j, e in rs if text(e[1][0]) == pt and text(e[1][1]) == final]
        if pt != final:
            if not mine:
                out.append(("atomic:rename", where, f"nothing renames {pt} to the requested name"))
            elif all(j < i for j, e in mine):
                out.append(("atomic:order", mine[0][1][2], "the rename to the requested name comes before the write"))
            for j, e in mine:
                if any(x[0] == "finally" for x in e[3]) and not any(x[0] == "finally" for x in ctx):
                    out.append(("atomic:finally", e[2], "the rename to the requested name also happens when the write failed"))
                if [x for x in e[3] if x[0] == "except"]:
                    out.append(("atomic:except", e[2], "the rename to the requested name happens after a failure"))
                if [x for x in soft(e[3]) if x not in ctx and x[0] == "if"]:
                    out.append(("atomic:conditional", e[2], "the rename to the requested name does not happen on every path after the write"))
                tr = [x for x in ctx if x[0] == "try" and x[2] and x not in e[3]]
                if tr and j > i:
                    out.append(("atomic:swallowed", e[2], "the rename to the requested name happens although a failed write was caught"))
        ok = False
        for j, (_, arg, w2, c2) in cs:
            loops = [x for x in c2 if x[0] == "for"]
            cond = [x for x in soft(c2) if x[0] in ("if", "except") and x not in ctx or x[0] == "try"]
            same = loops and cubes is not False and covers(ast.unparse(arg), ast.unparse(cubes))
            if j < i and same and not cond:
                ok = True
            elif cond and j < i:
                out.append(("check:conditional", w2, "not every data set is checked on every path before the write"))
        if not ok and not any(k == "check:conditional" for k, _, _ in out):
            out.append(("check:missing", where, "not every data set has been checked against the mandatory standards when the file is written"))
        for j, (k, d, w2, c2) in enumerate(ev):
            if k == "raise" and j > i and not any(x[0] == "except" for x in c2):
                out.append(("atomic:late", w2, "the request can be refused after the file has been written"))
            if k == "remove" and text(d) == final:
                out.append(("atomic:removed", w2, "an existing file of the requested name is removed before it is replaced"))
    for j, e in rs:
        if text(e[1][1]) == final and not any(text(e[1][0]) == text(w[1][1]) for _, w in ws if w[1][1]):
            out.append(("atomic:other", e[2], f"{text(e[1][0])} is renamed to the requested name, but the write goes elsewhere"))
    return out, stats


def covers(checked, written):
    """What is checked is each element of what is written (or of a copy of it)."""
    b = written
    for w in ("list(", "tuple(", "iris.cube.CubeList(", "CubeList("):
        for _ in range(2):
            if b.startswith(w) and b.endswith(")"):
                b = b[len(w):-1]
    return b in checked and "each[" in checked and f"{b}[:" not in checked and f"{b}[1:" not in checked


GOOD = '''
import os
import iris
from improver.metadata.check_datatypes import check_mandatory_standards
def _check(cube):
    check_mandatory_standards(cube)
def save_netcdf(cubelist, filename):
    for cube in cubelist:
        _check(cube)
    ftmp = str(filename) + ".tmp"
    iris.fileformats.netcdf.save(cubelist, ftmp)
    os.rename(ftmp, filename)
'''
STD = "def check_mandatory_standards(cube):\n    pass\n"


def selftest():
    from vlib.load import Project
    def keys(src):
        p = Project(sources={"improver/__init__.py": "", "improver/metadata/__init__.py": "", "improver/utilities/__init__.py": "",
                             "improver/metadata/check_datatypes.py": STD, "improver/utilities/save.py": src})
        return {k for k, _, _ in atomic(p)[0]}
    bad = {
        GOOD.replace("netcdf.save(cubelist, ftmp)", "netcdf.save(cubelist, filename)"): "atomic:direct",
        GOOD.replace("        _check(cube)", "        if cube.ndim:\n            _check(cube)"): "check:conditional",
        GOOD.replace("        _check(cube)", "        pass"): "check:missing",
        GOOD.replace("    os.rename(ftmp, filename)\n", ""): "atomic:rename",
        GOOD + "    if not cubelist:\n        raise ValueError()\n": "atomic:late",
    }
    if keys(GOOD) or any(k not in keys(s) for s, k in bad.items()):
        raise AnalysisBroken("save rule no longer decides its own examples")


def within(v, q, seen):
    """q is part of the save module, or a new function that only the save module uses."""
    f = v.cur.funcs[q]
    if f.cmod == "improver.utilities.save":
        return True
    if q in v.ref.funcs or q in seen:
        return False
    cs = v.callgraph().get(q, set())
    return bool(cs) and all(c in v.cur.funcs and within(v, c, seen | {q}) for c in cs)


def run(v, pid):
    selftest()
    w, n = writers(v.cur)
    out = []
    for q, r, at in w:
        if not within(v, q, set()):
            out.append((f"writer:{q}:{r}", at, f"{q} writes a data file itself ({r}), past the checked save"))
    found, stats = atomic(v.cur)
    out += found
    return out, dict(calls=n, **stats)
