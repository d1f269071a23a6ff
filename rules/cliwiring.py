"""Command wiring rule (C22).

 command  each command module has a process function that is turned into a command, and
          that saves its result unless it is one of those that have none to save
 import   what a command or any other function imports from the package exists there
 binding  every call of a function or class of the package fits its signature
 crossed  an option is not handed over under another option's name"""
import ast

from vlib.load import AnalysisBroken

from .common import callee, local_imports

LEAST = {"commands": 80, "imports": 500, "bound_calls": 1200}
NO_OUTPUT = {"compare", "between"}


def decorators(f):
    out = []
    for d in f.node.decorator_list:
        while isinstance(d, ast.Call):
            d = d.func
        out.append(ast.unparse(d).split(".")[-1])
    return out


def commands(p, ref):
    out, n = [], 0
    for mn, m in p.modules.items():
        if not mn.startswith("improver.cli.") or mn.endswith("__main__"):
            continue
        n += 1
        f = p.funcs.get(mn + ".process")
        if f is None:
            out.append((f"command:{mn}", m.relpath, f"command module {mn} has no process function"))
            continue
        d = decorators(f)
        if "clizefy" not in d:
            out.append((f"command:{mn}:clizefy", f.where, f"{mn}.process is not turned into a command"))
        g = ref.funcs.get(mn + ".process")
        if g is not None and "with_output" in decorators(g) and "with_output" not in d:
            out.append((f"command:{mn}:output", f.where, f"{mn}.process no longer saves its result under the name asked for"))
        if "clizefy" in d and "with_output" in d and d.index("clizefy") > d.index("with_output"):
            out.append((f"command:{mn}:order", f.where, f"the output option of {mn}.process is added outside the command"))
    return out, n


def defines(p, mod, name):
    m = p.modules.get(mod)
    if m is None:
        return None
    if f"{mod}.{name}" in p.modules:
        return True
    if name in m.imports or name in m.consts or name in m.multi or name in m.funcs or name in m.classes or name == "*" or name.startswith("__"):
        return True
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name:
            return True
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name:
            return True
    return any(isinstance(x, ast.FunctionDef) and x.name == "__getattr__" for x in m.tree.body)


def imports(p):
    out, n = [], 0
    for mn, m in p.modules.items():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and not x.level and x.module and (x.module == "improver" or x.module.startswith("improver.")):
                for a in x.names:
                    n += 1
                    d = defines(p, x.module, a.name)
                    if d is None and x.module not in p.modules:
                        out.append((f"import:{mn}:{x.module}", f"{m.relpath}:{x.lineno}", f"{mn} imports from {x.module}, which does not exist"))
                    elif not d:
                        out.append((f"import:{mn}:{x.module}.{a.name}", f"{m.relpath}:{x.lineno}", f"{mn} imports {a.name} from {x.module}, which does not define it"))
    return out, n


def accepts(f, skip):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    req = pos[: len(pos) - len(a.defaults)]
    pos, req = pos[skip:], req[skip:]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, req, [x.arg for x in a.kwonlyargs], kwreq, a.vararg is not None, a.kwarg is not None, len(a.posonlyargs)


def target(p, m, f, c):
    """(function, number of implicit arguments, label) a call binds to."""
    t = callee(p, m, f, c)
    if t in p.classes:
        cl = p.classes[t]
        if cl.bases and not all(b in p.classes or b in ("object", None) for b in cl.bases) or any(b is None for b in cl.bases):
            return None
        if any("dataclass" in ast.unparse(d) for d in cl.node.decorator_list) or p.find_method(t, "__new__"):
            return None
        i = p.find_method(t, "__init__")
        return (i, 1, t) if i is not None else None
    if t in p.funcs:
        g = p.funcs[t]
        if g.kind == "property":
            return None
        ds = [x for x in decorators(g) if x not in ("staticmethod", "classmethod", "abstractmethod", "lru_cache", "cache")]
        if ds:
            return None
        if g.cls is None or g.kind == "staticmethod":
            return g, 0, t
        if g.kind == "classmethod":
            return g, 1, t
        fn = c.func
        bound = isinstance(fn, ast.Attribute) and (isinstance(fn.value, ast.Call) or f is not None and f.cls and f.all_params and isinstance(fn.value, ast.Name) and fn.value.id == f.all_params[0])
        return (g, 1, t) if bound else (g, 0, t)
    # self.plugin(...) and Plugin(...)(...)
    if isinstance(c.func, ast.Call):
        k = callee(p, m, f, c.func)
        if k in p.classes:
            g = p.find_method(k, "process")
            call = p.find_method(k, "__call__")
            if g is not None and call is not None and call.qual in ("improver.BasePlugin.__call__", "improver.PostProcessingPlugin.__call__") and not decorators(g):
                return g, 1, k
    return None


def binding(p):
    out, n = [], 0
    for q, f in p.funcs.items():
        m = p.modules[f.module]
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            t = target(p, m, f, x)
            if t is None:
                continue
            g, skip, label = t
            n += 1
            pos, req, kwo, kwreq, va, kw, npo = accepts(g, skip)
            star = any(isinstance(a, ast.Starred) for a in x.args)
            dstar = any(k.arg is None for k in x.keywords)
            names = [k.arg for k in x.keywords if k.arg]
            bad = None
            if len(x.args) > len(pos) and not va and not star:
                bad = f"passes {len(x.args)} positional arguments where {len(pos)} are accepted"
            for k in names:
                if k not in pos and k not in kwo and not kw:
                    bad = f"passes '{k}', which is not accepted"
                elif k in pos[: len(x.args)] and not star and not (kw and k in pos[:npo]):
                    bad = f"passes '{k}' twice"
            if not star and not dstar:
                miss = [r for r in req[len(x.args):] if r not in names] + [r for r in kwreq if r not in names]
                if miss:
                    bad = f"does not pass {', '.join(miss)}"
            if bad:
                out.append((f"binding:{q}:{label}:{bad}", f"{f.relpath}:{x.lineno}", f"{q} calls {label} and {bad}"))
    return out, n


def crossed(p):
    """An option passed as the value of another option's keyword."""
    out = {}
    for q, f in p.funcs.items():
        ps = set(f.all_params)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                kv = {k.arg: k.value.id for k in x.keywords if k.arg and isinstance(k.value, ast.Name)}
                for k, v in kv.items():
                    if k != v and k in ps and v in ps and kv.get(v) not in (None, v):
                        out[(q, k, v)] = f"{f.relpath}:{x.lineno}"
    return out


EXAMPLE = {"__init__.py": "", "cli/__init__.py": "", "cli/x.py": '''
from improver.other import missing, Plugin
def process(a, b, units):
    return Plugin(a=b, b=a, unit=units)
''', "other.py": '''
class Plugin:
    def __init__(self, a, b, units=None):
        self.a, self.b, self.u = a, b, units
'''}


def run(v, pid):
    from vlib.load import Project
    ex = Project(sources={f"improver/{k}": s for k, s in EXAMPLE.items()})
    if not (commands(ex, ex)[0] and imports(ex)[0] and binding(ex)[0] and crossed(ex)):
        raise AnalysisBroken("command wiring rule no longer fires on its own example")
    out, n = commands(v.cur, v.ref)
    for mn in v.ref.modules:
        if mn.startswith("improver.cli.") and mn not in v.cur.modules:
            out.append((f"command:{mn}:gone", v.ref.modules[mn].relpath, f"command {mn} no longer exists"))
    b, ni = imports(v.cur)
    c, nb = binding(v.cur)
    d, dr = crossed(v.cur), crossed(v.ref)
    out += b + c
    for (q, k, x), at in sorted(d.items()):
        if (q, k, x) not in dr:
            out.append((f"crossed:{q}:{k}", at, f"{q} passes its '{x}' as '{k}' and its '{k}' as something else"))
    return out, dict(commands=n, imports=ni, bound_calls=nb)
