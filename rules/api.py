"""Public interface rule (C23): every published name resolves to what it names."""
import ast

from vlib.load import AnalysisBroken

LEAST = {"names": 105, "plugin_classes": 100}


def table(p):
    m = p.modules.get("improver.api")
    if m is None or "PROCESSING_MODULES" not in m.consts:
        raise AnalysisBroken("the public name table is no longer found")
    e = m.consts["PROCESSING_MODULES"]
    if not isinstance(e, ast.Dict):
        return None
    out = {}
    for k, x in zip(e.keys, e.values):
        if not isinstance(k, ast.Constant) or not isinstance(x, ast.Constant):
            return None
        out[k.value] = (x.value, k.lineno)
    return out, len(e.keys)


def resolves(p, mod, name):
    """Dotted definition of `name` as an attribute of module `mod`."""
    if mod.endswith(".__init__"):
        mod = mod[: -len(".__init__")]
    m = p.modules.get(mod)
    if m is None:
        return None
    return p.resolve_name(m, name)


def run(v, pid):
    cur, ref = table(v.cur), table(v.ref)
    if cur is None:
        raise AnalysisBroken("the public name table is no longer a literal")
    cur, n = cur
    ref = ref[0]
    out = []
    rel = v.cur.modules["improver.api"].relpath
    if n != len(cur):
        out.append(("duplicate", rel, "a public name is listed more than once"))
    for name, (mod, ln) in sorted(cur.items()):
        t = resolves(v.cur, mod, name)
        if t is None or not (t in v.cur.classes or t in v.cur.funcs):
            out.append((f"name:{name}", f"{rel}:{ln}", f"public name {name} is looked up in {mod}, which does not define it"))
            continue
        if t.rsplit(".", 1)[1] != name:
            out.append((f"name:{name}", f"{rel}:{ln}", f"public name {name} leads to {t}"))
        elif name in ref:
            r = resolves(v.ref, ref[name][0], name)
            if r is not None and r != t and r in v.cur.classes and r in v.cur.funcs:
                out.append((f"name:{name}", f"{rel}:{ln}", f"public name {name} leads to {t} instead of {r}"))
    for name in sorted(set(ref) - set(cur)):
        out.append((f"gone:{name}", rel, f"public name {name} can no longer be looked up"))
    # every published class is callable through the shared entry point
    k = 0
    for name, (mod, ln) in sorted(cur.items()):
        t = resolves(v.cur, mod, name)
        if t in v.cur.classes:
            k += 1
            pr, ca = v.cur.find_method(t, "process"), v.cur.find_method(t, "__call__")
            if pr is None or ca is None:
                out.append((f"entry:{name}", v.cur.classes[t].relpath, f"{name} has no {'process' if pr is None else 'call'} entry"))
            elif pr.qual == "improver.BasePlugin.process" and v.cur.classes[t].module != "improver":
                out.append((f"entry:{name}", v.cur.classes[t].relpath, f"{name} does not implement processing"))
    return out, dict(names=len(cur), plugin_classes=k)
