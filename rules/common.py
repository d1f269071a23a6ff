import ast


def scope_walk(node, nested=True):
    yield from ast.walk(node)


def funcs_of(p):
    return p.funcs.values()


def callee(p, m, f, call):
    """Canonical dotted name of what a call calls (repo function, class, or external)."""
    fn = call.func
    if isinstance(fn, ast.Attribute) and f is not None and f.cls and isinstance(fn.value, ast.Name) and f.all_params \
            and fn.value.id == f.all_params[0] and f.kind != "staticmethod":
        t = p.find_method(f.cls, fn.attr)
        return t.qual if t else None
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls:
        for c in p.mro(f.cls)[1:]:
            if fn.attr in c.methods:
                return c.methods[fn.attr].qual
        return None
    local = local_imports(p, f) if f is not None else {}
    r = resolve(p, m, fn, local)
    return r


def local_imports(p, f):
    out = {}
    m = p.modules[f.module]
    for x in ast.walk(f.node):
        if isinstance(x, ast.ImportFrom) and x.module and not x.level:
            for a in x.names:
                out[a.asname or a.name] = p.canonical(f"{x.module}.{a.name}")
        elif isinstance(x, ast.Import):
            for a in x.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
    return out


def resolve(p, m, e, local):
    if isinstance(e, ast.Name):
        if e.id in local:
            return local[e.id]
        return p.resolve_name(m, e.id)
    if isinstance(e, ast.Attribute):
        b = resolve(p, m, e.value, local)
        return p.canonical(f"{b}.{e.attr}") if b else None
    return None


def selftest(name, analyse, sources, expect):
    """A rule that expects nothing on the tree must still fire on its example."""
    from vlib.load import Project, AnalysisBroken
    p = Project(sources={f"improver/{k}": v for k, v in sources.items()})
    got = analyse(p)
    if not any(expect in str(k) for k in got):
        raise AnalysisBroken(f"rule {name} no longer fires on its own example")
