"""quiet.py [kind...]: apply one behaviour-preserving edit of a kind to every function that
allows it (whole tree at once), run every check, and show what is reported."""
import ast
import copy
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(60000)
from selftest import mutate, refactor2, refactor3  # noqa: E402
from selftest.probe import tree, verdicts  # noqa: E402
from vlib.load import Project  # noqa: E402

FRACTION = float(os.environ.get("FRACTION", "1"))


def build(kind, rnd):
    src = tree()
    p = Project(sources=src)
    out, n = dict(src), 0
    for mn, m in p.modules.items():
        t = copy.deepcopy(m.tree)
        changed = False
        extra = []

        def sig(call):
            try:
                r = p.resolve_expr(m, call.func)
            except Exception:
                return None
            if r in p.funcs and p.funcs[r].cls is None:
                a = p.funcs[r].node.args
                return [x.arg for x in a.args] if not a.posonlyargs and not a.vararg else None
            if r in p.classes:
                i = p.find_method(r, "__init__")
                if i is not None and not i.node.args.vararg:
                    return [x.arg for x in i.node.args.args][1:]
            return None

        def visit(body, cls):
            nonlocal changed, n
            add = []
            for i, st in enumerate(body):
                if isinstance(st, ast.ClassDef):
                    visit(st.body, st)
                elif isinstance(st, ast.FunctionDef) and rnd.random() < FRACTION:
                    if isinstance(kind, str):
                        js = [j for j in mutate.refactors(st, cls is not None and not any(isinstance(d, ast.Name) for d in st.decorator_list)) if j[0] == kind]
                        if not js:
                            continue
                        k, ln, f2, helpers, where = rnd.choice(js)
                        hn = f"_hlp_{n}"
                        for z in [f2] + helpers:
                            for y in ast.walk(z):
                                if isinstance(y, ast.Name) and y.id == "_hlp":
                                    y.id = hn
                                elif isinstance(y, ast.Attribute) and y.attr == "_hlp":
                                    y.attr = hn
                                elif isinstance(y, ast.FunctionDef) and y.name == "_hlp":
                                    y.name = hn
                        body[i] = f2
                        (add if where == "method" else extra).extend(helpers)
                    else:
                        f2 = copy.deepcopy(st)
                        r = kind(f2, rnd, sig) if kind is refactor2.kwcalls else kind(f2, rnd)
                        if not r:
                            continue
                        if isinstance(r, list):
                            for a in r:
                                for y in ast.walk(f2):
                                    if isinstance(y, ast.Name) and y.id == a.targets[0].id:
                                        y.id = f"{y.id}_{n}"
                                a.targets[0].id = f"{a.targets[0].id}_{n}"
                            extra.extend(r)
                        body[i] = f2
                    n += 1
                    changed = True
            body.extend(add)

        visit(t.body, None)
        if changed:
            k = 0
            while k < len(t.body) and (isinstance(t.body[k], (ast.Import, ast.ImportFrom, ast.Try)) or isinstance(t.body[k], ast.Expr)):
                k += 1
            t.body[k:k] = [x for x in extra if isinstance(x, ast.Assign)]
            t.body += [x for x in extra if not isinstance(x, ast.Assign)]
            s = ast.unparse(ast.fix_missing_locations(t))
            compile(s, m.relpath, "exec")
            out[m.relpath] = s
    return out, n


def main():
    names = sys.argv[1:]
    kinds = {k.__name__: k for k in refactor2.KINDS + refactor3.KINDS + refactor3.MODULE_KINDS}
    kinds.update({k: k for k in ("comp2loop", "extblock", "exthelper", "flipcmp", "invert", "nestif", "rangelen", "rename", "swap",
                                 "tmparg", "tmpcond", "tmpret", "noelse", "ternary", "loop2comp")})
    rnd = random.Random(int(os.environ.get("SEED", "1")))
    for nm in names or kinds:
        t0 = time.time()
        src, n = kinds[nm](tree(), rnd) if kinds[nm] in refactor3.MODULE_KINDS else build(kinds[nm], rnd)
        hits = verdicts(src) if n else []
        print(f"{nm}: {n} edits, {len(hits)} checks report something ({time.time() - t0:.0f} s)", flush=True)
        seen = set()
        for pid, ls in hits:
            for l in ls:
                k = l.split(": ", 1)[-1][:80]
                if k not in seen:
                    seen.add(k)
                    print("   ", pid, l.strip()[:420], flush=True)


main()
