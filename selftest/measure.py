"""measure.py mut|ref [module-substring] [n]: verdict distribution over generated edits."""
import ast, collections, copy, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vlib.load import Project, Module, Func
from vlib.interp import Interp
from vlib.differ import compare_items
from selftest import mutate


def variant(p, modname, tree):
    q = copy.copy(p)
    q.modules = dict(p.modules)
    q.funcs = {k: f for k, f in p.funcs.items() if f.module != modname}
    q.classes = {k: c for k, c in p.classes.items() if c.module != modname}
    m0 = p.modules[modname]
    m = Module(m0.name, m0.path, m0.relpath, tree, m0.is_pkg)
    q.modules[modname] = m
    q._index(m)
    for c in q.classes.values():
        if c.module == modname:
            for b in c.node.bases:
                c.bases.append(q.resolve_expr(m, b))
    return q


def replace(p, f, newfn, helpers, where):
    tree = copy.copy(p.modules[f.module].tree)
    tree.body = list(tree.body)
    for i, s in enumerate(tree.body):
        if f.cls and isinstance(s, ast.ClassDef) and s.name == f.cls.split(".")[-1]:
            s2 = copy.copy(s)
            s2.body = [newfn if (isinstance(z, ast.FunctionDef) and z.name == f.name) else z for z in s.body]
            if where == "method":
                s2.body = s2.body + helpers
            tree.body[i] = s2
        elif not f.cls and isinstance(s, ast.FunctionDef) and s.name == f.name:
            tree.body[i] = newfn
    if where == "module":
        tree.body = tree.body + helpers
    return variant(p, f.module, tree)


def main():
    mode = sys.argv[1]
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 400
    show = sys.argv[4] if len(sys.argv) > 4 else ""
    rnd = random.Random(int(os.environ.get("SEED", "1")))
    p = Project()
    known = set(p.funcs) | set(p.classes)
    ip = Interp(p, known)
    jobs = []
    fs = [(q, f) for q, f in p.funcs.items() if not sub or sub in q]
    rnd.shuffle(fs)
    per = int(os.environ.get("PER", "6"))
    for q, f in fs:
        if mode == "mut":
            js = [(q, k, ln, f2, [], None) for k, ln, f2 in mutate.mutants(f.node)]
        else:
            js = [(q,) + t for t in mutate.refactors(f.node, f.kind == "method")]
        rnd.shuffle(js)
        jobs += js[:per]
        if len(jobs) >= n:
            break
    print("candidates", len(jobs))
    stat = collections.defaultdict(collections.Counter)
    for q, k, ln, f2, h, w in jobs[:n]:
        f = p.funcs[q]
        f2 = ast.parse(ast.unparse(ast.fix_missing_locations(f2))).body[0]
        h = [ast.parse(ast.unparse(ast.fix_missing_locations(x))).body[0] for x in h]
        pv = replace(p, f, f2, h, w)
        iv = Interp(pv, known)
        try:
            cur = iv.summary(q)
        except Exception as ex:
            stat[k]["CRASH"] += 1
            print("CRASH", q, k, ln, repr(ex)[:200])
            continue
        ref = ip.summary(q)
        E, U = compare_items(ref.items, cur.items, cur.opaque)
        items_u = {i for i, _ in U}
        Eok = [(i, m) for i, m in E if i not in items_u]
        v = "alarm" if Eok else ("undecided" if (U or E) else "equal")
        stat[k][v] += 1
        if v == show or (show == "ue" and (v == "undecided" or (v == "equal" and mode == "mut"))):
            print(f"--- {v} {k} {q}:{ln}")
            a, b = ast.unparse(f.node).splitlines(), ast.unparse(f2).splitlines()
            import difflib
            for l in list(difflib.unified_diff(a, b, lineterm="", n=0))[2:14]:
                print("   ", l[:170])
            for i, m in (Eok or (U + E))[:3]:
                print("   =>", i, m[:420])
    tot = collections.Counter()
    for k in sorted(stat):
        print(f"{k:12s}", dict(stat[k]))
        tot.update(stat[k])
    print("TOTAL", dict(tot))


main()
