"""Inequality vocabulary rule (C05).

 table      every spelling leads to the operator it spells; the metadata string and the
            inverse agree with the operator; no spelling is in two groups
 word       every literal that reads as an inequality is a word of the table
 direction  no list of words mixes directions, or leaves out one of a direction's words
 name       a function that writes a fixed name and a fixed inequality writes agreeing ones"""
import ast
import re

from vlib.load import AnalysisBroken

from .common import local_imports, resolve

LEAST = {"groups": 4, "spellings": 12, "words": 20}
MEANS = {"ge": "ge", "GE": "ge", ">=": "ge", "gt": "gt", "GT": "gt", ">": "gt", "le": "le", "LE": "le", "<=": "le", "lt": "lt", "LT": "lt", "<": "lt"}
WORD = {"ge": "greater_than_or_equal_to", "gt": "greater_than", "le": "less_than_or_equal_to", "lt": "less_than"}
INV = {"ge": "lt", "lt": "ge", "gt": "le", "le": "gt"}
LOOKS = re.compile(r"^(greater|less|more|smaller|lower|higher)_(than|or)[a-z_]*$")
TABLE = "improver.utilities.probability_manipulation.comparison_operator_dict"
NAME = re.compile(r"_(above|below)_(threshold)?$|_(above|below)_threshold")


def oper(p, m, f, e):
    r = resolve(p, m, e, local_imports(p, f)) or ""
    return r[len("operator."):] if r.startswith("operator.") else None


def groups(p, qual=TABLE):
    """[(spellings, operator, word, inverse, line)] or None when not readable."""
    f = p.funcs.get(qual)
    if f is None:
        raise AnalysisBroken("the comparison table is no longer found")
    m = p.modules[f.module]
    fields = None
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) == "namedtuple" and len(x.args) == 2:
            a = x.args[1]
            if isinstance(a, ast.Constant):
                fields = a.value.replace(",", " ").split()
            elif isinstance(a, (ast.List, ast.Tuple)):
                fields = [e.value for e in a.elts if isinstance(e, ast.Constant)]
    out = []
    env = {}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            env[x.targets[0].id] = x.value

    def record(e):
        if isinstance(e, ast.Name):
            e = env.get(e.id)
        if not isinstance(e, ast.Call):
            return None
        d = dict(zip(fields or [], e.args))
        d.update({k.arg: k.value for k in e.keywords})
        if not {"function", "spp_string", "inverse"} <= set(d):
            return None
        if not isinstance(d["spp_string"], ast.Constant) or not isinstance(d["inverse"], ast.Constant):
            return None
        return oper(p, m, f, d["function"]), d["spp_string"].value, d["inverse"].value

    def strings(e):
        if isinstance(e, ast.Name):
            e = env.get(e.id)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(y, ast.Constant) for y in e.elts):
            return [y.value for y in e.elts]
        return None

    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "fromkeys" and len(x.args) == 2:
            s, r = strings(x.args[0]), record(x.args[1])
            if s is None or r is None:
                return None
            out.append((s, *r, x.lineno))
        elif isinstance(x, ast.Dict):
            for k, v in zip(x.keys, x.values):
                r = record(v)
                if r is not None and isinstance(k, ast.Constant):
                    out.append(([k.value], *r, v.lineno))
    return out or None


def table(p):
    g = groups(p)
    if g is None:
        return [], dict(groups=4, spellings=12, unread=1)
    rel = p.funcs[TABLE].relpath
    out, seen = [], {}
    for ss, op, word, inv, ln in g:
        at = f"{rel}:{ln}"
        for s in ss:
            if s in seen and seen[s] != (op, word, inv):
                out.append((f"table:twice:{s}", at, f"'{s}' is given two meanings"))
            seen[s] = (op, word, inv)
            if s not in MEANS:
                out.append((f"table:unknown:{s}", at, f"'{s}' does not spell an inequality"))
            elif op != MEANS[s]:
                out.append((f"table:operator:{s}", at, f"'{s}' is evaluated as {op}"))
        if op in WORD and word != WORD[op]:
            out.append((f"table:word:{op}", at, f"{op} is recorded as '{word}'"))
        if op in INV and MEANS.get(inv) != INV[op]:
            out.append((f"table:inverse:{op}", at, f"the inverse of {op} is given as {inv}"))
    for s in sorted(set(MEANS) - set(seen)):
        out.append((f"table:missing:{s}", rel, f"the spelling '{s}' is no longer accepted"))
    return out, dict(groups=len({(o, w) for _, o, w, _, _ in g}), spellings=len(seen))


def words(p):
    out, n = [], 0
    vocab = set(WORD.values())
    for m in p.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and LOOKS.match(x.value):
                n += 1
                if x.value not in vocab:
                    out.append((f"word:{m.name}:{x.value}", f"{m.relpath}:{x.lineno}", f"'{x.value}' is no recorded inequality; it never matches what is written"))
            if isinstance(x, (ast.List, ast.Tuple, ast.Set)):
                w = {e.value for e in x.elts if isinstance(e, ast.Constant) and isinstance(e.value, str)}
                g, l = {z for z in w if z.startswith("greater_than")}, {z for z in w if z.startswith("less_than")}
                if (g or l) and len(w) == len(x.elts):
                    if (g | ({"above"} & w)) and (l | ({"below"} & w)) and w != vocab:
                        out.append((f"direction:{m.name}", f"{m.relpath}:{x.lineno}", f"{sorted(w)} mixes directions"))
                    elif w != vocab and len(w) > 1 and len(g | l) == 1:
                        out.append((f"direction:{m.name}", f"{m.relpath}:{x.lineno}", f"{sorted(w)} leaves out an inequality of the same direction"))
    for q, f in p.funcs.items():
        names, attrs = {}, {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.startswith("probability_of"):
                r = NAME.search(x.value)
                if r:
                    names.setdefault(r.group(1) or r.group(3), x.lineno)
            if isinstance(x, ast.JoinedStr):
                t = "".join(v.value for v in x.values if isinstance(v, ast.Constant))
                r = NAME.search(t)
                if r and t.startswith("probability_of"):
                    names.setdefault(r.group(1) or r.group(3), x.lineno)
            if isinstance(x, ast.Dict):
                for k, v in zip(x.keys, x.values):
                    if isinstance(k, ast.Constant) and k.value == "spp__relative_to_threshold" and isinstance(v, ast.Constant):
                        attrs.setdefault("above" if str(v.value).startswith("greater") else "below" if str(v.value).startswith("less") else "?", v.lineno)
        if len(names) == 1 and len(attrs) == 1 and set(names) != set(attrs):
            out.append((f"name:{q}", f.where, f"{q} names its result {list(names)[0]} threshold but records the opposite inequality"))
    return out, n


def run(v, pid):
    from vlib.load import Project
    src = '''
import operator
from collections import namedtuple
def comparison_operator_dict():
    i = namedtuple("i", "function, spp_string, inverse")
    d = {}
    d.update(dict.fromkeys(["ge", ">="], i(function=operator.gt, spp_string="greater_than", inverse="lt")))
    return d
def f(cube):
    if cube.x in ("greater_than_or_equal", "less_than"):
        return {"spp__relative_to_threshold": "less_than"}, "probability_of_x_above_threshold"
'''
    ex = Project(sources={"improver/__init__.py": "", "improver/utilities/__init__.py": "", "improver/utilities/probability_manipulation.py": src})
    k = {a.split(":")[0] + ":" + a.split(":")[1] for a, _, _ in table(ex)[0]} | {a.split(":")[0] for a, _, _ in words(ex)[0]}
    if not {"table:operator", "table:inverse", "table:missing", "word", "direction", "name"} <= k:
        raise AnalysisBroken("inequality rule no longer fires on its own example")
    a, st = table(v.cur)
    if v.same(TABLE):
        a, st = [], dict(st, groups=4, spellings=12)
    b, n = words(v.cur)
    return a + b, dict(st, words=n)
