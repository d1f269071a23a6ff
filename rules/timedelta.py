"""Durations rule (C12, C13): the `.seconds` of an interval drops whole days.  Any read of
`.seconds` on an expression whose `.days` the same function does not also use is a finding."""
import ast

from .common import selftest

LEAST = {"functions": 1000}


def analyse(p):
    out = {}
    for q, f in p.funcs.items():
        days = {ast.dump(x.value) for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and x.attr == "days"}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr in ("seconds", "microseconds") and isinstance(x.ctx, ast.Load) and ast.dump(x.value) not in days:
                if x.attr == "microseconds" and any(isinstance(y, ast.Attribute) and y.attr == "seconds" for y in ast.walk(f.node)):
                    continue
                out[(q, ast.unparse(x))] = (f, x.lineno)
    return out


def run(v, pid):
    selftest("timedelta", analyse, {"ex.py": "def f(a, b):\n    return (b - a).seconds\n"}, "improver.ex.f")
    out = []
    total = sum(isinstance(x, ast.Attribute) and x.attr == "total_seconds" for f in v.cur.funcs.values() for x in ast.walk(f.node))
    for (q, e), (f, ln) in sorted(analyse(v.cur).items(), key=lambda t: t[0]):
        out.append((f"seconds:{q}:{e}", f"{f.relpath}:{ln}", f"{q} uses {e}: intervals of a day or more lose their whole days"))
    return out, dict(functions=len(v.cur.funcs), total_seconds_uses=total)
