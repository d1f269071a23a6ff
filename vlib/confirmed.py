"""The confirmed definitions: what every function of improver computed on the tree
that was read and confirmed (after the fix: commits).  They are kept without
comments and docstrings and are only ever parsed, never executed: each run puts
them and /repo's current definitions through the same value normal form."""
import ast
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "confirmed.json")


def strip(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                n.body = b[1:]
                if not n.body and not isinstance(n, ast.Module):
                    n.body = [ast.Pass()]
    return tree


def save(project):
    d = {}
    for m in project.modules.values():
        with open(m.path, encoding="utf-8") as fh:
            t = strip(ast.parse(fh.read()))
        d[m.relpath] = ast.unparse(ast.fix_missing_locations(t)).splitlines()
    with open(PATH, "w") as fh:
        json.dump(d, fh, indent=0, sort_keys=True)
        fh.write("\n")


def load():
    with open(PATH) as fh:
        return {k: "\n".join(v) + "\n" for k, v in json.load(fh).items()}
