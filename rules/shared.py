"""Shared-state rule (C01): no call leaves anything in a table, default value or cache
that a later call reads (the constant, default and cache parts of the mutation and
determinism rules)."""
from . import determinism, mutation

LEAST = {"constants": 125}


def run(v, pid):
    out = []
    a, st = mutation.run(v, pid)
    out += [x for x in a if x[0].startswith(("constant:", "default:"))]
    b, st2 = determinism.run(v, pid)
    out += [x for x in b if x[0].startswith("cache:")]
    return out, dict(constants=st["constants"], cached_functions=st2["cached_functions"])
