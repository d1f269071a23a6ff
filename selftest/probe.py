"""Run every property's decision on an in-memory version of the package."""
import contextlib
import io
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check  # noqa: E402
from vlib import confirmed  # noqa: E402
from vlib.load import Project  # noqa: E402
from vlib.spec import P  # noqa: E402
from vlib.validate import Validation  # noqa: E402

REF = None


def tree(root="/repo"):
    src = {}
    for base, _, files in os.walk(os.path.join(root, "improver")):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(base, f)
                src[os.path.relpath(p, root)] = open(p).read()
    return src


def verdicts(sources, pids=None):
    """[(property, first lines)] of the checks that report something (or fail) on `sources`."""
    global REF
    REF = REF or Project(sources=confirmed.load())
    v = Validation(cur=Project(sources=sources), ref=REF)

    class A:
        tier = "quick"
        root = None

    hits = []
    for spec in P:
        if pids and spec["id"] not in pids:
            continue
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            rc = check.decide(spec, A, 0, v=v, write=False)
        if rc:
            hits.append((spec["id"], [l for l in out.getvalue().splitlines() if l.startswith("  ")][:3]))
    return hits


def edited(edits):
    s = tree()
    for rel, old, new in edits:
        rel = rel if rel.startswith("improver") else "improver/" + rel
        assert old in s[rel], (rel, old)
        s[rel] = s[rel].replace(old, new, 1)
    return s
