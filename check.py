#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property from /repo's current source.

Exit 0: held on everything analysed.  Exit 1: a VIOLATION line.  Exit 2: the analysis
lost something it must have (never a silent pass)."""
import argparse
import fnmatch
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)

from vlib.load import PKG, AnalysisBroken, Project  # noqa: E402
from vlib.spec import P  # noqa: E402
from vlib.validate import Validation  # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings(pid):
    """Listed findings of a property: {key: text}."""
    out = {}
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith("finding: property="):
            continue
        head, _, text = line[len("finding: property="):].partition(" ")
        key, _, text = text.partition(" ")
        if head == pid and key.startswith("key="):
            out[key[4:]] = text
    return out


def in_modules(mod, pats):
    short = mod[len("improver."):] if mod != "improver" else ""
    for p in pats:
        if p.endswith(".*"):
            if short == p[:-2] or short.startswith(p[:-1]):
                return True
        elif short == p:
            return True
    return False


def functions(spec, v):
    out = set()
    for q, f in v.ref.funcs.items():
        if in_modules(f.module, spec["modules"]) or any(
                fnmatch.fnmatchcase(q, "improver." + x) or q == "improver." + x for x in spec["extra"]):
            out.add(q)
    return out


def validate(spec, v, deep=False):
    """-> (violations [(key, where, text)], stats, undecided)"""
    viol, und = [], []
    kinds = spec["kinds"]
    todo = sorted(v.ref.funcs if kinds else functions(spec, v))
    if deep and not kinds:
        todo = closure(v, todo)
    n = items = diff = nodes = 0
    vanished = []
    for q in todo:
        if q not in v.both:
            f = v.ref.funcs[q]
            top = f.cls is None or f.name in ("process", "__call__")
            if top and not f.name.startswith("_"):
                c = v.cur.canonical(q)
                if c not in v.cur.funcs and not (f.cls and v.cur.find_method(v.cur.canonical(f.cls), f.name)):
                    vanished.append(q)
            continue
        n += 1
        al, u, r = v.verdict(q)
        items += len(r.items)
        nodes += r.size
        if al or u:
            diff += 1
        f = v.cur.funcs[q]
        for i, m in al:
            if kinds is not None and not wanted(kinds, i, m, v, q):
                continue
            viol.append((f"{q}:{i}", f.where, f"{q}: {i}: {m}"))
        if u:
            und.append(f"{q}: " + "; ".join(f"{i}: {m[:80]}" for i, m in u[:3]))
    x = 0
    if kinds is None:
        fs = {v.ref.funcs[q].cls or q for q in todo} | set(todo)
        for q, mod, E in v.extras():
            x += 1
            name = q[len("improver."):]
            if in_modules(mod, spec["modules"]) or q in fs or any(fnmatch.fnmatchcase(name, e) for e in spec["extra"]):
                for i, m in E:
                    viol.append((f"{q}:{i}", v.cur.modules[mod].relpath, f"{q}: {i}: {m}"))
    if vanished:
        raise AnalysisBroken("public entry points no longer found: " + ", ".join(vanished))
    return viol, dict(functions_compared=n, result_items_compared=items, functions_with_differences=diff,
                      value_nodes=nodes), und


def closure(v, todo):
    """The listed functions and everything of the package they rely on."""
    from vlib.validate import callees
    seen, work = set(todo), list(todo)
    while work:
        q = work.pop()
        if v.ref.funcs[q].module == PKG:      # the shared entry points lead to every plugin
            continue
        for t in callees(v.ref, v.ref.funcs[q]):
            if t in v.ref.funcs and t not in seen:
                seen.add(t)
                work.append(t)
    return sorted(seen)


NAME = re.compile(r"(?:improver|self|super)(?:\.\w+)+")


def refuses(v, q, msg):
    """The effect a message is about is a call whose only purpose is to refuse."""
    f = v.ref.funcs[q]
    for name in NAME.findall(msg)[:1]:
        g = None
        if name.startswith("self.") and f.cls:
            g = v.ref.find_method(f.cls, name.split(".")[1])
        elif name in v.ref.funcs:
            g = v.ref.funcs[name]
        if g is not None and any(k.startswith("raise:") for k in v.iref.summary(g.qual).items):
            return True
    return False


def wanted(kinds, item, msg, v, q):
    k = item.split(":")[0]
    if k == "eff" and "raise" in kinds:
        return refuses(v, q, msg)
    if k not in kinds:
        return False
    if k in ("upd", "selfupd"):
        # only additional in-place changes touch these properties
        return "added" in msg
    if k == "self":
        return False
    return True


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default=None, help="analyse another tree (development only)")
    a = ap.parse_args(argv)
    spec = next((p for p in P if p["id"] == a.property), None)
    if spec is None:
        print("no such property", a.property)
        return 2
    t0 = time.time()
    pid = spec["id"]
    try:
        rc = decide(spec, a, t0)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    return rc


def decide(spec, a, t0, v=None, write=True):
    pid = spec["id"]
    v = v or Validation(a.root)
    viol, stats, und = [], {}, []
    tv = bool(spec["modules"] or spec["extra"] or spec["kinds"])
    if tv:
        viol, stats, und = validate(spec, v, a.tier == "thorough")
        print(f"{pid}: compared {stats['functions_compared']} functions, {stats['result_items_compared']} result items, "
              f"{stats['value_nodes']} value nodes with the confirmed definitions; {stats['functions_with_differences']} differ, {len(und)} undecided")
    rules = {}
    for r in spec["rules"] + (["kept"] if spec["modules"] or spec["extra"] else []):
        mod = importlib.import_module("rules." + r)
        findings, st = mod.run(v, pid, functions(spec, v)) if r == "kept" else mod.run(v, pid)
        for k, least in getattr(mod, "LEAST", {}).items():
            if st.get(k, 0) < least and not findings:
                raise AnalysisBroken(f"rule {r}: only {st.get(k, 0)} {k}, {least} were confirmed")
        rules[r] = dict(st, findings=len(findings))
        viol += findings
        print(f"{pid}: rule {r}: " + ", ".join(f"{k}={x}" for k, x in rules[r].items()))
    known = known_findings(pid)
    new, old = [], []
    for key, where, text in viol:
        (old if key in known else new).append((key, where, text))
    for key, where, text in old:
        print(f"KNOWN-FINDING: property={pid} {known[key]}")
    for x in und:
        print(f"undecided (no verdict on): {x}")
    if write:
        evidence(spec, a, v, stats, rules, und, new, old, t0)
    if new and not write:
        for key, where, text in new[:20]:
            print(f"  {where}: {text[:400]}")
        return 1
    if new:
        path = os.path.join("evidence", f"{pid}.violations.txt")
        with open(os.path.join(HERE, path), "w") as fh:
            fh.write(f"property {pid}: {spec['title']}\n{spec['statement']}\n\n")
            fh.write("reproduce: cd /verif && python3 check.py %s --tier %s\n\n" % (pid, a.tier))
            for key, where, text in new:
                fh.write(f"{where}\n    [{key}]\n    {text}\n")
        for key, where, text in new[:20]:
            print(f"  {where}: {text[:400]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def evidence(spec, a, v, stats, rules, und, new, old, t0):
    cov = {}
    tv = bool(stats)
    if tv:
        cov.update(programs=stats["functions_compared"], disagreements_checked=stats["result_items_compared"],
                   value_nodes=stats["value_nodes"], functions_with_differences=stats["functions_with_differences"],
                   undecided=und[:50])
        names = sorted(q for q in (v.ref.funcs if spec["kinds"] else functions(spec, v)) if q in v.both)
        samples = []
        from vlib.nodes import show
        for q in names[:: max(1, len(names) // 3)][:3]:
            r = v.raw(q)
            for k, n in list(r.items.items())[:2]:
                samples.append(f"{q} {k} = {show(n, 5)[:300]}")
        cov["samples"] = samples or ["none"]
    if rules:
        cov["rules"] = rules
    cov["explanation"] = (
        "Static analysis of the current source under /repo/improver (parsed afresh, nothing executed)"
        + (": every listed function's results, raised errors, attribute stores and in-place effects are reduced to a value normal form by abstract "
           "interpretation of all paths and compared with the confirmed definition's" if tv else "")
        + ("; rules " + ", ".join(rules) if rules else "") + ".")
    d = dict(property=spec["id"], tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
             level=level(spec), coverage=cov, wall_s=round(time.time() - t0, 3), violations=len(new),
             assumptions=["library calls (numpy, iris, scipy) are uninterpreted functions of their arguments",
                          "functions whose difference cannot be related are undecided and raise no alarm"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", spec["id"] + ".json"), "w") as fh:
        json.dump(d, fh, indent=1)
        fh.write("\n")


def level(spec):
    return "translation_validation" if spec["modules"] or spec["extra"] or spec["kinds"] else "other"


if __name__ == "__main__":
    sys.exit(main())
