"""Write properties.jsonl and MANIFEST.json from vlib/spec.py (run by hand)."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)
from vlib.load import Project  # noqa: E402
from vlib.spec import NA, P  # noqa: E402
import check  # noqa: E402

RULES = {
    "reuse": "flow-sensitive definite-assignment analysis of configured attributes over every call entry (nothing read that an earlier call may have left)",
    "shared": "in-place change of shared tables and default values, and cache keys",
    "alias": "alias query: an object that was a copy becomes the caller's own (or stays one the plugin keeps) while something on its path changes it in place",
    "mutation": "effect analysis: no in-place change of option collections, shared tables or default values",
    "save": "event-order analysis of the save path (check dominates write, write to a derived name, rename after it) and a who-may-write query",
    "inequality": "table and vocabulary query over all literals that name an inequality",
    "timedelta": "typed query on duration components",
    "cliwiring": "command query, import resolution and call-to-signature binding of every resolvable call in the package",
    "api": "name-table resolution through the package's imports",
    "determinism": "source, set-order and cache queries over every function",
    "options": "parameter and attribute liveness, truth tests on numeric options, dropped results, lost dependence",
}


class V:
    pass


def main():
    p = Project()
    v = V()
    v.ref = p
    lines, checks = [], []
    for s in P:
        tv = bool(s["modules"] or s["extra"] or s["kinds"])
        if s["kinds"]:
            files = ["improver"]
        else:
            files = sorted({p.funcs[q].relpath for q in check.functions(s, v)})
        if not files:
            files = ["improver"]
        assert len(s["title"]) <= 80, s["id"]
        n = len([x for x in re.split(r"(?<=[.:;])\s+(?=[A-Z])", s["statement"])])
        assert n <= 3, (s["id"], n)
        lines.append(dict(id=s["id"], title=s["title"], statement=s["statement"], quantifier=dict(over=s["over"], text=s["text"]),
                          why_tests_cant=s["why"],
                          anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in s["mech"]])))
        parts = []
        if tv:
            parts.append("abstract interpretation of every path to a value normal form, compared with the confirmed definition's"
                         if not s["kinds"] else
                         "abstract interpretation of every function's paths; the " + {"C01": "kept-state", "C02": "in-place", "C25": "refusal"}[s["id"]]
                         + " part of its normal form compared with the confirmed definition's")
        parts += [RULES[r] for r in s["rules"]]
        if s["modules"] or s["extra"]:
            parts.append("kept-value query: no array put into a container is changed in place afterwards")
        note = []
        if tv:
            note.append("Every path of every listed function is analysed; results, errors, stored attributes and effects are compared as values, so that a rewriting that "
                        "keeps the behaviour is equal and a changed value, condition, operand or effect is reported. Relies on the confirmed definitions having been read and "
                        "found right, on library calls being functions of their arguments, and gives no verdict (evidence lists it) on a difference it cannot relate.")
        if s["rules"]:
            note.append("The rules " + ", ".join(s["rules"]) + " decide the current source on its own, without a reference for their findings' meaning; each is tried on a built-in violating example in every run.")
        checks.append(dict(property=s["id"], quick_cmd=f"python3 check.py {s['id']} --tier quick", thorough_cmd=f"python3 check.py {s['id']} --tier thorough",
                           evidence_file=f"evidence/{s['id']}.json", technique="static analysis: " + "; ".join(parts), level=check.level(s), level_note=" ".join(note)))
    for s in NA:
        lines.append(dict(id=s["id"], title=s["title"], statement=s["statement"], quantifier=dict(over=s["over"], text=s["text"]), why_tests_cant=s["why"],
                          anchors=dict(files=s["files"], mechanism=[dict(name="none decided statically", where=s["files"][0])])))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for x in lines:
            fh.write(json.dumps(x, ensure_ascii=False) + "\n")
    man = dict(version=1, setup_cmd="python3 -m compileall -q check.py vlib rules", checks=checks,
               not_applicable=[dict(property=s["id"], reason=s["reason"]) for s in NA],
               notes="Checks only parse /repo/improver; nothing of it is imported or run. See DESIGN.md. Known and repaired defects: known_findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    import importlib.util
    print(len(lines), "properties", len(checks), "checks")


main()
