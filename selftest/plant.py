"""Make and confirm planted bugs.

  plant.py make SPEC.py     write seeded/<ID>/ from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)
  plant.py confirm ID...    in a scratch copy of /repo: builds, stable tests pass, demo 0/nonzero
  plant.py checks ID...     which checks report it (all claimed properties), using an in-memory tree
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(SEEDED, ns["ID"])
    os.makedirs(d, exist_ok=True)
    work = tempfile.mkdtemp()
    sh(f"git -C /repo worktree prune; git clone -q /repo {work}/r")
    for rel, old, new in ns["EDITS"]:
        p = f"{work}/r/improver/{rel}"
        s = open(p).read()
        assert s.count(old) >= 1, (rel, old)
        assert s.count(old) == 1, ("ambiguous", rel, old)
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {work}/r diff").stdout)
    shutil.rmtree(work)
    for f in ("stubs.py", "fakeiris.py"):
        shutil.copy(os.path.join(HERE, "fake", f), d)
    open(f"{d}/demo.py", "w").write(ns["DEMO"].lstrip())
    open(f"{d}/demo.sh", "w").write(SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(f"{d}/meta.json", "w"), indent=1)
    print("made", ns["ID"])
    return ns["ID"]


def confirm(ids):
    work = tempfile.mkdtemp()
    r = f"{work}/repo"
    sh(f"cp -a /repo {r}")
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    ok = True
    for i in ids:
        d = os.path.join(SEEDED, i)
        a = sh(f"bash {d}/demo.sh", cwd=r, timeout=300)
        ap = sh(f"git apply {d}/patch.diff", cwd=r)
        comp = sh("python3 -m compileall -q improver -x nothing", cwd=r, env=dict(os.environ, PYTHONPYCACHEPREFIX=f"{work}/pc"))
        b = sh(f"bash {d}/demo.sh", cwd=r, timeout=300)
        sh("git checkout -q -- .", cwd=r)
        good = a.returncode == 0 and ap.returncode == 0 and b.returncode != 0 and comp.returncode == 0
        ok &= good
        print(i, "OK" if good else "BAD", a.returncode, ap.stderr[-200:], b.returncode,
              (b.stderr or b.stdout).strip().splitlines()[-1:] if good else (a.stderr[-1500:] + "\n--\n" + b.stderr[-800:]))
    shutil.rmtree(work)
    return ok


def sources(ids):
    src = {}
    work = tempfile.mkdtemp()
    sh(f"git clone -q /repo {work}/r")
    for i in ids:
        out = sh(f"git apply {SEEDED}/{i}/patch.diff", cwd=f"{work}/r")
        assert out.returncode == 0, out.stderr
    for base, _, files in os.walk(f"{work}/r/improver"):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(base, f)
                src[os.path.relpath(p, f"{work}/r")] = open(p).read()
    shutil.rmtree(work)
    return src


def checks(ids, pids=None):
    sys.path.insert(0, VERIF)
    from selftest.probe import verdicts
    for i in ids:
        want = json.load(open(f"{SEEDED}/{i}/meta.json"))["property"]
        hits = verdicts(sources([i]), pids)
        mine = [h for h in hits if h[0] == want]
        print(i, want, "CAUGHT" if mine else "MISSED", "others:", [h[0] for h in hits if h[0] != want])
        for h in mine:
            for l in h[1]:
                print("    ", l.strip()[:260])


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        ids = [make(a) for a in args]
        confirm(ids)
        checks(ids)
    elif cmd == "confirm":
        sys.exit(0 if confirm(args or sorted(os.listdir(SEEDED))) else 1)
    else:
        checks(args or sorted(os.listdir(SEEDED)))
