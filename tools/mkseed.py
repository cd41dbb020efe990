#!/usr/bin/env python3
"""Create seeded/<id> from a description file and try its demo on the clean and the changed tree.

usage: mkseed.py seeds_x.py [id ...]   (the file defines SEEDS: id -> dict(property, edits, demo, needs, breaks))
Edits /repo for a moment and restores it."""
import importlib.util
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout.strip()
    for sid, d in m.SEEDS.items():
        if len(sys.argv) > 2 and sid not in sys.argv[2:]:
            continue
        out = os.path.join(ROOT, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        demo = d["demo"]
        if demo.startswith("#!"):
            open(os.path.join(out, "demo.sh"), "w").write(demo)
        else:
            open(os.path.join(out, "demo.py"), "w").write(demo)
            open(os.path.join(out, "demo.sh"), "w").write(
                '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        build = any(not f.endswith(".py") for f, _o, _n in d["edits"])
        try:
            clean = sh("bash", os.path.join(out, "demo.sh"), cwd=REPO)
            for f, old, new in d["edits"]:
                p = os.path.join(REPO, f)
                s = open(p, encoding="utf-8").read()
                assert s.count(old) >= 1, (sid, f, old)
                open(p, "w", encoding="utf-8").write(s.replace(old, new, 1))
            diff = sh("git", "-C", REPO, "diff").stdout
            open(os.path.join(out, "patch.diff"), "w", encoding="utf-8").write(diff)
            if build:
                b = sh("bash", "/opt/vp/build.sh")
                if b.returncode:
                    print(sid, "BUILD FAILS", b.stderr[-800:])
            bad = sh("bash", os.path.join(out, "demo.sh"), cwd=REPO)
            chk = sh(sys.executable, os.path.join(ROOT, "check.py"), d["property"], cwd=ROOT, env=dict(os.environ, VERIF_EVIDENCE="/tmp"))
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        if build:
            sh("bash", "/opt/vp/build.sh")
        ok = clean.returncode == 0 and bad.returncode != 0
        print(sid, "demo ok" if ok else f"DEMO BAD clean={clean.returncode} changed={bad.returncode} {clean.stderr[-600:]}",
              "| caught" if chk.returncode == 1 else f"| MISSED rc={chk.returncode}", chk.stdout.splitlines()[:1])


main()
