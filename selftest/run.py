#!/usr/bin/env python3
"""Self-test of the checkers: apply each edit of cases_*.py to a scratch copy of the sources
and see that bugs are reported and behaviour-preserving edits are not.

usage: run.py [substring of case id ...]"""
import concurrent.futures
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "cases_*.py"))):
        spec = importlib.util.spec_from_file_location("c", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out.extend(m.CASES)
    return out


def run(case):
    cid, pids, kind, edits = case
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="selftest.")
    try:
        for sub in ("src", "include"):
            shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub), ignore=shutil.ignore_patterns("*.so", "results"))
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, encoding="utf-8").read()
            if old not in s:
                return cid, kind, "EDIT-DOES-NOT-APPLY " + f + ": " + old[:60]
            s = s.replace(old, new, 1)
            if p.endswith(".py"):
                compile(s, p, "exec")
            open(p, "w", encoding="utf-8").write(s)
        res = []
        for pid in pids.split():
            e = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d)
            r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid], capture_output=True, text=True, env=e, timeout=900)
            lines = [x for x in r.stdout.splitlines() if ": [" in x]
            res.append((pid, r.returncode, lines[0] if lines else (r.stderr.splitlines() or [""])[-1]))
        if kind == "bug":
            ok = any(rc == 1 for _, rc, _ in res)
        else:
            ok = all(rc == 0 for _, rc, _ in res)
        return cid, kind, ("ok" if ok else "FAIL") + f" {time.time() - t0:.0f}s " + "; ".join(f"{p}={rc} {m}" for p, rc, m in res)
    finally:
        shutil.rmtree(d)


def main():
    cases = load()
    sel = sys.argv[1:]
    if sel:
        cases = [c for c in cases if any(s in c[0] for s in sel)]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for cid, kind, msg in ex.map(run, cases):
            if not msg.startswith("ok"):
                bad += 1
            if not msg.startswith("ok") or sel:
                print(f"{cid:40s} {kind:9s} {msg}")
    print(f"{len(cases)} cases, {bad} failures")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
