"""Findings, evidence and exit status of one check."""
from __future__ import annotations

import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Report:
    def __init__(self, pid, rule, tier):
        self.pid = pid
        self.rule = rule
        self.tier = tier
        self.t0 = time.time()
        self.obligations = []  # (rule, construct, status, detail)
        self.bads = []
        self.funcs = set()
        self.counts = {}
        self.broken = []  # floors missed, rules that gave up: reported, not decided
        self.fatal = []  # an anchor of the property is gone

    def ok(self, rule, construct, detail=""):
        self.obligations.append((rule, construct, "holds", detail))

    def bad(self, rule, construct, where, msg):
        key = f"{rule}@{construct}"
        if any(b["key"] == key and b["msg"] == msg for b in self.bads):
            return
        self.obligations.append((rule, construct, "VIOLATED", msg))
        self.bads.append({"key": key, "rule": rule, "construct": construct, "where": where, "msg": msg})

    def unknown(self, rule, construct, why=""):
        self.obligations.append((rule, construct, "not decided", why))

    def judge(self, cond, rule, construct, where, msg, detail=""):
        """cond True / False / None."""
        if cond is None:
            self.unknown(rule, construct, msg)
        elif cond:
            self.ok(rule, construct, detail)
        else:
            self.bad(rule, construct, where, msg)

    def analysed(self, *names):
        self.funcs.update(names)

    def count(self, name, n, floor):
        self.counts[name] = n
        if n < floor:
            self.broken.append(f"{name}: {n} instances found, at least {floor} expected")

    # ------------------------------------------------------------------
    def known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            with open(p, encoding="utf-8") as fh:
                for e in json.load(fh)["findings"]:
                    if e["property"] == self.pid:
                        out[e["key"]] = e
        return out

    def finish(self):
        known = self.known()
        new = []
        told = set()
        for b in self.bads:
            if b["key"] in known:
                if b["key"] in told:
                    continue
                told.add(b["key"])
                print(f"KNOWN-FINDING: property={self.pid} {known[b['key']]['what']}")
            else:
                new.append(b)
        seen = {}
        for r, c, s, d in self.obligations:
            seen[(r, c, s, d)] = 1
        obl = list(seen)
        n = {s: sum(1 for o in obl if o[2] == s) for s in ("holds", "VIOLATED", "not decided")}
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "functions_analysed": len(self.funcs),
                "functions": sorted(self.funcs)[:200],
                "obligations": len(obl),
                "discharged": n["holds"],
                "not_decided": n["not decided"],
                "known_findings": len(self.bads) - len(new),
                "instance_counts": self.counts,
                "samples": [f"{r} @ {c}: {s}{' - ' + str(d)[:160] if d else ''}" for r, c, s, d in obl[:40]],
                "gave_up": self.broken[:20],
                "undecided": [f"{r} @ {c}: {str(d)[:160]}" for r, c, s, d in obl if s == "not decided"][:40],
            },
            "violations": len(new),
            "assumptions": ["external libraries behave as documented; only the source under /repo is analysed"],
            "wall_s": round(time.time() - self.t0, 3),
        }
        edir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(edir, exist_ok=True)
        path = os.path.join(edir, f"{self.pid}.json")
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1)
        if new:
            rp = os.path.join(edir, f"{self.pid}.violations.txt")
            with open(rp, "w", encoding="utf-8") as fh:
                for b in new:
                    fh.write(f"{b['where']}: [{b['rule']}] {b['construct']}: {b['msg']}\n")
            for b in new[:20]:
                print(f"{b['where']}: [{b['rule']}] {b['construct']}: {b['msg']}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        for b in self.fatal + self.broken:
            print(f"analysis broken: {b}", file=sys.stderr)
        if self.fatal or (self.broken and not n["holds"]):
            return 2
        print(f"{self.pid}: {n['holds']} obligations hold, {n['not decided']} not decided, "
              f"{len(self.funcs)} functions analysed, {ev['wall_s']}s")
        return 0
