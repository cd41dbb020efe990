#!/usr/bin/env python3
"""Run the static check of one property: check.py <property id>."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)

from pymodel import AnalysisBroken  # noqa: E402
from registry import REGISTRY  # noqa: E402
from report import Report  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    mod, func, text = REGISTRY[pid]
    rep = Report(pid, text, tier)
    try:
        getattr(importlib.import_module(mod), func)(rep)
    except AnalysisBroken as e:
        # an anchor is gone: what was already refuted still counts, else this is an error
        print(f"analysis broken: {e}", file=sys.stderr)
        rep.fatal.append(str(e))
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rep.broken.append("internal error")
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
