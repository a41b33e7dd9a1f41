#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--repo DIR]   decides one property from the sources of /repo"""
import argparse
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--no-evidence", action="store_true", help="development only: do not touch the evidence files")
    a = ap.parse_args()
    from nialint import report
    report.WRITE = not a.no_evidence
    from nialint.base import Ctx
    t0 = time.time()
    rule = importlib.import_module("nialint.rules." + a.prop.lower())
    ctx = Ctx(a.repo, a.tier)
    res = report.Result()
    broken = False
    try:
        rule.check(ctx, res)
    except Exception:           # the analyser itself failed: violations found before that still count, else there is no answer
        import traceback
        traceback.print_exc()
        res.undec("the analysis stopped with an internal error")
        broken = True
    rc = report.finish(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED", "1") or 1), rule.RULE, res, t0, getattr(rule, "ASSUMPTIONS", []))
    return 2 if broken and rc == 0 else rc


if __name__ == "__main__":
    sys.exit(main())
