"""Common machinery of the rules: one abstract run per exported algorithm, in parallel."""
import multiprocessing
import os
import sys

from .driver import Driver
from .loader import Program
from .report import Result

sys.setrecursionlimit(20000)
_G = {}


class Ctx:
    def __init__(self, repo, tier):
        self.repo, self.tier = repo, tier
        self.prog = Program(repo)
        self.driver = Driver(self.prog)

    def algorithms(self):
        return [(pkg, name, ci) for pkg, name, ci in self.prog.exported_algorithms()]


def _work(arg):
    modname, i, var = arg
    ctx = _G["ctx"]
    pkg, name, ci = _G["algs"][i]
    import importlib
    rule = importlib.import_module("nialint.rules." + modname)
    res = Result()
    res.add("bundled alternatives analysed" if var else "algorithm classes analysed")
    ctx.driver.variant = var
    if var:
        name = "%s(%s)" % (name, ", ".join("%s=%s" % (k, f.name) for k, f in var.items()))
    try:
        rule.check_class(ctx, ci, res)
    except RecursionError:
        res.undec("%s: analysis depth exceeded" % name)
    except Exception as e:      # an analyser limitation is never an alarm
        if os.environ.get("NIALINT_DEBUG"):
            raise
        res.undec("%s: analysis error %s: %s" % (name, type(e).__name__, e))
    finally:
        ctx.driver.variant = {}
    return res


def run_classes(ctx, modname, res, variants=True):
    """apply rules.<modname>.check_class(ctx, ci, res) to every exported algorithm, in its default configuration and (variants) with each
    bundled alternative of an option the default of which is a bundled function; the thorough tier varies inherited options too"""
    _G["ctx"], _G["algs"] = ctx, ctx.algorithms()
    jobs = [(modname, i, v) for i in range(len(_G["algs"]))
            for v in [{}] + (ctx.driver.variants(_G["algs"][i][2], ctx.tier == "thorough") if variants else [])]
    n = min(8, os.cpu_count() or 1)
    only = os.environ.get("NIALINT_ONLY")
    if only:
        jobs = [(m, i, v) for m, i, v in jobs if _G["algs"][i][1] in only.split(",")]
    if n > 1 and len(jobs) > 1:
        with multiprocessing.get_context("fork").Pool(n) as pool:
            parts = pool.map(_work, jobs, chunksize=1)
    else:
        parts = [_work(j) for j in jobs]
    for p in parts:
        res.merge(p)
    return res
