"""C06 the best fitness never gets worse from one iteration to the next."""
from .. import bestfold, localsearch
from ..base import run_classes
from ..mono import decide
from .. import terms as t
from ..bestpair import cond

RULE = ("The summary of get_best is folded over the orderings of a few fitness values. " "The bundled local searches an algorithm is given in a tuple are decided the same way, one call each. " "Abstract interpretation of run() of every exported algorithm to value-number terms. For the best fitness F returned by one iteration and the "
        "incumbent B it was given decide F <= B: case split on every path condition with the order facts the path establishes, minima over collections, "
        "induction over the loops inside the iteration. A path that returns a newly evaluated value whose order to B nothing on the path establishes is a violation.")
ASSUMPTIONS = ["the objective is deterministic (an elitist member re-evaluated keeps its fitness)", "NaN fitness values are not considered",
               "user-supplied callables are not analysed"]


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    got = decide(R)
    if not got:
        res.undec("%s: no iteration result found" % ci.name)
    for F, v, M in got:
        res.add("iteration results decided", 1 if v != "U" else 0)
        res.add("proof obligations", M.n)
        own = ci.find("run_iteration")
        if v == "T":
            res.add("iteration results proved monotone")
            res.sample("%s.run_iteration: reported best <= incumbent in %d obligations" % (ci.name, M.n))
        elif v == "F":
            steps = [("loop at line %s, %s" % (z[1][1], "after at least one pass" if z[2] else "before the first pass")) if z[0] == "loop" else "%s is %s" % (cond(z[0]), z[1])
                     for z in reversed(M.trace)]
            res.fail("best-worsens", own.qual if own else ci.name,
                     "the best fitness reported by %s can be worse than the incumbent: it becomes %s, which is not compared with it" % (ci.name, t.show(M.why)[:200] if M.why is not None else "?"),
                     own.where() if own else "", steps)
        else:
            res.undec("%s: %s" % (ci.name, M.stuck[0][0] if M.stuck else "?"))


def check(ctx, res):
    run_classes(ctx, "c06", res)
    bestfold.report(ctx, res, ("worse",), "best-worsens")
    localsearch.check(ctx, res, "mono", "best-worsens")
