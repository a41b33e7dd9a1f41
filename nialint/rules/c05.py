"""C05 the reported best point is the one that produced the reported best fitness."""
from .. import bestfold, localsearch
from ..base import run_classes
from ..bestpair import decide, explain
from .. import terms as t

RULE = ("The summary of get_best is folded over the orderings of a few fitness values. " "The bundled local searches an algorithm is given in a tuple are decided the same way, one call each. " "Abstract interpretation of run() of every exported algorithm to value-number terms with object identities (in-place writes are visible through every "
        "alias and view). For the pair (best point, best fitness) returned by an iteration and by run(), decide `fitness == objective(point)` by case "
        "split on every path condition, structural descent through selection/merge/indexing and induction over every loop including the loop of run(). "
        "A pair computed from different points on some path - including a best point that shares storage with an array written later - is a violation.")
ASSUMPTIONS = ["best fitness compared as the value the task returned for that very point", "user-supplied callables are not analysed",
               "whether two loop-carried arrays share storage inside an iteration is only used as evidence when certain"]


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    got = decide(R, "best")
    if not any(g[0] == "run_iteration" for g in got) or not any(g[0] == "run" for g in got):
        res.undec("%s: no best pair found" % ci.name)
    for where, X, F, v, P in got:
        res.add("best pairs decided", 1 if v != "U" else 0)
        res.add("proof obligations", P.n)
        if v == "T":
            res.add("best pairs proved consistent")
            res.sample("%s.%s: best fitness proved to be the objective of the best point in %d obligations" % (ci.name, where, P.n))
        elif v == "F":
            own = ci.find("run_iteration")
            a, b = P.why
            res.fail("best-mismatch", "%s" % (own.qual if own else ci.name,),
                     "best point and best fitness reported by %s (%s) belong to different points: point %s, fitness of %s" % (ci.name, where, t.show(a)[:200], t.show(b)[:200]),
                     own.where() if own else "", explain(P))
        else:
            res.undec("%s.%s: %s" % (ci.name, where, P.stuck[0][0] if P.stuck else "?"))


def check(ctx, res):
    run_classes(ctx, "c05", res)
    bestfold.report(ctx, res, ("mismatch",), "best-mismatch")
    localsearch.check(ctx, res, "best", "best-mismatch")
