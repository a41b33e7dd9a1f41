"""C22 a population and its fitness values stay aligned."""
from .. import localsearch
from ..base import run_classes
from ..bestpair import decide, explain
from .. import terms as t

RULE = ("The bundled local searches an algorithm is given in a tuple are decided the same way, one call each. " "Abstract interpretation of run() of every exported algorithm to value-number terms with object identities. For the (population, fitness) pair "
        "returned by initialization and by every iteration decide, element by element, `fitness[i] == objective(population[i])` (or the worst value): case "
        "split on path and row-wise conditions, the same index/permutation/mask/concatenation must be applied to both, writes must hit the same position of "
        "both, induction over every loop including the loop of run(). A pair of entries computed from different points on some path is a violation.")
ASSUMPTIONS = ["an entry holding the worst possible value is consistent with any point", "user-supplied callables are not analysed"]


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    got = decide(R, "pop")
    if not any(g[0] == "run_iteration" for g in got) or not any(g[0] == "init_population" for g in got):
        res.undec("%s: no population found" % ci.name)
    for where, X, F, v, P in got:
        res.add("populations decided", 1 if v != "U" else 0)
        res.add("proof obligations", P.n)
        if v == "T":
            res.add("populations proved consistent")
            res.sample("%s.%s: every fitness entry proved to be the objective of its member in %d obligations" % (ci.name, where, P.n))
        elif v == "F":
            own = ci.find(where)
            a, b = P.why
            res.fail("misaligned", "%s" % (own.qual if own else ci.name,),
                     "population and fitness carried by %s.%s disagree: point %s, fitness of %s" % (ci.name, where, t.show(a)[:200], t.show(b)[:200]),
                     own.where() if own else "", explain(P))
        else:
            res.undec("%s.%s: %s" % (ci.name, where, P.stuck[0][0] if P.stuck else "?"))


def check(ctx, res):
    run_classes(ctx, "c22", res)
    localsearch.check(ctx, res, "pop", "misaligned")
