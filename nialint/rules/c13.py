"""C13 maximization and minimization are exact mirror images."""
from .. import order, runspec, taskspec, terms as t
from ..base import run_classes
from .c04 import report

RULE = ("(1) Summaries of Task.__init__, eval, stopping_condition and next_iter are extracted for each direction and folded over every ordering of "
        "their operands: both must equal the one contract with the direction sign applied exactly once inward (value returned to algorithms) and "
        "exactly once outward (recorded best, target). (2) The fitness returned by every run() implementation is folded for both directions: the "
        "internal best times the sign, once. (3) No initialization, iteration or best-selection code of any exported algorithm, nor an Individual, "
        "reads the direction or any direction-dependent record of the task.")
ASSUMPTIONS = ["the objective itself does not depend on the direction"]


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    for e in R.events[len(R.ctor_events):]:
        if e.kind == "task_read":
            names = [f.split(".")[-1] for f, _ in e.stack]
            if e.stack and e.stack[-1][0].startswith("Task."):
                continue
            res.add("reads of direction-dependent task fields located")
            if {"run_iteration", "init_population", "get_best"} & set(names):
                fn = e.stack[-1][0]
                res.fail("direction-read", "%s:%s" % (fn, e.data["name"]), "%s depends on the direction: it reads task.%s (analysing %s)" % (fn, e.data["name"], ci.name), e.where(), e.stack)
    res.add("functions interpreted", len(R.I.nfn))


def check(ctx, res):
    for opt in ("MINIMIZATION", "MAXIMIZATION"):
        v = 1.0 if opt == "MINIMIZATION" else -1.0
        report(res, "mirror", opt, *taskspec.check_eval(taskspec.eval_summary(ctx.driver, opt)), "Task.eval", {"return", "x_f", "fitness_evals"})
        report(res, "mirror", opt, *taskspec.check_stop(ctx.driver, opt), "Task.stopping_condition")
        report(res, "mirror", opt, *taskspec.check_next(ctx.driver, opt), "Task.next_iter", {"x_f", "fitness_iters"})
        report(res, "mirror", opt, *taskspec.check_ctor(ctx.driver, opt), "Task.__init__", {"cutoff_value", "x_f"})
        for fi, cis in runspec.groups(ctx.driver).items():
            A = runspec.analyse(ctx.driver, cis[0], opt)
            res.add("returned fitness values folded")
            for gh, pc, its, ex, val in A.rets:
                if not (gh - {"EXC"}):
                    continue
                if its is None or len(its) != 2:
                    res.undec("%s: returned value" % fi.qual)
                    continue
                for z in (3.0, -2.0, 0.0, 1e-12, -1e30, float("inf"), float("-inf")):
                    env = {}
                    for s in alls(its[1]):
                        if s.op == "sym" and str(s.args[0]).startswith("fxb:"):
                            env[s] = z
                        elif s.op == "sym" and str(s.args[0]).startswith(("xb:", "pop:", "fpop:", "state:")):
                            env[s] = ("other", str(s.args[0]))
                    try:
                        got = order.ev(its[1], env)
                    except order.Unknown as u:
                        res.undec("%s: returned fitness (%s)" % (fi.qual, u))
                        break
                    if not order.same(got, z * v):
                        res.fail("mirror", "%s:return" % fi.qual, "the returned fitness is %s for an internal best of %s under %s, expected %s" % (got, z, opt.lower(), z * v), runspec.where(A, None, fi.node))
                        break
    run_classes(ctx, "c13", res)


def alls(x):
    out, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y in out:
            continue
        out.add(y)
        todo += [a for a in y.args if isinstance(a, t.T)] + list(t.DEFS.get(y, ()))
    return out
