"""C03 every evaluation is counted, none exceeds the budget."""
import ast

from .. import astq, taskspec
from ..base import run_classes
from .c04 import report

RULE = ("(1) The summary of Task.eval (gated value terms and guarded call events from abstract interpretation) is folded over every ordering of "
        "counters, limits, recorded best, target and objective value for both directions: the objective is invoked exactly once iff no criterion is "
        "met, the counter grows by exactly the number of invocations, and an evaluation after the end changes nothing and yields +inf. (2) No "
        "construct reached by any exported algorithm invokes Problem.evaluate/_evaluate other than through Task.eval, nor writes the task. (3) "
        "Program-wide query: no other function stores to the task's counters, limits or records.")
ASSUMPTIONS = ["the objective itself does not touch the task"]
FIELDS = {"evals", "iters", "max_evals", "max_iters", "x_f", "cutoff_value", "n_evals", "fitness_evals", "fitness_iters"}


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    st = R.st_ctor.heap[R.task.oid]
    own = {v.oid: k for k, v in st.attrs.items() if hasattr(v, "oid") and k in FIELDS}
    for e in R.events[len(R.ctor_events):]:
        if e.kind == "eval":
            res.add("evaluation requests through the task")
        elif e.kind == "raw_objective":
            fn = e.stack[-1][0] if e.stack else "?"
            res.fail("bypass", fn, "%s invokes the objective without going through Task.eval" % ci.name, e.where(), e.stack)
        elif e.kind == "attr_write" and e.data["oid"] == R.task.oid:
            fn = e.stack[-1][0] if e.stack else "?"
            if not fn.startswith("Task."):
                res.fail("task-write", "%s:%s" % (fn, e.data["name"]), "task.%s is written by %s" % (e.data["name"], ci.name), e.where(), e.stack)
        elif e.kind == "mutate" and e.data["oid"] in own:
            fn = e.stack[-1][0] if e.stack else "?"
            if not fn.startswith("Task."):
                res.fail("task-write", "%s:%s" % (fn, own[e.data["oid"]]), "task.%s is changed by %s" % (own[e.data["oid"]], ci.name), e.where(), e.stack)


def stores(prog, res):
    for m, q, fn in astq.functions(prog):
        if q.startswith("Task.") and m.name == "niapy.task":
            continue
        res.add("functions scanned for stores to task fields")
        selfname = fn.args.args[0].arg if fn.args.args else None
        for n in astq.own_nodes(fn):
            tgts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for tg in tgts:
                for x in ast.walk(tg):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in FIELDS:
                        b = astq.dotted(x.value) or ""
                        if b.split(".")[-1] == "task" or b.endswith("_task"):
                            res.fail("task-write", "%s:%s" % (q, x.attr), "task.%s is assigned outside the task" % x.attr, "%s:%d (%s)" % (m.relpath, n.lineno, q))


def check(ctx, res):
    for opt in ("MINIMIZATION", "MAXIMIZATION"):
        w = taskspec.eval_summary(ctx.driver, opt)
        d, u, n = taskspec.check_eval(w)
        report(res, "task-contract", opt, d, u, n, "Task.eval", {"calls", "return", "evals", "iters", "max_evals", "max_iters", "x_f", "point", "argument"})
        res.add("objective call sites in Task.eval", sum(1 for e in w.events if e.kind == "raw_objective"))
    stores(ctx.prog, res)
    run_classes(ctx, "c03", res)
