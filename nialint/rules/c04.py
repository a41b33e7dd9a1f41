"""C04 a run stops on exactly the configured criteria."""
from .. import runspec, taskspec
from ..base import run_classes

RULE = ("(1) Summaries of Task.__init__, stopping_condition and next_iter (gated value terms from abstract interpretation) are folded over every "
        "ordering of the quantities they compare (evals/max_evals, iters/max_iters, recorded best/target, both directions) and must equal the contract. "
        "(2) Typestate analysis of every run() implementation: an iteration may start only in a state where the criteria were tested and found unmet "
        "since the previous iteration, must be counted exactly once, and the run may return normally only after a test found a criterion met. "
        "(3) No initialization or iteration of any exported algorithm advances the iteration counter or writes the task.")
ASSUMPTIONS = ["counters are non-negative integers, limits and values are reals or infinities (NaN excluded)", "callbacks do not touch the task"]
ASPECTS = {"stop", "effect", "evals", "iters", "max_evals", "max_iters", "cutoff_value", "x_f"}


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    for e in R.events[len(R.ctor_events):]:
        if e.kind == "next_iter":
            res.add("next_iter calls located")
            inner = [f for f, _ in e.stack if f.split(".")[-1] in ("run_iteration", "init_population")]
            if inner:
                fn = e.stack[-1][0]
                res.fail("extra-count", fn, "the iteration counter is advanced inside %s of %s" % (inner[0], ci.name), e.where(), e.stack)
        elif e.kind == "attr_write" and e.data["oid"] == R.task.oid:
            fn = e.stack[-1][0] if e.stack else "?"
            if not fn.startswith("Task.") and e.data["name"] in ("iters", "evals", "max_iters", "max_evals", "cutoff_value", "x_f"):
                res.fail("task-write", "%s:%s" % (fn, e.data["name"]), "task.%s is written by %s" % (e.data["name"], ci.name), e.where(), e.stack)


def report(res, rule, opt, diffs, unk, n, what, only=None):
    res.add("orderings folded", n)
    for k, d in diffs.items():
        if only is None or k.split(" ")[0] in only:
            res.fail(rule, "%s:%s" % (what, k), "%s for %s: %s should be %s, is %s%s" % (what, opt.lower(), d.what, d.expected, d.got, " when " + taskspec.describe(d.d) if d.d else ""), "src/niapy/task.py (%s)" % what)
    for u in unk:
        res.undec("%s %s: %s" % (what, opt, u))


def check(ctx, res):
    for opt in ("MINIMIZATION", "MAXIMIZATION"):
        report(res, "task-contract", opt, *taskspec.check_stop(ctx.driver, opt), "Task.stopping_condition")
        report(res, "task-contract", opt, *taskspec.check_next(ctx.driver, opt), "Task.next_iter", {"iters", "evals", "max_evals", "max_iters", "cutoff_value", "x_f"})
        report(res, "task-contract", opt, *taskspec.check_ctor(ctx.driver, opt), "Task.__init__", {"evals", "iters", "max_evals", "max_iters", "cutoff_value", "x_f"})
    for fi, cis in runspec.groups(ctx.driver).items():
        for bare in (False, True):
            A = runspec.analyse(ctx.driver, cis[0], bare=bare)
            res.add("run() implementations")
            res.add("protocol events", sum(1 for e in A.events if e.kind == "protocol"))
            kinds = {e.data["what"] for e in A.events if e.kind == "protocol"}
            if not {"stop", "iter", "next", "init"} <= kinds:
                miss = {"stop", "iter", "next", "init"} - kinds
                res.fail("protocol", "%s:missing" % fi.qual, "run() never performs %s" % ", ".join(sorted(miss)), runspec.where(A, None, fi.node))
            for (kind, msg), (node, f) in A.proto.bad.items():
                if kind != "callback":
                    res.fail("protocol", "%s:%s" % (fi.qual, msg), msg, runspec.where(A, f, node))
            if not [r for r in A.rets if r[0] - {"EXC"}]:
                res.undec("%s: no normal return found" % fi.qual)
    run_classes(ctx, "c04", res)
