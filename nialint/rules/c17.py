"""C17 running an algorithm never changes the task's problem or bounds."""
from ..base import run_classes
from ..driver import LO, UP, PROB

RULE = ("Abstract interpretation of run() of every exported algorithm with object identities: the arrays of the problem's bounds, the task's range, "
        "the problem and the task are distinct abstract objects; views, aliases through assignment, attributes, state records and helper calls keep "
        "the identity. No store, augmented assignment, in-place method, `out=` argument or attribute assignment reached by a run may target one of "
        "them, except the task's own bookkeeping inside Task.eval/next_iter.")
ASSUMPTIONS = ["bound repair writes only into the point it is given", "user-supplied callables do not write to the task"]


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    n0 = len(R.ctor_events)
    st = R.st_ctor
    task = st.heap[R.task.oid]
    prot = {LO: "the lower bounds", UP: "the upper bounds", PROB: "the problem", R.task.oid: "the task"}
    for k, v in task.attrs.items():
        if hasattr(v, "oid"):
            prot.setdefault(v.oid, "task." + k)
    for e in R.events[n0:]:
        if e.kind in ("mutate", "attr_write", "dict_set"):
            res.add("writes analysed")
            oid = e.data["oid"]
            if oid in prot:
                fn = e.stack[-1][0] if e.stack else "?"
                if e.kind == "attr_write" and fn.startswith("Task."):
                    continue
                what = prot[oid] + ("." + e.data["name"] if e.kind == "attr_write" else "")
                res.fail("protected-write", "%s:%s" % (fn, what), "%s changed during a run of %s (%s)" % (what, ci.name, e.data.get("how", "assignment")), e.where(), e.stack)
    # final state
    end = R.final[0] if R.final else None
    if end is not None and not end.dead:
        for oid in (LO, UP):
            res.add("bound arrays compared before/after")
            a, b = st.heap.get(oid), end.heap.get(oid)
            if b is not None and a != b and getattr(a, "term", None) is not getattr(b, "term", None):
                res.fail("bounds-differ", "%s:%s" % (ci.name, prot[oid]), "%s after the run differ from the configured ones" % prot[oid], ci.module.relpath)
    res.add("functions interpreted", len(R.I.nfn))


def check(ctx, res):
    run_classes(ctx, "c17", res)
