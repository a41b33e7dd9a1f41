"""C07 no evaluated solution is ignored when the best is reported."""
import ast

from .. import bestfold, terms as t
from ..base import run_classes
from ..bestpair import Outer
from ..driver import Driver
from ..heard import Heard
from ..interp import BOT, Bot, Obj, Ref, S, State, Tup, vleaves

RULE = ("The summary of get_best is folded over the orderings of a few fitness values. " "Abstract interpretation of run() of every exported algorithm in which every evaluation returns a value marked with its call path. An over-approximation "
        "of the values that can end up as the best fitness reported by the step (values of merges, array entries, minima, loops inside the iteration; not "
        "the conditions that select between them) must contain the mark of every evaluation made in that step; an evaluation whose result only decides "
        "which points are evaluated again in the same step is covered by those. A call path whose value cannot reach the reported best is a violation.")
ASSUMPTIONS = ["the objective is deterministic", "whether the best of several candidates wins is decided by C06"]
STEPS = ("init_population", "run_iteration")


class SiteDriver(Driver):
    """the result of an evaluation is its call path"""

    def prims(self):
        p = super().prims()
        self.sites = {}

        def p_eval(I, st, b, node):
            x = b.get("x")
            if x is None or isinstance(x, Bot):
                return BOT
            k = tuple((f.qual, (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))) for f, n in I.stack[1:]) + ((getattr(node, "lineno", 0), getattr(node, "col_offset", 0)), (I.ctxid(),))
            n = self.sites.setdefault(k, len(self.sites))
            I.ev("eval", node, x=x, c=I.content(st, x), site=n, pc=st.pc)
            return S(t.E(1, mark(n)))
        p[("niapy.task", "Task.eval")] = p_eval
        return p


def mark(n):
    return t.sym("site:%d" % n, nd=1)


def kids(y, full):
    a = [z for z in y.args if isinstance(z, t.T)]
    if full:
        return a
    if y.op == "phi":
        return a[1:]
    if y.op == "row":
        return a[:1]
    if y.op == "upd":
        return [a[0], a[-1]]
    if y.op == "cmp":
        return []
    return a


def cone(roots, o, full=False):
    seen, todo = set(), list(roots)
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        todo.extend(kids(y, full))
        if y.op == "lphi" and y in t.DEFS and not o.lphi(y):
            todo.extend(t.DEFS[y])
    return seen


PASS = ("phi", "lphi", "row", "upd", "map", "cat", "list", "rept", "chk", "copy", "rep", "fld", "col", "ind")


def ways(c, o):
    """values that may be the one evaluated, unchanged"""
    seen, todo = set(), [t.strip(c)]
    while todo:
        y = t.strip(todo.pop())
        if y in seen:
            continue
        seen.add(y)
        if y.op in PASS and not (y.op == "upd" and y.nd == 1):
            todo.extend(kids(y, False))
        if y.op == "lphi" and y in t.DEFS and not o.lphi(y):
            todo.extend(t.DEFS[y])
    return seen


def bases(c):
    """the point evaluated, or the array of which it is a row"""
    c = t.strip(c)
    out = [c]
    while c.op in ("row", "rep", "chk"):
        c = t.strip(c.args[0])
        out.append(c)
    return out


def marks(c):
    return {int(y.args[0][5:]) for y in c if y.op == "sym" and str(y.args[0]).startswith("site:")}


def check_class(ctx, ci, res):
    d = SiteDriver(ctx.prog)
    R = d.run_class(ci)
    I = R.I
    name = ci.name
    if R.final is None:
        res.undec("%s: run() not analysed" % name)
        return
    o = Outer(I)
    ev = R.events[len(R.ctor_events):]
    args, objs, node = {}, set(), {}
    for e in ev:
        if e.kind == "eval":
            args.setdefault(e.data["site"], []).append(e)
            node[e.data["site"]] = e
        elif e.kind == "attr_write" and e.data["name"] != "f" and e.data["oid"] not in (R.alg.oid, R.task.oid) and isinstance(e.data["val"], S):
            objs |= marks(cone([e.data["val"].t], o, True))
    it = [e for e in ev if e.kind == "ret_run_iteration"]
    if not it:
        res.undec("%s: no iteration found" % name)
        return
    e = it[-1]
    st = State()
    st.heap = e.data["heap"]
    roots = {"run_iteration": [], "init_population": []}
    for l in vleaves(e.data["rv"]):
        if isinstance(l, Tup) and len(l.items) >= 4:
            roots["run_iteration"].append(t.strip(I.content(st, l.items[3])))
    vals = list(e.data["bound"].values())
    if len(vals) > 5:
        B = t.strip(I.content(st, vals[5]))
        for y in cone([B], o):
            if y.op == "lphi" and o.lphi(y) and y in t.DEFS:
                roots["init_population"].append(t.DEFS[y][0])
    for step in STEPS:
        here = {n: k for k, n in d.sites.items() if any(isinstance(q[0], str) and q[0].split(".")[-1] == step for q in k)}
        if not here:
            continue
        if not roots[step]:
            res.undec("%s.%s: reported best not found" % (name, step))
            continue
        C = cone(roots[step], o)
        got = heard = marks(C)
        points = {n: [z for e in es for z in bases(e.data["c"])] for n, es in args.items()}
        seen_at = {n: [ways(e.data["c"], o) for e in es] for n, es in args.items()}
        again = lambda ws, c: c in ws
        while True:     # points picked by their fitness and evaluated again
            more = {n for n in args if n not in heard and any(again(x, c) for m in heard for x in seen_at[m] for c in points[n])}
            if more <= heard:
                break
            heard = heard | more
        paths = {k[:-1] for n, k in d.sites.items() if n in heard}
        unk = any(y.top for y in C)
        for n, k in here.items():
            res.add("evaluation call paths checked")
            if n in heard:
                res.add("reach the reported best" if n in got else "decide what is evaluated again")
                if n in got:
                    lost(R, ci, name, step, n, k, node[n], roots[step], o, res)
                continue
            if k[:-1] in paths:
                continue        # the same call, interpreted in another context
            x = node[n]
            fn = x.stack[-1][0] if x.stack else name
            own = ci.find(step)
            if unk or n in objs:
                res.undec("%s.%s: evaluation in %s" % (name, step, fn))
                continue
            via = path(k, step)
            res.fail("ignored", "%s:%s" % (" > ".join(via), ast.unparse(x.node)[:60]), "%s: the fitness evaluated in %s never takes part in the best reported by this step" % (name, " > ".join(via)), x.where(), x.stack)


def path(k, step):
    via = [q[0] for q in k if isinstance(q[0], str)]
    return via[[v.split(".")[-1] for v in via].index(step):]


def chance(pc):
    """conditions that nothing but a random draw of their own, an option or the progress of the run decides"""
    used = {y for c, _ in pc for y in t.leaves(c) if y.op == "draw"}

    def f(c):
        if c.op != "cmp":
            return False
        at = [y for y in t.leaves(c) if not any(isinstance(a, t.T) for a in y.args) or y.op in ("draw", "lphi", "E")]
        if any(y in used for y in at):
            return False
        if any(z.op == "draw" and z.nd in (0, None) for z in c.args[1:]):
            return True
        return all(t.is_const(y) or y.op == "sym" and str(y.args[0]).startswith(("cfg.", "iters(", "evals(", "max_")) for y in at) and any(y.op == "sym" for y in at)
    return f


def lost(R, ci, name, step, n, k, x, roots, o, res):
    """the result is dropped on some path even if it is the best value ever seen"""
    if len(roots) != 1:
        res.undec("%s.%s: several results" % (name, step))
        return
    H = Heard(o, n, x.data["pc"], chance(x.data["pc"]))
    try:
        v = H.val(roots[0])
    except RecursionError:
        v = "U"
    via = path(k, step)
    if v == "K":
        res.add("proved to win if best")
    elif v in ("P", "N"):
        res.fail("lost", "%s:%s" % (" > ".join(via), ast.unparse(x.node)[:60]), "%s: the fitness evaluated in %s is dropped even if it is the best (%s)" % (
            name, " > ".join(via), "depending on " + t.show(H.why)[:120] if H.why is not None else v), x.where(), x.stack)
    else:
        res.add("not decided whether it wins if best")


def check(ctx, res):
    run_classes(ctx, "c07", res)
    bestfold.report(ctx, res, ("lost",), "ignored")
    bestfold.initial(ctx, res, "ignored")
