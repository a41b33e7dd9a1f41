"""C19 the recorded convergence history is faithful."""
from .. import linear, taskspec, terms as t
from ..interp import S, Tup, Ref, Lst
from .c04 import report

RULE = ("(1) The summary of Task.eval is folded over every ordering of counters, limits, recorded best, target and objective value (NaN included), both "
        "directions: n_evals and fitness_evals grow by exactly (evaluation number, objective value in the problem's direction) iff the value strictly "
        "improves; Task.next_iter appends the best value exactly once; a new task owns three distinct empty logs. (2) Element-wise provenance of both "
        "curves of convergence_data: the iteration curve is (0..iters-1, fitness_iters); each point of the evaluation curve pairs n_evals[i] (plus the "
        "offsets up to n_evals[i+1]) with fitness_evals at the same i. (3) Nothing else writes the three logs (program-wide query, see C03).")
ASSUMPTIONS = ["curve constructions outside the append/comprehension shapes the term domain expresses are reported as undecided"]
LOGS = ("n_evals", "fitness_evals", "fitness_iters")


def syms(x, follow=True):
    out, seen, todo = set(), set(), [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "sym" and str(y.args[0]).startswith("@"):
            out.add(str(y.args[0])[1:])
        todo += [a for a in y.args if isinstance(a, t.T)]
        if follow and y in t.DEFS:
            todo += t.DEFS[y]
    return out


def values(x, seen=None):
    """values only: conditions of phi terms do not count"""
    seen = set() if seen is None else seen
    if x in seen:
        return set()
    seen.add(x)
    if x.op == "sym" and str(x.args[0]).startswith("@"):
        return {str(x.args[0])[1:]}
    args = [a for a in x.args if isinstance(a, t.T)]
    if x.op == "phi":
        args = args[1:]
    if x.op == "row":
        args = args[:1]
    if x.op == "call" and x.args[0] == "len":
        args = []
    out = set()
    for a in args + list(t.DEFS.get(x, ())):
        out |= values(a, seen)
    return out


class Shape(Exception):
    pass


def pairs(x, y, out, seen):
    """walk two list terms in parallel"""
    if (x, y) in seen:
        return
    seen.add((x, y))
    if x.op == "phi" and y.op == "phi" and x.args[0] is y.args[0]:
        pairs(x.args[1], y.args[1], out, seen)
        pairs(x.args[2], y.args[2], out, seen)
        return
    if x.op == "cat" and y.op == "cat" and len(x.args) == len(y.args):
        for a, b in zip(x.args, y.args):
            pairs(a, b, out, seen)
        return
    if x.op == "list" and y.op == "list" and len(x.args) == len(y.args):
        for a, b in zip(x.args, y.args):
            out.append((a, b, None, None))
        return
    if x.op in ("map", "rept") and y.op in ("map", "rept"):
        bx, by = x.args[-1] if x.op == "map" else x.args[0], y.args[-1] if y.op == "map" else y.args[0]
        if not isinstance(bx, t.T) or not isinstance(by, t.T):
            raise Shape()
        out.append((bx, by, x.org, y.org))
        return
    if x.op == "lphi" and y.op == "lphi" and x in t.DEFS and y in t.DEFS:
        for a, b in zip(t.DEFS[x], t.DEFS[y]):
            pairs(a, b, out, seen)
        return
    if x.op == "sym" and y.op == "sym":
        out.append((x, y, None, None))
        return
    raise Shape()


def curve(ctx, axis):
    w = taskspec.world(ctx.driver, "MINIMIZATION")
    taskspec.make_task(w)
    taskspec.generalise(w)
    rv = w.I.call_method(w.st, w.task, "convergence_data", [S(t.const(axis))], {}, w.node)
    if w.st.dead or not isinstance(rv, Tup) or len(rv.items) != 2:
        return w, None
    return w, [w.I.content(w.st, v) for v in rv.items]


W = "src/niapy/task.py (Task.convergence_data)"


def check_curves(ctx, res):
    w, c = curve(ctx, "iters")
    if c is None:
        res.undec("convergence_data('iters'): result shape")
    else:
        x, y = c
        res.add("curves traced", 2)
        log = {n: s for n, (o, s) in w.logs.items()}
        bad = values(y) - {"fitness_iters"}
        if bad & {"fitness_evals", "n_evals", "iters", "evals"}:
            res.fail("curve", "iters:y", "the per-iteration curve shows %s" % ", ".join(sorted(bad)), W)
        elif y is not log.get("fitness_iters"):
            if changes(y, log.get("fitness_iters")):
                res.fail("curve", "iters:y", "the per-iteration curve shows %s instead of the per-iteration record" % t.show(y)[:60], W)
            elif y.top or "fitness_iters" in values(y):
                res.undec("per-iteration curve: values")
            else:
                res.fail("curve", "iters:y", "the per-iteration curve is not the per-iteration record", W)
        if values(x) & {"fitness_iters", "fitness_evals", "x_f"}:
            res.fail("curve", "iters:x", "the iteration axis shows fitness values", W)
        elif values(x) & {"n_evals", "evals"}:
            res.fail("curve", "iters:x", "the iteration axis shows evaluation numbers", W)
        n = length_of(x)
        if n is None:
            res.undec("per-iteration curve: length of the axis")
        else:
            a, k = linear.lin(n)
            a = {z: v for z, v in a.items()}
            ok = False
            for z, v in a.items():
                if len(a) == 1 and v == 1 and k == 0 and (z is w.sym.get("iters") or z is t.call("len", log.get("fitness_iters")) or z.op == "call" and z.args[0] == "len" and z.args[1] is log.get("fitness_iters")):
                    ok = True
            if not ok and not n.top:
                res.fail("curve", "iters:length", "the iteration axis has %s entries, the record one per iteration" % t.show(n)[:60], W)
    w, c = curve(ctx, "evals")
    if c is None:
        res.undec("convergence_data('evals'): result shape")
        return
    x, y = c
    vx, vy = values(x), values(y)
    if vx & {"fitness_iters", "fitness_evals", "x_f", "iters"}:
        res.fail("curve", "evals:x", "the evaluation axis shows %s" % ", ".join(sorted(vx - {"n_evals"})), W)
    if vy & {"fitness_iters", "n_evals", "iters", "evals"}:
        res.fail("curve", "evals:y", "the evaluation curve shows %s" % ", ".join(sorted(vy - {"fitness_evals"})), W)
    N, F = w.logs.get("n_evals", (0, None))[1], w.logs.get("fitness_evals", (0, None))[1]
    out = []
    try:
        pairs(x, y, out, set())
    except Shape:
        res.undec("evaluation curve: construction not in the append form")
        return
    for a, b, la, lb in out:
        res.add("curve points traced")
        if a is N and b is F:
            continue
        if b.op == "row" and b.args[0] is F:
            i = b.args[1]
            f, k = linear.lin(a)
            base = [z for z in f if z.op == "row" and z.args[0] is N]
            if len(base) != 1 or f[base[0]] != 1:
                res.undec("evaluation curve: point %s" % t.show(a)[:60])
                continue
            j = base[0].args[1]
            if linear.diff(i, j) != ({}, 0):
                res.fail("curve", "evals:index", "the value at index %s is drawn at the evaluation number of index %s" % (t.show(i)[:40], t.show(j)[:40]), W)
                continue
            rest = {z: v for z, v in f.items() if z is not base[0]}
            if la is None and lb is None:
                if rest or k:
                    if not rest:
                        res.fail("curve", "evals:offset", "an improvement is drawn %+d evaluations away from where it happened" % k, W)
                    else:
                        res.undec("evaluation curve: offset %s" % t.show(a)[:60])
                continue
            # filler between two improvements
            if la is not lb and (la is None or lb is None or linear.diff(la, lb) != ({}, 0)):
                res.undec("evaluation curve: filler lengths")
                continue
            if list(rest.values()) == [1] and k != 1:
                res.fail("curve", "evals:filler", "values between two improvements start %+d after the improvement instead of +1" % k, W)
            if la is not None:
                g, c0 = linear.lin(la)
                nxt = t.row(N, t.bin_("+", i, t.const(1)))
                cur = t.row(N, i)
                if set(g) == {nxt, cur} and g[nxt] == 1 and g[cur] == -1:
                    if c0 != -1:
                        res.fail("curve", "evals:filler", "the stretch between two improvements has %+d points too many" % (c0 + 1), W)
                elif g and all(z.op == "row" and z.args[0] is N for z in g):
                    res.fail("curve", "evals:filler", "the stretch between two improvements has %s points instead of n_evals[i+1] - n_evals[i] - 1" % t.show(la)[:80], W)
        else:
            res.undec("evaluation curve: value %s" % t.show(b)[:60])


CHANGING = ("minimum.accumulate", "maximum.accumulate", "cumsum", "sort", "sorted", "flip", "reversed", "diff", "abs", "cummin", "unique", "round", "trunc", "floor",
            "roll", "cumprod", "gradient", "convolve")


def changes(y, log):
    """the record seen through an operation that does not preserve it"""
    if y.op in ("bin", "un"):
        return any(isinstance(a, t.T) and (a is log or changes(a, log)) for a in y.args)
    if y.op == "call" and isinstance(y.args[0], str) and y.args[0].replace("np.", "").replace("numpy.", "") in CHANGING:
        return any(a is log for a in y.args[1:])
    return y.op == "phi" and any(changes(a, log) for a in y.args[1:])


def length_of(x):
    if x.op == "call" and x.args[0] == "arange":
        a = [y for y in x.args[1:] if isinstance(y, t.T)]
        if len(a) == 1:
            return a[0]
        if len(a) == 2:
            return t.bin_("-", a[1], a[0])
        return None
    return t.length(x)


def check(ctx, res):
    for opt in ("MINIMIZATION", "MAXIMIZATION"):
        d, u, n = taskspec.check_eval(taskspec.eval_summary(ctx.driver, opt))
        report(res, "task-contract", opt, d, {x for x in u if x.split(":")[0] in LOGS + ("x_f",)}, n, "Task.eval", set(LOGS) | {"x_f"})
        report(res, "task-contract", opt, *taskspec.check_next(ctx.driver, opt), "Task.next_iter", set(LOGS) | {"x_f"})
        d, u, n = taskspec.check_ctor(ctx.driver, opt)
        report(res, "task-contract", opt, d, {x for x in u if "log" in x}, n, "Task.__init__", set(LOGS))
    from .c03 import stores
    stores(ctx.prog, res)
    check_curves(ctx, res)
