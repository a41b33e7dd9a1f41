"""Summaries of the Task methods, compared with their contract over the order abstraction."""
import ast
import itertools
import math

from . import order, terms as t
from .driver import LO, UP, PROB
from .interp import S, Ref, Lst, Obj, Arr, Fn, Interp, State, arr
from .loader import FuncInfo

INF = float("inf")
NAN = float("nan")


class W:
    """one Task in an arbitrary reachable state"""


def world(driver, opt):
    """Task built by its own constructor for direction `opt`, then generalised to an arbitrary intermediate state"""
    t.reset()
    t.NAN = True
    prog = driver.prog
    I = Interp(prog)
    I.indiv_cls = driver.indiv
    I.parents, I.lambdas = {}, {}
    w = W()
    w.raw = t.sym("RAW", nd=0)

    def p_obj(I, st, b, node):
        x = b.get("x")
        I.ev("raw_objective", node, x=x, c=I.content(st, x) if x is not None else None, pc=st.pc, loop=I.inloop)
        return S(w.raw)
    I.prims = {("niapy.problems.problem", "Problem.evaluate"): p_obj, ("niapy.problems.problem", "Problem._evaluate"): p_obj}
    st = State()
    I.shared_scan(st)
    D = t.sym("D", nd=0)
    t.LOWER.org = t.UPPER.org = D
    st.heap[LO], st.heap[UP] = arr(t.LOWER), arr(t.UPPER)
    st.heap[PROB] = Obj(driver.problem_cls, {"dimension": S(D), "lower": Ref(LO), "upper": Ref(UP)}, None, ())
    fi = FuncInfo("<driver>", ast.parse("def f(): pass").body[0], driver.task_cls.methods["eval"].module, None)
    I.stack.append((fi, fi.node))
    w.I, w.st = I, st
    w.node = ast.parse("Task()").body[0].value
    ot = prog.cls("niapy.task", "OptimizationType")
    from .interp import Cls
    w.opt = I.get_attr(st, Cls(ot), opt, w.node)
    w.v = {"MINIMIZATION": 1, "MAXIMIZATION": -1}[opt]
    w.task_cls = driver.task_cls
    return w


def make_task(w, **kw):
    full = {"problem": Ref(PROB), "optimization_type": w.opt}
    full.update(kw)
    w.task = w.I.instantiate(w.st, w.task_cls, [], full, w.node)
    return w.task


def generalise(w):
    """arbitrary counters, records and logs"""
    o = w.st.heap[w.task.oid]
    at = dict(o.attrs)
    w.sym = {}
    for n in ("evals", "iters", "x_f", "max_evals", "max_iters", "cutoff_value"):
        if n in at:
            w.sym[n] = t.sym("@" + n, nd=0)
            at[n] = S(w.sym[n])
    w.logs = {}
    for n in ("n_evals", "fitness_evals", "fitness_iters"):
        v = at.get(n)
        if isinstance(v, Ref) and isinstance(w.st.heap.get(v.oid), Lst):
            s = t.sym("@" + n, nd=1)
            w.logs[n] = (v.oid, s)
            w.st.heap[v.oid] = Lst(None, s, "num", None, None, ())
    if "enable_logging" in at:
        w.sym["enable_logging"] = t.sym("@enable_logging", nd=0)
        at["enable_logging"] = S(w.sym["enable_logging"])
    w.st.heap[w.task.oid] = o._replace(attrs=at)
    w.X = ("X",)
    w.xt = t.sym("@x", nd=1)
    w.st.heap[w.X] = arr(w.xt)


def attr(w, st, n):
    v = st.heap[w.task.oid].attrs.get(n)
    return None if v is None else w.I.content(st, v)


def valuations(w, raw=True):
    """representatives of every ordering of the quantities a stopping or improvement test can compare"""
    v = w.v
    worst = INF * v
    for ev_, me in ((0, INF), (0, 1), (0, 0), (4, INF), (4, 9), (4, 5), (4, 4), (4, 3), (4 * 10 ** 9, INF)):
        for it, mi in ((0, INF), (0, 1), (0, 0), (7, INF), (7, 8), (7, 7), (7, 6), (7 * 10 ** 9, INF)):
            for xf in (worst, 1.5, -2.5, 0.0):
                for cut in (-INF * v, -7.0, -2.5, 0.0, 1.5, 1.5 + 1e-9, 1.5 - 1e-9, 3.0):
                    if not raw:
                        yield dict(evals=ev_, max_evals=me, iters=it, max_iters=mi, x_f=xf, cutoff_value=cut)
                        continue
                    for r in (-9.0, -2.5, 0.0, 1.0, 1.5, 1.5 - 1e-12, 1.5 + 1e-12, 4.0, NAN):
                        yield dict(evals=ev_, max_evals=me, iters=it, max_iters=mi, x_f=xf, cutoff_value=cut, RAW=r)


def env_of(w, d):
    e = {w.sym[n]: d[n] for n in w.sym if n in d}
    if "enable_logging" in w.sym:
        e[w.sym["enable_logging"]] = False
    if "RAW" in d:
        e[w.raw] = d["RAW"]
    for n, (oid, s) in w.logs.items():
        e[s] = ("#" + n,)
        e["len:" + n] = d["iters"] if n == "fitness_iters" else 0 if not d["evals"] or math.isinf(d["x_f"]) else d["evals"] // 2
    e["last:fitness_iters"] = d.get("last", 2.0)
    e["last:fitness_evals"] = d["x_f"]
    e["last:n_evals"] = d["evals"]
    return e


def stop_spec(w, d):
    return d["evals"] >= d["max_evals"] or d["iters"] >= d["max_iters"] or d["cutoff_value"] * w.v >= d["x_f"] * w.v


def describe(d):
    return ", ".join("%s=%s" % kv for kv in d.items())


class Diff:
    """a difference between summary and contract"""

    def __init__(self, what, expected, got, d):
        self.what, self.expected, self.got, self.d = what, expected, got, d


def fold(x, env, what, diffs, unk, expected, d):
    try:
        got = order.ev(x, env)
    except order.Unknown as e:
        unk.add("%s: %s" % (what, e))
        return
    if not order.same(got, expected):
        diffs.setdefault(what, Diff(what, expected, got, d))


def eval_summary(driver, opt):
    w = world(driver, opt)
    make_task(w)
    generalise(w)
    w.mark = len(w.I.events)
    st = w.st
    rv = w.I.call_method(st, w.task, "eval", [Ref(w.X)], {}, w.node)
    w.rv = w.I.content(st, rv)
    w.events = w.I.events[w.mark:]
    return w


def xpreds(w, roots):
    """yes/no questions about the evaluated point alone: an arbitrary point may answer them either way"""
    out, seen = [], set()

    def only_x(y):
        ls = [z for z in t.leaves(y) if not t.is_const(z) and not any(isinstance(a, t.T) for a in z.args)]
        return bool(ls) and all(z is w.xt for z in ls) and not y.top
    def go(y):
        if y in seen:
            return
        seen.add(y)
        if y.op == "cmp" and y.args[0] in ("<", "<=", "==") or y.op == "call" and y.args[0] in ("all", "any", "isnan", "isfinite", "isinf", "allclose", "np.all", "np.any"):
            if only_x(y):
                out.append(y)
                return
        for a in y.args:
            if isinstance(a, t.T):
                go(a)
    for r in roots:
        go(r)
    return out[:4]


def check_eval(w):
    """Task.eval against its contract -> (diffs by aspect, unknown aspects, number of orderings)"""
    st = w.st
    diffs, unk, n = {}, set(), 0
    after = {k: attr(w, st, k) for k in w.sym}
    logs = {k: w.I.content(st, Ref(oid)) for k, (oid, s) in w.logs.items()}
    calls = [e for e in w.events if e.kind == "raw_objective"]
    for e in calls:
        if e.data["loop"]:
            unk.add("objective invoked inside a loop")
        if e.data["c"] is not w.xt:
            if e.data["c"] is not None and not e.data["c"].top and e.data["c"].op != "top":
                diffs.setdefault("point", Diff("the point handed to the objective", "the argument", t.show(e.data["c"])[:60], {}))
    xa = st.heap.get(w.X)
    if isinstance(xa, Arr) and xa.term is not w.xt:
        diffs.setdefault("argument", Diff("the evaluated point after evaluation", "unchanged", t.show(xa.term)[:60], {}))
    if st.dead:
        unk.add("every path raises")
        return diffs, unk, 0
    xp = xpreds(w, [w.rv] + [x for x in list(after.values()) + list(logs.values()) if x is not None] + [c for e in calls for c, _ in e.data["pc"]])
    for d, vals in ((d, vals) for d in valuations(w) for vals in itertools.product((True, False), repeat=len(xp))):
        n += 1
        env = env_of(w, d)
        env.update(zip(xp, vals))
        stop = stop_spec(w, d)
        better = not stop and d["RAW"] * w.v < d["x_f"] * w.v
        try:
            k = sum(1 for e in calls if order.holds(e.data["pc"], env))
            if k != (0 if stop else 1):
                diffs.setdefault("calls", Diff("number of objective invocations", 0 if stop else 1, k, d))
        except order.Unknown as e:
            unk.add("guard of the objective call: %s" % e)
        fold(w.rv, env, "return", diffs, unk, INF if stop else d["RAW"] * w.v, d)
        exp = {"evals": d["evals"] + (not stop), "iters": d["iters"], "max_evals": d["max_evals"], "max_iters": d["max_iters"],
               "cutoff_value": d["cutoff_value"], "x_f": d["RAW"] if better else d["x_f"]}
        for k, x in after.items():
            if k in exp and x is not None:
                fold(x, env, k, diffs, unk, exp[k], d)
        expl = {"n_evals": ("#n_evals",) + ((d["evals"] + 1,) if better else ()), "fitness_evals": ("#fitness_evals",) + ((d["RAW"],) if better else ()),
                "fitness_iters": ("#fitness_iters",)}
        for k, x in logs.items():
            fold(x, env, k, diffs, unk, expl[k], d)
    return diffs, unk, n


def check_stop(driver, opt):
    w = world(driver, opt)
    make_task(w)
    generalise(w)
    st = w.st
    before = st.heap[w.task.oid].attrs
    rv = w.I.content(st, w.I.call_method(st, w.task, "stopping_condition", [], {}, w.node))
    diffs, unk, n = {}, set(), 0
    for k, b in before.items():
        a = st.heap[w.task.oid].attrs.get(k)
        if a != b:
            diffs["effect"] = Diff("task." + k, "unchanged by the test", "changed", {})
    for d in valuations(w, raw=False):
        n += 1
        env = env_of(w, d)
        try:
            got = order.truth(order.ev(rv, env))
            if got != stop_spec(w, d):
                diffs.setdefault("stop", Diff("stopping_condition()", stop_spec(w, d), got, d))
        except order.Unknown as e:
            unk.add("stopping_condition: %s" % e)
    return diffs, unk, n


def check_next(driver, opt):
    w = world(driver, opt)
    make_task(w)
    generalise(w)
    st = w.st
    w.I.call_method(st, w.task, "next_iter", [], {}, w.node)
    diffs, unk, n = {}, set(), 0
    for d in [dict(d, last=l) for d in valuations(w, raw=False) for l in (d["x_f"], 2.0)]:
        n += 1
        env = env_of(w, d)
        for k in w.sym:
            x = attr(w, st, k)
            if k in d and x is not None:
                fold(x, env, k, diffs, unk, d[k] + (1 if k == "iters" else 0), d)
        for k, (oid, s) in w.logs.items():
            fold(w.I.content(st, Ref(oid)), env, k, diffs, unk, ("#" + k,) + ((d["x_f"],) if k == "fitness_iters" else ()), d)
    return diffs, unk, n


def check_ctor(driver, opt):
    """initial counters, limits and records"""
    diffs, unk, n = {}, set(), 0
    for given in (False, True):
        w = world(driver, opt)
        kw = {}
        if given:
            kw = {k: S(t.sym("@" + k, nd=0)) for k in ("max_evals", "max_iters", "cutoff_value")}
        if not given:
            fi = driver.task_cls.find("__init__")
            pos, kwo, _, _ = fi.params()
            if "optimization_type" not in pos + kwo:
                unk.add("constructor parameters")
        make_task(w, **kw)
        if w.st.dead:
            unk.add("constructor always raises")
            continue
        for me, mi, cut in ((11, 12, 13.5), (0, 0, 0.0), (1, 1, -4.0), (INF, INF, INF * -w.v)):
            env = {t.sym("@max_evals", nd=0): me, t.sym("@max_iters", nd=0): mi, t.sym("@cutoff_value", nd=0): cut}
            exp = {"evals": 0, "iters": 0, "x_f": INF * w.v, "max_evals": me if given else INF, "max_iters": mi if given else INF, "cutoff_value": cut if given else -INF * w.v}
            for k, e in exp.items():
                n += 1
                x = attr(w, w.st, k)
                if x is None:
                    unk.add("attribute " + k)
                    continue
                fold(x, env, k + (" (given)" if given else " (default)"), diffs, unk, e, dict(zip(("max_evals", "max_iters", "cutoff_value"), (me, mi, cut))) if given else {})
        seen = {}
        for k in ("n_evals", "fitness_evals", "fitness_iters"):
            v = w.st.heap[w.task.oid].attrs.get(k)
            if not (isinstance(v, Ref) and isinstance(w.st.heap.get(v.oid), Lst)):
                unk.add("log " + k)
                continue
            n += 1
            r = w.st.heap[v.oid]
            if r.items is None or len(r.items):
                diffs[k] = Diff("initial " + k, "empty", "not empty", {})
            if v.oid[0] == "G":
                diffs[k] = Diff("log " + k, "owned by the task", "shared by all tasks", {})
            if v.oid in seen:
                diffs[k] = Diff("log " + k, "a list of its own", "the same list as " + seen[v.oid], {})
            seen[v.oid] = k
    return diffs, unk, n
