"""C18 a failing run is never mistaken for a successful one."""
import ast
import builtins

from .. import astq, order, runspec, terms as t
from ..interp import S, Obj, Ref
from .c14 import fresh, NODE

RULE = ("Abstract interpretation of every run() implementation with an exceptional edge from every call in a try body to its handlers. (1) Every "
        "initialization, iteration, stop test and announcement lies in the scope of a handler that catches everything. (2) The handler's guarded "
        "raise/return events are folded over the four cases main/other thread x main/other process: in the main thread of the main process the "
        "caught exception object itself is raised; otherwise the run returns (None, None) with the exception stored on the algorithm. (3) A normal "
        "return yields the best solution and leaves no stored exception, whatever earlier runs left. (4) The summary of bad_run() is `exception is "
        "not None`. (5) Query over all code reached by runs: no other handler swallows arbitrary exceptions.")
ASSUMPTIONS = ["interpreter-level failures (out of memory, killed process) are out of scope"]


def cases():
    for th in (True, False):
        for pr in (True, False):
            yield th, pr, ArithmeticError
            yield th, pr, KeyboardInterrupt


def subterms(x):
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y not in seen:
            seen.add(y)
            todo += [a for a in y.args if isinstance(a, t.T)]
    return seen


def env_for(terms, th, pr, exc, kind=ArithmeticError):
    env = {}
    for x in terms:
        for y in subterms(x):
            if y.op == "call" and y.args[0] == "isinstance" and y.args[1].op == "sym" and str(y.args[1].args[0]).startswith("exception:"):
                ts = [getattr(builtins, n.split(".")[-1], None) for n in str(t.cval(y.args[2])).split("|")]
                if all(isinstance(z, type) for z in ts):
                    env[y] = issubclass(kind, tuple(ts))
        for s in t.leaves(x):
            if s.op != "sym":
                continue
            n = str(s.args[0])
            if n.startswith("env:"):
                n = n[4:]
                base, _, at = n.partition(".")
                if base == "current_thread":
                    env[s] = ("thread", th) if not at else (("MainThread" if th else "Thread-7") if at == "name" else 100 if th else 7)
                elif base == "main_thread":
                    env[s] = ("thread", True) if not at else ("MainThread" if at == "name" else 100)
                elif base == "get_ident":
                    env[s] = 100 if th else 7
                elif base == "current_process":
                    env[s] = ("process", pr) if not at else ("MainProcess" if pr else "Process-3")
                elif base == "parent_process":
                    env[s] = None if pr else ("process", True)
            elif n.startswith("exc:"):
                env[s] = exc
    return env


def check(ctx, res):
    for fi, cis in runspec.groups(ctx.driver).items():
        A = runspec.analyse(ctx.driver, cis[0])
        w = runspec.where(A, None, fi.node)
        res.add("run() implementations")
        for e in A.events:
            if e.kind == "protocol":
                res.add("steps checked to be guarded")
                if "BaseException" not in e.data["catch"]:
                    res.fail("unguarded", "%s:%s" % (fi.qual, e.data["what"]), "%s is executed outside a handler that catches every exception" % e.data["what"], e.where())
        raises = [e for e in A.events if e.kind == "raise" and e.data["caught"] is not None]
        excr = [r for r in A.rets if "EXC" in r[0]]
        norm = [r for r in A.rets if r[0] - {"EXC"}]
        caught = {e.data["caught"] for e in raises}
        for th, pr, kind in cases():
            res.add("failure cases folded")
            who = "%s thread of %s process" % ("the main" if th else "a worker", "the main" if pr else "a worker")
            what = "an exception" if issubclass(kind, Exception) else "an interrupt"
            try:
                R = [e for e in raises if order.holds(e.data["pc"], env_for([c for c, _ in e.data["pc"]], th, pr, True, kind))]
                Q = [r for r in excr if order.holds(r[1], env_for([c for c, _ in r[1]], th, pr, True, kind))]
            except order.Unknown as u:
                res.undec("%s: handler guard (%s)" % (fi.qual, u))
                continue
            # whichever comes first ends the run
            R, Q = [e for e in R if not any(q.at <= e.at for q in Q)], [q for q in Q if not any(e.at < q.at for e in R)]
            if th and pr:
                if not R or Q:
                    res.fail("swallowed", fi.qual + ":main", "%s in %s does not reach the caller" % (what, who), w)
                for e in R:
                    v = e.data["val"]
                    if not e.data["bare"] and not (isinstance(v, S) and v.t is e.data["caught"]):
                        res.fail("swallowed", fi.qual + ":other", "another exception than the original reaches the caller", e.where())
            else:
                if R:
                    res.fail("worker", fi.qual + ":raise", "%s in %s is re-raised instead of being kept on the algorithm" % (what, who), w)
                elif not Q:
                    res.undec("%s: outcome in %s" % (fi.qual, who))
                for gh, pc, its, ex, v in Q:
                    env = env_for([c for c, _ in pc] + ([ex] if ex is not None else []) + (its or []), th, pr, True, kind)
                    if its is None or len(its) != 2:
                        res.undec("%s: value returned after a failure" % fi.qual)
                    else:
                        for x in its:
                            try:
                                if order.ev(x, env) is not None:
                                    res.fail("worker", fi.qual + ":solution", "a failed run in %s returns a solution" % who, w)
                            except order.Unknown:
                                res.fail("worker", fi.qual + ":solution", "a failed run in %s returns a solution" % who, w) if not x.top or x.op == "top" and str(x.args[0]).startswith("try-assigned") else res.undec("%s: value returned after a failure" % fi.qual)
                    if ex is None or not (ex.op == "sym" and str(ex.args[0]).startswith("exception:")):
                        if ex is not None and ex.op == "phi":
                            try:
                                z = order.ev(ex, {**env, **{s: ("exception",) for s in t.leaves(ex) if s.op == "sym" and str(s.args[0]).startswith("exception:")}})
                                if z == ("exception",):
                                    continue
                            except order.Unknown:
                                res.undec("%s: stored exception" % fi.qual)
                                continue
                        res.fail("worker", fi.qual + ":exception", "a failed run in %s does not keep its exception on the algorithm" % who, w)
        if not norm:
            res.undec("%s: no normal return" % fi.qual)
        for gh, pc, its, ex, v in norm:
            res.add("normal returns checked")
            if ex is not t.NONE:
                res.fail("stale", fi.qual + ":exception", "a run that completes may still report the exception of an earlier run", w)
            if its is None or len(its) != 2 or any(x is t.NONE for x in its):
                res.fail("no-solution", fi.qual, "a run that completes does not return its best solution", w)
    bad_run(ctx, res)
    swallow(ctx, res)


def bad_run(ctx, res):
    ci = ctx.driver.alg_cls
    f = ci.find("bad_run")
    for val, want in (("none", False), ("obj", True)):
        I, st = fresh(ctx)
        alg = I.instantiate(st, ci, [], {}, NODE)
        o = st.heap[alg.oid]
        if val == "obj":
            st.heap[("EXCOBJ",)] = Obj("exception", {}, None, ())
            v = Ref(("EXCOBJ",))
        else:
            v = S(t.NONE)
        st.heap[alg.oid] = o._replace(attrs=dict(o.attrs, exception=v))
        rv = I.content(st, I.call_method(st, alg, "bad_run", [], {}, NODE))
        res.add("bad_run cases folded")
        try:
            if order.truth(order.ev(rv, {})) != want:
                res.fail("bad-run", "Algorithm.bad_run", "bad_run() is %s for a run %s" % (not want, "that failed" if want else "that completed"), f.module.relpath)
        except order.Unknown as u:
            res.undec("bad_run: %s" % u)


def swallow(ctx, res):
    """broad handlers that do not re-raise, in algorithm, task, problem and utility code (run() itself is analysed above)"""
    runs = {f.node for f in runspec.groups(ctx.driver)}
    for m, q, fn in astq.functions(ctx.prog):
        if fn in runs:
            continue
        res.add("functions scanned for swallowing handlers")
        for n in astq.own_nodes(fn):
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    broad = any(x is None or ast.unparse(x).split(".")[-1] in ("Exception", "BaseException") for x in ts)
                    if broad and not any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b)):
                        if called_by_run(ctx, fn, runs):
                            continue
                        res.fail("swallowing-handler", q, "a handler for arbitrary exceptions continues as if nothing had happened", "%s:%d (%s)" % (m.relpath, h.lineno, q))
                for b in n.finalbody:
                    for x in ast.walk(b):
                        if isinstance(x, ast.Return):
                            res.fail("swallowing-handler", q, "a return in a finally clause discards the exception", "%s:%d (%s)" % (m.relpath, x.lineno, q))
            if isinstance(n, ast.With):
                for i in n.items:
                    d = astq.dotted(i.context_expr.func) if isinstance(i.context_expr, ast.Call) else None
                    if d and d.split(".")[-1] == "suppress" and any(ast.unparse(a).split(".")[-1] in ("Exception", "BaseException") for a in i.context_expr.args):
                        res.fail("swallowing-handler", q, "suppress(Exception) hides failures", "%s:%d (%s)" % (m.relpath, n.lineno, q))


def called_by_run(ctx, fn, runs):
    """helpers of run() itself are interpreted as part of it"""
    names = set()
    for r in runs:
        for x in ast.walk(r):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                names.add(x.func.attr)
    return fn.name in names - {"run_iteration", "init_population", "get_best"}
