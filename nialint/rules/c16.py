"""C16 bound repair always returns a point inside the box."""
import ast

from .. import coordwise, poly, terms as t, taskspec
from ..base import run_classes
from ..interp import S, Ref, RngV, Fn, vleaves
from ..poly import var, le, lt

RULE = ("(1) Every bundled repair function is interpreted at one arbitrary coordinate over a polyhedra domain (values affine in that coordinate's x, "
        "lower, upper; draws and remainders are fresh bounded variables; every mask, index set, clip, min/max and branch splits the case). In every "
        "case with lower < upper the returned value must be entailed to lie in [lower, upper], and to equal x when x was inside; a value read at "
        "another index, through another selection or aggregated over coordinates is unconstrained. (2) Task.repair is interpreted: it calls the "
        "function it was configured with, on the given point, its own lower and upper, and the caller's generator, and returns the result. "
        "(3) At every repair reached by a run the argument is a single point (index-based repair functions need one).")
ASSUMPTIONS = ["exact real arithmetic", "finite lower < upper in every coordinate", "points are one-dimensional float arrays"]


def check_functions(ctx, res):
    m = ctx.prog.modules.get("niapy.util.repair")
    fns = functions(ctx)
    for fi in fns:
        for kw, tag in (({}, ""), ({"rng": coordwise.Rng()}, "rng")):
            where = "%s:%d (%s)" % (m.relpath, fi.node.lineno, fi.name)
            try:
                cw, outs = coordwise.analyse(ctx.prog, fi, kw)
            except coordwise.Unk as u:
                res.undec("%s: %s" % (fi.name, u))
                continue
            res.add("repair functions x call forms")
            for w, v in outs:
                res.add("cases decided")
                if v is None:
                    res.fail("repair", fi.name + ":none", "%s returns no point" % fi.name, where)
                    continue
                x, l, u = var("x"), var("l"), var("u")
                for goal, what in ((le(l, v.a), "below its lower bound"), (le(v.a, u), "above its upper bound")):
                    res.add("entailments checked")
                    if not poly.entails(w.cs, goal):
                        mdl = poly.model(w.cs + [poly.neg(goal)], ["l", "u", "x"]) or {}
                        why = [cw.foreign[k] for k in v.a.c if k in cw.foreign]
                        res.fail("repair", "%s:%s" % (fi.name, what), "%s may return a coordinate %s%s: value %s, e.g. %s" % (
                            fi.name, what, " (it uses %s)" % why[0] if why else "", v.a, ", ".join("%s=%s" % (k, z) for k, z in mdl.items() if k in ("x", "l", "u"))), where)
                ins = w.cs + [le(l, x), le(x, u)]
                if poly.feasible(ins):
                    for goal in (le(v.a, x), le(x, v.a)):
                        res.add("entailments checked")
                        if not poly.entails(ins, goal):
                            res.fail("repair", fi.name + ":moves", "%s may move a coordinate that was already inside (value %s)" % (fi.name, v.a), where)
    if not fns:
        res.undec("no repair functions found")


def functions(ctx):
    """the public functions of niapy.util.repair"""
    m = ctx.prog.modules["niapy.util.repair"]
    al = None
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == "__all__" for x in n.targets):
            try:
                al = set(ast.literal_eval(n.value))
            except ValueError:
                pass
    return [v[1] for k, v in m.names.items() if v[0] == "func" and (k in al if al is not None else not k.startswith("_")) and len(v[1].node.args.args) >= 3]


def check_task(ctx, res):
    fns = functions(ctx)
    for fi in fns:
        for given in (True, False):
            w = taskspec.world(ctx.driver, "MINIMIZATION")
            seen = []
            mark = t.sym("REPAIRED", nd=1)

            def p(I, st, b, node, fi=fi, f2=None):
                seen.append((f2, dict(b), node))
                I.set_whole(st, b["x"], mark, node) if isinstance(b.get("x"), Ref) else None
                return b.get("x")
            for g in fns:
                w.I.prims[("niapy.util.repair", g.name)] = lambda I, st, b, node, g=g: p(I, st, b, node, f2=g)
            taskspec.make_task(w, repair_function=Fn(fi, None))
            taskspec.generalise(w)
            rng = RngV("caller", None) if len(RngV._fields) == 2 else RngV(*(["caller"] + [None] * (len(RngV._fields) - 1)))
            seen.clear()
            kw = {"rng": rng} if given else {}
            rv = w.I.call_method(w.st, w.task, "repair", [Ref(w.X)], kw, w.node)
            res.add("Task.repair call forms")
            wh = "src/niapy/task.py (Task.repair)"
            if len(seen) != 1:
                res.undec("Task.repair: %d repair calls" % len(seen)) if seen else res.fail("task-repair", "call", "Task.repair does not apply the configured repair function", wh)
                continue
            g, b, node = seen[0]
            if g is not fi:
                res.fail("task-repair", "function", "Task.repair applies %s although the task was configured with %s" % (g.name, fi.name), wh)
            for n, want, txt in (("lower", t.LOWER, "lower bounds"), ("upper", t.UPPER, "upper bounds"), ("x", None, "point")):
                if n not in b:
                    continue
                if n == "x":
                    if not (isinstance(b[n], Ref) and b[n].oid == w.X) and w.I.content(w.st, b[n]) is not mark:
                        res.fail("task-repair", "point", "Task.repair repairs something else than the given point", wh)
                    continue
                c = w.I.content(w.st, b[n])
                if c is not want:
                    if c.top:
                        res.undec("Task.repair: %s" % txt)
                    else:
                        res.fail("task-repair", n, "Task.repair passes %s as the %s" % (t.show(c)[:50], txt), wh)
            r = rng_of(w, b)
            if given and "rng" in (x.arg for x in fi.node.args.args + fi.node.args.kwonlyargs):
                if r is None or isinstance(r, S) and r.t is t.NONE:
                    res.fail("task-repair", "rng", "Task.repair does not pass the caller's generator on", wh)
                elif r != rng:
                    res.undec("Task.repair: generator") if not isinstance(r, RngV) else res.fail("task-repair", "rng", "Task.repair passes another generator than the caller's", wh)
            c = w.I.content(w.st, rv)
            if c is not mark:
                if c.top:
                    res.undec("Task.repair: result")
                else:
                    res.fail("task-repair", "result", "Task.repair does not return the repaired point", wh)


def rng_of(w, b):
    if "rng" in b:
        return b["rng"]
    for k, v in b.items():
        r = w.st.heap.get(v.oid) if isinstance(v, Ref) else None
        if r is not None and hasattr(r, "entries"):
            return dict(r.entries).get("rng")
    return None


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    for e in R.events[len(R.ctor_events):]:
        if e.kind == "repair" and not e.data["fixed"]:
            res.add("repair calls in algorithms")
            if e.data["c"].nd == 2:
                fn = next((f for f, _ in reversed(e.stack) if not f.startswith(("Task.", "Individual."))), "?")
                res.fail("repair-2d", fn, "a whole population is repaired in one call (%s): index-based repair functions fail or use other coordinates' bounds" % ci.name, e.where(), e.stack)


def check(ctx, res):
    check_functions(ctx, res)
    check_task(ctx, res)
    run_classes(ctx, "c16", res)
