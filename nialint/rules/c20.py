"""C20 problems and tasks honour the requested dimension and bounds."""
import ast

from .. import terms as t
from ..interp import S, Ref, Obj, Arr, Lst, Dct, Cls, Tup, PhiV, arr, vleaves, Bot
from ..probspec import World, exported_problems, params_of, compare

RULE = ("Abstract construction of every exported problem with symbolic options (by keyword and by position; scalar bounds, bound arrays and bound "
        "lists): the dimension attribute must be the requested symbol, the bound attributes must be vectors of that length whose every coordinate "
        "is the requested lower / upper symbol (compared in a polynomial normal form), and every further option must end up in an attribute unchanged. "
        "Abstract construction of Task over a symbolic problem, over a name with each subset of the options (what reaches get_problem), and over "
        "things that are not problems (every path must raise).")
ASSUMPTIONS = ["Perm and Trid derive their bounds from the dimension, SchafferN2 and SchafferN4 are two-dimensional: those options are excepted"]
EXEMPT = {"Perm": {"lower", "upper"}, "Trid": {"lower", "upper"}, "SchafferN2": {"dimension"}, "SchafferN4": {"dimension"}}
CALLERR = ("missing_arg", "unexpected_kw", "dup_arg", "dup_kw", "too_many_args")


def scenarios(pos, kwo, skip):
    std = [n for n in ("dimension", "lower", "upper") if n not in skip]
    yield "keyword options", (), std, "scalar"
    if [n for n in pos if n in std][:len(std)] == std and pos[:len(std)] == std:
        yield "positional options", tuple(std), (), "scalar"
    if "lower" in std:
        yield "bound arrays", (), std, "array"
        yield "bound lists", (), std, "list"
    if "dimension" in std and "lower" in std:
        yield "dimension only", (), ["dimension"], "scalar"


def build(ctx, ci, how, posn, kwn, extra, skip):
    w = World(ctx.driver)
    D = t.sym("req.dimension", nd=0) if how != "list" else t.const(3)
    if "dimension" in skip:
        D = t.const(2)
    want = {"dimension": D}
    val = {"dimension": S(D)}
    for n in ("lower", "upper"):
        if how == "scalar":
            want[n] = t.sym("req." + n, nd=0)
            val[n] = S(want[n])
        elif how == "array":
            r = w.vec("req." + n, D)
            want[n] = w.I.content(w.st, r)
            val[n] = r
        else:
            k = t.cval(D)
            it = tuple(S(t.sym("req.%s%d" % (n, i), nd=0)) for i in range(k))
            oid = ("IN", n)
            w.st.heap[oid] = Lst(it, None, "num", None, None, ())
            val[n] = Ref(oid)
            want[n] = w.I.content(w.st, val[n])
    kw = {n: val[n] for n in kwn}
    for n in extra:
        want[n] = t.sym("req." + n, nd=0)
        kw[n] = S(want[n])
    n0 = len(w.I.events)
    r = w.I.instantiate(w.st, ci, [val[n] for n in posn], kw, w.node)
    return w, r, want, w.events(CALLERR, n0)


def check_problem(ctx, name, ci, res):
    pos, kwo, va, kwa = params_of(ci)
    skip = set(EXEMPT.get(name, ()))
    skip = {n for n in skip if n not in pos + kwo}       # an excepted option that is accepted must be honoured
    extra = [n for n in pos + kwo if n not in ("dimension", "lower", "upper")]
    fi = ci.find("__init__")
    where = fi.where() if hasattr(fi, "where") else "%s:%d" % (fi.path, fi.node.lineno)
    for what, posn, kwn, how in scenarios(pos, kwo, skip):
        w, r, want, errs = build(ctx, ci, how, posn, kwn, extra if not posn else (), skip)
        res.add("constructions analysed")
        for e in errs:
            if e.data.get("guarded"):
                continue
            res.fail("ctor_call", "%s:%s:%s" % (name, e.kind, e.data.get("name")), "%s built with %s: %s '%s' of %s" % (name, what, e.kind, e.data.get("name"), e.data.get("fn")), e.where(), e.stack)
        if errs:
            continue
        if w.st.dead or not isinstance(r, Ref):
            res.fail("ctor_raises", name, "%s built with %s: every path raises" % (name, what), where)
            continue
        o = w.st.heap.get(r.oid)
        if not isinstance(o, Obj):
            res.undec("%s: instance not an object" % name)
            continue

        def attr(n):
            v = w.I.get_attr(w.st, r, n, w.node) if o.attrs is None or n in o.attrs or ci.find(n) else None
            return v
        for n in ("dimension", "lower", "upper"):
            if n in skip and n != "dimension":
                continue
            res.add("attributes compared")
            v = attr(n)
            if v is None:
                res.fail("attr_missing", "%s.%s" % (name, n), "%s built with %s has no attribute '%s'" % (name, what, n), where)
                continue
            x = w.I.content(w.st, v)
            if n != "dimension" and n not in list(posn) + list(kwn):
                ln = t.length(x)     # a default
                if ln is not None and not t.same(ln, want["dimension"]):
                    if compare(ln, want["dimension"]) == "differ":
                        res.fail("bound_length", "%s.%s" % (name, n), "%s built with %s: '%s' has length %s, not the dimension" % (name, what, n, t.show(ln)), where)
                continue
            d = compare(x, want[n])
            if d == "differ":
                res.fail("attr_value", "%s.%s" % (name, n), "%s built with %s: attribute '%s' is %s instead of %s" % (name, what, n, t.show(x)[:80], t.show(want[n])[:60]), where)
            elif d == "unknown":
                res.undec("%s (%s): '%s' is %s" % (name, what, n, t.show(x)[:80]))
            if n != "dimension":
                ln = t.length(x)
                res.add("bound lengths compared")
                if x.nd == 0:
                    res.fail("bound_length", "%s.%s" % (name, n), "%s built with %s: '%s' is a number, not an array" % (name, what, n), where)
                elif ln is None:
                    res.undec("%s (%s): length of '%s'" % (name, what, n))
                elif compare(ln, want["dimension"]) == "differ":
                    res.fail("bound_length", "%s.%s" % (name, n), "%s built with %s: '%s' has length %s instead of %s" % (name, what, n, t.show(ln), t.show(want["dimension"])), where)
        for n in (extra if not posn else ()):
            res.add("shape parameters compared")
            vals = {k: w.I.content(w.st, v) for k, v in o.attrs.items()}
            if n in vals:
                d = compare(vals[n], want[n])
                if d == "differ":
                    res.fail("param_value", "%s.%s" % (name, n), "%s: parameter '%s' is stored as %s" % (name, n, t.show(vals[n])[:80]), where)
                elif d == "unknown":
                    res.undec("%s: parameter %s" % (name, n))
            elif not any(t.contains(x, want[n]) for x in vals.values()):
                res.fail("param_lost", "%s.%s" % (name, n), "%s: parameter '%s' is not stored" % (name, n), where)
        res.sample("%s (%s): lower = %s, upper = %s" % (name, what, *[t.show(w.I.content(w.st, o.attrs[n]))[:40] if n in o.attrs else "?" for n in ("lower", "upper")]), 12)


def coords(x, base, n):
    """coordinates of a vector built from the given values, None when the construction is not understood"""
    if x in base:
        return base[x]
    if x.op in ("list", "tuplec"):
        return list(x.args)
    if x.op == "cat":
        ps = [coords(a, base, None) for a in x.args]
        return None if any(p is None for p in ps) else [c for p in ps for c in p]
    k = lambda y: t.cval(y) if isinstance(y, t.T) and t.is_const(y) else None
    if x.op == "row":
        c, i = coords(x.args[0], base, None), x.args[1]
        if c is None:
            return None
        if i.op == "slice":
            if all(t.is_const(z) for z in i.args):
                return c[slice(*[t.cval(z) for z in i.args])]
        elif isinstance(k(i), slice):
            return c[k(i)]
        elif i.op == "call" and i.args[0] == "repidx" and isinstance(k(i.args[1]), int):
            return [z for z in c for _ in range(k(i.args[1]))]
        elif i.op == "call" and i.args[0] == "argsort" and len(c) > 1:
            return [t.row(x.args[0], t.row(i, t.const(j))) for j in range(len(c))]
        elif i.op == "list" and all(isinstance(k(z), int) and -len(c) <= k(z) < len(c) for z in i.args):
            return [c[k(z)] for z in i.args]
        return None
    if x.op == "call" and x.args[0] == "tile" and isinstance(k(x.args[2]), int):
        c = coords(x.args[1], base, None)
        return None if c is None else c * k(x.args[2])
    return None


def check_array_helper(ctx, res):
    """bounds given per coordinate keep their coordinate; with another length they still fill exactly `dimension` coordinates, in order and cyclically"""
    base = ctx.prog.cls("niapy.problems.problem", "Problem")
    where = base.find("__init__").path
    for ln, how in ((3, "list"), (3, "array"), (2, "list"), (2, "array"), (5, "list"), (5, "array"), (1, "list")):
        w = World(ctx.driver)
        vals, exp, known = {}, {}, {}
        for n in ("lower", "upper"):
            if how == "array":
                vals[n] = w.vec("req." + n, t.const(ln))
                c = w.I.content(w.st, vals[n])
                exp[n] = [t.row(c, t.const(i)) for i in range(ln)]
                known[c] = exp[n]
            else:
                exp[n] = [t.sym("req.%s%d" % (n, i), nd=0) for i in range(ln)]
                w.st.heap[("IN", n)] = Lst(tuple(S(y) for y in exp[n]), None, "num", None, None, ())
                vals[n] = Ref(("IN", n))
        r = w.I.instantiate(w.st, base, [], {"dimension": S(t.const(3)), **vals}, w.node)
        res.add("constructions analysed")
        if w.st.dead or not isinstance(r, Ref):
            continue
        o = w.st.heap[r.oid]
        for n in ("lower", "upper"):
            if n not in o.attrs:
                continue
            x = w.I.content(w.st, o.attrs[n])
            k = t.length(x)
            if k is not None and t.is_const(k) and t.cval(k) != 3:
                res.fail("bound_length", "Problem.%s" % n, "%d bounds given for dimension 3: '%s' has length %s" % (ln, n, t.show(k)), where)
                continue
            c = coords(x, known, 3)
            if c is None:
                res.undec("'%s' from a given %s of %d bounds: %s" % (n, how, ln, t.show(x)[:80]))
                continue
            res.add("bound coordinates compared", len(c))
            if len(c) != 3:
                res.fail("bound_length", "Problem.%s" % n, "%d bounds given for dimension 3: '%s' has length %d" % (ln, n, len(c)), where)
                continue
            want = [exp[n][i % ln] for i in range(3)]
            for i in range(3):
                if compare(c[i], want[i]) == "differ" or c[i] is not want[i] and c[i].op == "row" and c[i].args[1].op == "row":
                    res.fail("bound_coordinate", "Problem.%s" % n, "%s of %d bounds given for dimension 3: coordinate %d of '%s' is %s instead of %s" % (how, ln, i, n, t.show(c[i])[:60], t.show(want[i])), where)
                    break
                if c[i] is not want[i] and compare(c[i], want[i]) != "same":
                    res.undec("'%s' from %d given bounds: coordinate %d is %s" % (n, ln, i, t.show(c[i])[:60]))
                    break


OPTS = ("dimension", "lower", "upper")


def task_world(ctx, mode):
    w = World(ctx.driver)
    D = t.sym("prob.dimension", nd=0)
    lo, up = w.vec("prob.lower", D), w.vec("prob.upper", D)
    w.want = {"dimension": D, "lower": w.I.content(w.st, lo), "upper": w.I.content(w.st, up)}
    w.st.heap[("PROB",)] = Obj(ctx.driver.problem_cls, {"dimension": S(D), "lower": lo, "upper": up}, None, ())
    w.got = []

    def p_get(I, st, b, node):
        w.got.append((dict(b), st.pc, st.copy(), (I.stack[-1][0].path, getattr(node, "lineno", 0))))
        return Ref(("PROB",))
    w.I.prims = {("niapy.util.factory", "get_problem"): p_get}
    return w


def check_task(ctx, res):
    cls = ctx.driver.task_cls
    fi = cls.find("__init__")
    where = "%s:%d" % (fi.path, fi.node.lineno)

    def attrs(w, r, what):
        o = w.st.heap.get(r.oid) if isinstance(r, Ref) else None
        if w.st.dead or not isinstance(o, Obj):
            res.fail("task_raises", what, "Task built from %s: every path raises" % what, where)
            return
        want = dict(w.want)
        want["range"] = t.bin_("-", want["upper"], want["lower"])
        for n, x in want.items():
            res.add("task attributes compared")
            if n not in o.attrs and not cls.find(n):
                res.fail("task_attr_missing", n, "a task has no attribute '%s'" % n, where)
                continue
            v = w.I.content(w.st, w.I.get_attr(w.st, r, n, w.node))
            d = compare(v, x)
            if d == "differ":
                res.fail("task_attr", n, "Task built from %s: '%s' is %s instead of %s" % (what, n, t.show(v)[:80], t.show(x)), where)
            elif d == "unknown":
                res.undec("task attribute %s: %s" % (n, t.show(v)[:80]))
        p = o.attrs.get("problem")
        if p is None or not all(isinstance(l, Ref) and l.oid == ("PROB",) for l in vleaves(p)):
            (res.undec if p is not None else lambda s: res.fail("task_attr", "problem", s, where))("Task built from %s: problem attribute" % what)
    for given in ((), OPTS):
        w = task_world(ctx, "instance")
        kw = {n: S(t.sym("other." + n, nd=0)) for n in given}
        r = w.I.instantiate(w.st, cls, [], {"problem": Ref(("PROB",)), **kw}, w.node)
        res.add("task constructions analysed")
        attrs(w, r, "a problem" + (" and options" if given else ""))
    for given in ((), ("dimension",), ("lower",), ("upper",), ("lower", "upper"), OPTS):
        w = task_world(ctx, "name")
        kw = {n: S(t.sym("req." + n, nd=0)) for n in given}
        what = "a name and %s" % (", ".join(given) or "no options")
        n0 = len(w.I.events)
        r = w.I.instantiate(w.st, cls, [], {"problem": S(t.const("sphere")), **kw}, w.node)
        res.add("task constructions analysed")
        if not w.got:
            if w.st.dead:
                res.fail("task_raises", what, "Task built from %s: every path raises" % what, where)
            else:
                res.undec("Task from %s: get_problem is not called" % what)
            continue
        for b, pc, st, site in w.got:
            nm = b.get("name")
            if nm is None or w.I.content(st, nm) is not t.const("sphere"):
                if nm is not None and not w.I.content(st, nm).top:
                    res.fail("task_forward", "name", "Task built from %s: get_problem is asked for %s" % (what, t.show(w.I.content(st, nm))[:60]), "%s:%d" % site)
            rest = next((v for k, v in b.items() if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Dct)), None)
            pos = next((v for k, v in b.items() if isinstance(v, Tup)), None)
            if rest is None:
                res.undec("Task from %s: options passed on" % what)
                continue
            d = st.heap[rest.oid]
            got = dict(d.entries)
            if pos is not None and pos.items:
                got.update(dict(zip(OPTS, pos.items)))
            for n in OPTS:
                res.add("forwarded options compared")
                v = got.get(n)
                x = w.I.content(st, v) if v is not None else None
                if n in given:
                    if v is None:
                        if d.open:
                            res.undec("Task from %s: option %s" % (what, n))
                        else:
                            res.fail("task_forward", n, "Task built from %s: '%s' is not forwarded" % (what, n), "%s:%d" % site)
                        continue
                    c = compare(x, kw[n].t)
                    if n in d.maybe:
                        res.fail("task_forward", n, "Task built from %s: '%s' is not forwarded for every value" % (what, n), "%s:%d" % site)
                    elif c == "unknown":
                        res.undec("Task from %s: option %s forwarded as %s" % (what, n, t.show(x)[:60]))
                    elif c == "differ":
                        res.fail("task_forward", n, "Task built from %s: '%s' is forwarded as %s" % (what, n, t.show(x)[:60]), "%s:%d" % site)
                elif v is not None and n not in d.maybe:
                    if t.is_const(x) or not x.top:
                        res.fail("task_forward", "default:" + n, "Task built from %s: '%s' is forwarded as %s although it was not requested" % (what, n, t.show(x)[:60]), "%s:%d" % site)
            for k in got:
                if k not in OPTS:
                    res.fail("task_forward", "extra:%s" % k, "Task built from %s: passes '%s' to the problem" % (what, k), "%s:%d" % site)
        attrs(w, r, what)
    for what, mk in (("None", lambda w: S(t.NONE)), ("a number", lambda w: S(t.const(5))), ("a list", lambda w: w.vec("junk", t.const(4))),
                     ("a problem class instead of an instance", lambda w: Cls(ctx.driver.problem_cls)),
                     ("an unrelated object", lambda w: Ref(("JUNK",))), ("nothing", None)):
        w = task_world(ctx, "junk")
        w.st.heap[("JUNK",)] = Obj(ctx.driver.indiv, {"x": S(t.sym("junk.x", nd=1)), "f": S(t.sym("junk.f", nd=0))}, None, ())
        w.I.instantiate(w.st, cls, [], {"problem": mk(w)} if mk else {}, w.node)
        res.add("rejections analysed")
        errs = w.events(("raise", "no_attr"))
        if not w.st.dead and not w.got and not errs:
            res.fail("task_accepts", what, "Task accepts %s as a problem" % what, where)
        elif not w.st.dead:
            raised = [e for e in errs if e.kind == "raise"]
            if not raised and not w.got:
                pass            # fails on a missing attribute
            else:
                res.undec("Task given %s: rejected on some paths only" % what)
        elif w.got:
            res.undec("Task given %s: looks up a problem first" % what)


def check(ctx, res):
    ps = exported_problems(ctx.prog)
    res.add("problem classes analysed", len(ps))
    if len(ps) < 30:
        res.undec("only %d exported problem classes found" % len(ps))
    for name, ci in ps:
        try:
            check_problem(ctx, name, ci, res)
        except Exception as e:
            import os
            if os.environ.get("NIALINT_DEBUG"):
                raise
            res.undec("%s: analysis error %s" % (name, e))
    check_array_helper(ctx, res)
    check_task(ctx, res)
