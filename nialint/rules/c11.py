"""C11 evaluating a problem has no side effects."""
from .. import terms as t
from ..interp import S, Ref, Obj, Arr, Lst, Dct, View, RngV, Cls, PhiV, vleaves, Bot
from ..probspec import World, exported_problems, params_of

RULE = ("Abstract interpretation of evaluate(x) and problem(x) of every exported problem, built with symbolic options, at a symbolic vector x. "
        "After the call the point's storage, every attribute the problem had after construction and every array it holds must carry the terms they had "
        "before; no process-wide object is written; state that evaluation leaves behind and that depends on the point must not be read by a later "
        "evaluation; the value returned must not contain a random draw or ambient reading. Points one short, one long and of matching length decide "
        "that a wrong dimension raises before _evaluate is entered.")
ASSUMPTIONS = ["the objective functions supplied by a user's own Problem subclass are outside the tree", "options are real numbers, the dimension is an integer"]


def place(I, st, v):
    """content of a value as one term"""
    return I.content(st, v)


def snapshot(w, oids):
    return {o: w.I.content(w.st, Ref(o)) for o in oids if isinstance(w.st.heap.get(o), (Arr, Lst))}


def construct(ctx, ci, dim=None):
    w = World(ctx.driver)
    dim = t.sym("req.dimension", nd=0) if dim is None else t.const(dim)
    pos, kwo, va, kwa = params_of(ci)
    kw = {}
    for n in pos + kwo:
        if n == "dimension":
            kw[n] = S(dim)
        else:
            kw[n] = S(t.sym("req." + n, nd=0))
    r = w.I.instantiate(w.st, ci, [], kw, w.node)
    return w, r


def call(w, r, form, args):
    if form == "evaluate":
        return w.I.call_method(w.st, r, "evaluate", args, {}, w.node)
    return w.I.call(w.st, r, args, {}, w.node)


def check_purity(ctx, name, ci, res):
    w, r = construct(ctx, ci)
    if w.st.dead or not isinstance(r, Ref):
        res.undec("%s: cannot be constructed" % name)
        return
    I, st = w.I, w.st
    dim = st.heap[r.oid].attrs.get("dimension")
    d = I.content(st, dim) if dim is not None else t.sym("req.dimension", nd=0)
    x = w.vec("point", d)
    x0 = I.content(st, x)
    before = dict(st.heap[r.oid].attrs)
    heap0 = {o: v for o, v in st.heap.items() if isinstance(v, (Arr, Lst, Dct, Obj))}
    terms0 = snapshot(w, heap0)
    n0 = len(I.events)
    rv = call(w, r, "evaluate", [x])
    res.add("evaluations analysed")
    ev = I.events[n0:]
    if st.dead:
        res.undec("%s: every path of evaluate raises" % name)
        return
    res.add("functions interpreted", len(I.nfn))

    def site(pred, dflt=None):
        for e in ev:
            if pred(e):
                return e.where(), e.stack
        fi = ci.find("_evaluate")
        return "%s:%d" % (fi.path, fi.node.lineno), ()
    # the point
    x1 = I.content(st, x)
    res.add("points compared")
    if not t.same(x0, x1):
        res.fail("point_changed", name, "%s: evaluating changes the point (it becomes %s)" % (name, t.show(x1)[:100]), *site(lambda e: e.kind == "mutate" and e.data.get("oid") == x.oid))
    # the problem
    after = st.heap[r.oid].attrs
    for n, v in before.items():
        res.add("problem attributes compared")
        v1 = after.get(n)
        if v1 is None:
            res.fail("attr_removed", "%s.%s" % (name, n), "%s: evaluating removes attribute '%s'" % (name, n), *site(lambda e: e.kind == "attr_write"))
        elif v1 != v:
            a, b = I.content(st, v), I.content(st, v1)
            if not (isinstance(v, S) and isinstance(v1, S) and t.same(a, b)):
                res.fail("attr_changed", "%s.%s" % (name, n), "%s: evaluating changes attribute '%s' to %s" % (name, n, t.show(b)[:80]),
                         *site(lambda e: e.kind == "attr_write" and e.data["name"] == n))
    for o, v in heap0.items():
        if o == x.oid or o == r.oid:
            continue
        v1 = st.heap.get(o)
        if v1 is None or v1 == v:
            continue
        if isinstance(v, (Arr, Lst)) and o in terms0:
            if t.same(terms0[o], I.content(st, Ref(o))):
                continue
        elif isinstance(v, Dct) and isinstance(v1, Dct) and v1.open and v.open and v1.entries == v.entries:
            continue
        what = "a process-wide object (%s)" % o[2] if o and o[0] == "G" else "an array or list the problem holds"
        keyed = isinstance(v, Dct)
        if keyed:
            continue        # memo tables: what they hand back is checked through the value
        res.fail("object_changed", "%s:%s" % (name, o[2] if o and o[0] == "G" else "held"), "%s: evaluating changes %s" % (name, what), *site(lambda e: e.kind == "mutate" and e.data.get("oid") == o))
    for e in ev:
        if e.kind in ("class_attr_write", "module_attr_write"):
            v = e.data.get("val")
            res.fail(e.kind, "%s:%s" % (name, e.data["name"]), "%s: evaluating writes %s of a class or module" % (name, e.data["name"]), e.where(), e.stack)
        elif e.kind == "global_stmt":
            res.fail("global_write", "%s:%s" % (name, ",".join(e.data["names"])), "%s: evaluating rebinds a module global" % name, e.where(), e.stack)
    new = {n: v for n, v in after.items() if n not in before}
    for n, v in new.items():
        res.add("lazily created attributes")
        c = I.content(st, v)
        if t.contains(c, x0) or c.draw or t.contains(c, x1):
            # kept from this point: does the next evaluation look at it?
            y = w.vec("point2", d)
            m = len(I.events)
            s2 = st.copy()
            reads = []
            old = I.attr_read_hook if hasattr(I, "attr_read_hook") else None

            def hook(st_, o, nm, node):
                if o.oid == r.oid and nm == n:
                    reads.append(node)
            I.attr_read_hook = hook
            rv2 = I.call_method(s2, r, "evaluate", [y], {}, w.node)
            I.attr_read_hook = old
            if not s2.dead and t.contains(I.content(s2, rv2), x0):
                res.fail("state_kept", "%s.%s" % (name, n), "%s: evaluation stores '%s' from the point and a later evaluation's value depends on it" % (name, n), *site(lambda e: e.kind == "attr_write" and e.data["name"] == n))
    # the value
    res.add("values analysed")
    if not isinstance(rv, Bot):
        c = I.content(st, rv)
        seen = set()
        for y in t.leaves(c):
            if y.op == "draw" or y.op == "sym" and str(y.args[0]).startswith("ambient"):
                k = "random" if y.op == "draw" else "ambient"
                if k not in seen:
                    seen.add(k)
                    res.fail("value_" + k, name, "%s: the value depends on a %s" % (name, "random draw" if k == "random" else "reading of the environment"), *site(lambda e: e.kind == "draw"))
            if y.op == "sym" and str(y.args[0]).startswith("shared:"):
                res.sample("%s uses %s" % (name, y.args[0]))
        if t.is_const(c) and t.cval(c) is None:
            fi = ci.find("_evaluate")
            res.fail("value_none", name, "%s: evaluate returns None" % name, "%s:%d" % (fi.path, fi.node.lineno))
        if c.top:
            res.add("values with unmodelled parts")
    for e in ev:
        if e.kind == "draw":
            res.fail("draws", name, "%s: evaluation draws random numbers" % name, e.where(), e.stack)


def check_dimension(ctx, name, ci, res):
    for form in ("evaluate", "call"):
        for off in (-1, 1, -5, 3, 6, 0):
            dim = 6
            w, r = construct(ctx, ci, dim)
            if w.st.dead or not isinstance(r, Ref):
                return
            dv = w.st.heap[r.oid].attrs.get("dimension")
            dv = w.I.content(w.st, dv) if dv is not None else None
            if dv is None or not t.is_const(dv):
                res.undec("%s: dimension is not a constant" % name)
                return
            entered = []
            inner = ci.find("_evaluate")

            def p(I, st, b, node):
                entered.append(node)
                return S(t.sym("value", nd=0))
            w.I.prims = {(inner.module.name, inner.qual): p}
            x = w.vec("point", t.const(t.cval(dv) + off))
            call(w, r, form, [x])
            res.add("dimension checks analysed")
            fi = ci.find("evaluate")
            where = "%s:%d" % (fi.path, fi.node.lineno)
            n = "%s a point of dimension %d of %d" % ("calling the problem on" if form == "call" else "evaluating", t.cval(dv) + off, t.cval(dv))
            if off:
                if entered:
                    res.fail("wrong_dimension", "%s:%s" % (name, form), "%s: %s reaches _evaluate" % (name, n), where)
                elif not w.st.dead:
                    res.fail("wrong_dimension", "%s:%s" % (name, form), "%s: %s does not raise on every path" % (name, n), where)
            elif w.st.dead:
                res.fail("right_dimension", "%s:%s" % (name, form), "%s: %s always raises" % (name, n), where)
            elif not entered:
                res.undec("%s: %s does not reach _evaluate" % (name, form))


def check(ctx, res):
    ps = exported_problems(ctx.prog)
    res.add("problem classes analysed", len(ps))
    if len(ps) < 30:
        res.undec("only %d exported problem classes found" % len(ps))
    import os
    from . import c01
    from ..report import Result
    tmp = Result()
    c01.ambient(ctx.prog, tmp)
    for f in tmp.findings:
        if f.rule == "ambient" and f.key.startswith(("src/niapy/problems/", "niapy/problems/")):
            res.fail("ambient", f.key, "code of a problem uses a %s" % f.message, f.where)
    for name, ci in ps:
        for f in (check_purity, check_dimension):
            try:
                f(ctx, name, ci, res)
            except Exception as e:
                if os.environ.get("NIALINT_DEBUG"):
                    raise
                res.undec("%s: analysis error %s: %s" % (name, type(e).__name__, e))
