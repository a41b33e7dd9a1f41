"""C14 callbacks see every run and iteration exactly once, in order."""
import ast

from .. import runspec, terms as t
from ..interp import S, Ref, Lst, Obj, State, Interp, vleaves, Tup
from ..driver import Driver

RULE = ("(1) Typestate analysis of every run() implementation over the announcements: before_run precedes initialization, each iteration is enclosed "
        "by exactly one before_iteration/after_iteration pair, after_run comes once after the last iteration and before the return. (2) The values "
        "passed to before_iteration are term-identical to the arguments of the following run_iteration, those passed to after_iteration to its "
        "results. (3) The summary of each CallbackList method over a list of three distinct callbacks forwards to each exactly once, in list order, "
        "with unchanged arguments. (4) Abstract construction/append: afterwards the callback's `algorithm` is the algorithm, the argument list "
        "itself is not shared, and a non-callback never ends up registered.")
ASSUMPTIONS = ["callbacks themselves are user code and are not analysed"]


def fresh(ctx):
    d = ctx.driver
    t.reset()
    I = Interp(ctx.prog)
    I.indiv_cls = d.indiv
    I.parents, I.lambdas, I.prims = {}, {}, {}
    st = State()
    I.shared_scan(st)
    from ..loader import FuncInfo
    fi = FuncInfo("<driver>", ast.parse("def f(): pass").body[0], d.task_cls.methods["eval"].module, None)
    I.stack.append((fi, fi.node))
    return I, st


def mkcb(ctx, I, st, k):
    cb = ctx.prog.cls("niapy.callbacks", "Callback")
    return I.instantiate(st, cb, [], {}, ast.parse("cb%d()" % k + " " * k).body[0].value) if False else alloc_cb(ctx, I, st, k)


def alloc_cb(ctx, I, st, k):
    cb = ctx.prog.cls("niapy.callbacks", "Callback")
    st.heap[("CB", k)] = Obj(cb, {"algorithm": S(t.NONE)}, None, ())
    return Ref(("CB", k))


NODE = ast.parse("x()").body[0].value


def forwarding(ctx, res):
    cl, cb = ctx.prog.cls("niapy.callbacks", "CallbackList"), ctx.prog.cls("niapy.callbacks", "Callback")
    for m in runspec.CB:
        f = cl.find(m)
        if f is None or cb.find(m) is None:
            res.fail("forwarding", "CallbackList." + m, "CallbackList has no %s" % m, cl.module.relpath)
            continue
        I, st = fresh(ctx)
        got = []

        def prim(I, st, b, node, got=got):
            names = [n for n in b if n != "self"]
            got.append((b.get("self"), [b[n] if not isinstance(b[n], Ref) or not hasattr(st.heap.get(b[n].oid), "entries") else tuple(st.heap[b[n].oid].entries) for n in names], st.pc, I.inloop))
            return S(t.NONE)
        I.prims = {(cb.find(m).module.name, cb.find(m).qual): prim} if cb.find(m) is not f else {}
        cbs = [alloc_cb(ctx, I, st, k) for k in range(3)]
        st.heap[("CBL",)] = Lst(tuple(cbs), None, None, None, None, ())
        lst = I.instantiate(st, cl, [], {"callbacks": Ref(("CBL",))}, NODE)
        args = [] if m.endswith("_run") else [S(t.sym("arg%d" % k, nd=None)) for k in range(4)]
        kw = {} if m.endswith("_run") else {"extra1": S(t.sym("extra1", nd=0)), "extra2": S(t.sym("extra2", nd=0))}
        I.call_method(st, lst, m, args, kw, NODE)
        res.add("callback forwarders checked")
        if st.dead:
            res.fail("forwarding", f.qual, "%s always raises" % f.qual, f.module.relpath)
            continue
        seq = [g[0] for g in got]
        if any(g[2] for g in got) and len(seq) == 3:
            res.fail("forwarding", f.qual, "%s forwards only under a condition" % f.qual, f.module.relpath)
        if seq != cbs:
            if len(set(map(repr, seq))) == len(seq) and len(seq) == 3 or len(seq) != 3:
                if any(g[3] for g in got):
                    res.undec("%s: order of forwarding" % f.qual)
                else:
                    res.fail("forwarding", f.qual, "%s reaches %d of 3 callbacks%s" % (f.qual, len(set(map(repr, seq))), "" if len(seq) != 3 else " in another order"), f.module.relpath)
        for g in got:
            want = list(args) + ([tuple(kw.items())] if kw else [])
            if kw and g[1] and isinstance(g[1][-1], tuple):
                a = g[1][:-1] + [tuple(sorted(g[1][-1]))]
                want = args + [tuple(sorted(kw.items()))]
            else:
                a = g[1]
            if a != want:
                if [x for x in a if isinstance(x, S) and x.t.top]:
                    res.undec("%s: forwarded arguments" % f.qual)
                else:
                    res.fail("forwarding", f.qual + ":args", "%s does not forward its arguments unchanged" % f.qual, f.module.relpath)


def registration(ctx, res):
    alg_ci, cl = ctx.driver.alg_cls, ctx.prog.cls("niapy.callbacks", "CallbackList")
    where = cl.module.relpath
    for form in ("list", "tuple", "callbacklist"):
        I, st = fresh(ctx)
        cbs = [alloc_cb(ctx, I, st, k) for k in range(2)]
        st.heap[("CBL",)] = Lst(tuple(cbs), None, None, None, None, ())
        arg = Ref(("CBL",)) if form == "list" else Tup(tuple(cbs))
        if form == "callbacklist":
            arg = I.instantiate(st, cl, [], {"callbacks": Ref(("CBL",))}, NODE)
        alg = I.instantiate(st, alg_ci, [], {"callbacks": arg}, NODE)
        res.add("registration forms checked")
        if st.dead:
            res.fail("registration", "construct:" + form, "constructing with callbacks given as a %s always raises" % form, where)
            continue
        for c in cbs:
            a = st.heap[c.oid].attrs.get("algorithm")
            if a != alg:
                if isinstance(a, S) and a.t is not t.NONE:
                    res.undec("registration at construction (%s)" % form)
                else:
                    res.fail("registration", "construct:" + form, "a callback given at construction (%s) is not attached to its algorithm" % form, where)
        # later registration
        late = alloc_cb(ctx, I, st, 9)
        own = st.heap[alg.oid].attrs.get("callbacks")
        before = members(I, st, own)
        I.call_method(st, own, "append", [late], {}, NODE)
        res.add("registration forms checked")
        after = members(I, st, own)
        if st.dead:
            res.fail("registration", "append", "append always raises for a callback", where)
            continue
        if st.heap[late.oid].attrs.get("algorithm") != alg:
            a = st.heap[late.oid].attrs.get("algorithm")
            if isinstance(a, S) and a.t is t.NONE:
                res.fail("registration", "append", "a callback appended to the algorithm's list is not attached to its algorithm", where)
            else:
                res.undec("registration by append")
        if before is None or after is None:
            res.undec("members after append")
        elif after != before + [late]:
            res.fail("registration", "append:members", "append does not add the callback at the end of the list", where)
        # non-callbacks
        st2 = st.copy()
        I.call_method(st2, own, "append", [S(t.const(5))], {}, NODE)
        res.add("registration forms checked")
        if not st2.dead:
            m2 = members(I, st2, own)
            if m2 is None:
                res.undec("append of a non-callback")
            else:
                res.fail("registration", "append:reject", "append accepts something that is not a callback", where)


def members(I, st, v):
    o = st.heap.get(getattr(v, "oid", None))
    if not isinstance(o, Obj):
        return None
    l = o.attrs.get("callbacks")
    return I.exact_items(st, l) if l is not None else None


def check(ctx, res):
    for fi, cis in runspec.groups(ctx.driver).items():
        for bare in (False, True):
            A = runspec.analyse(ctx.driver, cis[0], bare=bare)
            res.add("run() implementations")
            kinds = {e.data["what"] for e in A.events if e.kind == "protocol"}
            for m in runspec.CB:
                res.add("announcements located", m in kinds)
                if m not in kinds:
                    res.fail("protocol", "%s:%s" % (fi.qual, m), "run() never announces %s" % m, runspec.where(A, None, fi.node))
            for (kind, msg), (node, f) in A.proto.bad.items():
                if kind == "callback":
                    res.fail("protocol", "%s:%s" % (fi.qual, msg), msg, runspec.where(A, f, node))
            last = None
            pend = []
            for e in A.events:
                if e.kind == "cb" and e.data["name"] == "before_iteration":
                    pend.append(e)
                elif e.kind == "p_iter":
                    vals = dict(zip(e.data["names"], e.data["vals"]))
                    vs = e.data["vals"][1:]
                    for b in pend:
                        compare(res, fi, A, b, vs, "before_iteration", "what the iteration receives")
                    pend = []
                elif e.kind == "p_iter_ret":
                    last = e
                elif e.kind == "cb" and e.data["name"] == "after_iteration" and last is not None:
                    compare(res, fi, A, e, last.data["vals"], "after_iteration", "what the iteration returned")
    forwarding(ctx, res)
    registration(ctx, res)


def compare(res, fi, A, e, want, name, what):
    got = e.data["vals"]
    labels = ("population", "fitness", "best solution", "best fitness", "state")
    res.add("announced values compared", 5)
    if len(got) < 5 or len(want) < 5:
        res.undec("%s: arguments of %s" % (fi.qual, name))
        return
    for lab, g, w in zip(labels, got, want):
        if g == w or g is w:
            continue
        if isinstance(g, t.T) and isinstance(w, t.T) and (t.same(g, w) or g.top or w.top):
            if not t.same(g, w):
                res.undec("%s: %s of %s" % (fi.qual, lab, name))
            continue
        res.fail("announced-values", "%s:%s:%s" % (fi.qual, name, lab), "the %s passed to %s is not %s" % (lab, name, what), e.where())
