"""Protocol (typestate) analysis of Algorithm.run and its callback wiring."""
import ast

from . import order, terms as t
from .driver import LO, UP, PROB
from .interp import S, Ref, Lst, Obj, Dct, Tup, Fn, BM, Interp, State, arr, vleaves, BOT, PhiV, Cls
from .loader import FuncInfo

CB = ("before_run", "after_run", "before_iteration", "after_iteration")


def stops(c, val, out=None, depth=0):
    """which stop tests does `c is val` decide, and how"""
    out = {} if out is None else out
    if depth > 12:
        return out
    if c.op == "sym" and str(c.args[0]).startswith("stop("):
        out[c] = val
    elif c.op == "not":
        stops(c.args[0], not val, out, depth + 1)
    elif c.op == "or" and not val or c.op == "and" and val:
        stops(c.args[0], val, out, depth + 1)
        stops(c.args[1], val, out, depth + 1)
    elif c.op == "phi":
        stops(c.args[1], val, out, depth + 1)
        stops(c.args[2], val, out, depth + 1)
    elif c.op == "lphi":
        for d in t.DEFS.get(c, ()):
            stops(d, val, out, depth + 1)
    elif c.op == "cmp" and c.args[0] in ("==", "is"):
        for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if b is t.TRUE or b is t.FALSE:
                stops(a, val == (b is t.TRUE), out, depth + 1)
    return out


class Proto:
    """state: (initialised, iteration awaiting next_iter, last stop test: None/'go'/'end'/pending symbol,
    callback phase: 'new','run','before','after','done')"""
    START = (False, False, None, "new", False)

    def __init__(self):
        self.bad = {}

    def err(self, kind, msg, node, I, q):
        self.bad.setdefault((kind, msg), (node, I.stack[-1][0] if I.stack else None))

    def assumed(self, I, st, c, val):
        m = stops(c, val)
        if not m:
            return
        out = set()
        for q in st.gh:
            p = q[2] if q != "EXC" else None
            if isinstance(p, t.T) and p in m:
                q = q[:2] + ("end" if m[p] else "go",) + q[3:]
            out.add(q)
        st.gh = frozenset(out)

    def handler(self, log):
        return frozenset({"EXC"})

    def step(self, I, st, what, node, data):
        out = set()
        I.ev("protocol", node, what=what, catch=[n for l in I.trycatch for n in l])
        for q in st.gh:
            if q == "EXC":
                out.add(q)
                continue
            init, need, chk, cb, itd = q
            if what == "stop":
                chk = data["sym"]
            elif what == "init":
                if init:
                    self.err("order", "the population is initialised twice", node, I, 0)
                if cb != "run":
                    self.err("callback", "the population is initialised %s" % ("before before_run is announced" if cb == "new" else "after iterations began"), node, I, 0)
                init, chk = True, None
            elif what == "iter":
                if not init:
                    self.err("order", "an iteration runs before the initialization", node, I, 0)
                if need:
                    self.err("count", "a second iteration starts before the first one was counted", node, I, 0)
                if chk != "go":
                    self.err("check", "an iteration starts without the stopping criteria having been found unmet since the last iteration", node, I, 0)
                if cb != "before":
                    self.err("callback", "an iteration starts without before_iteration having been announced for it", node, I, 0)
                need, chk, itd = True, None, True
            elif what == "next":
                if not need:
                    self.err("count", "the iteration counter advances without a completed iteration", node, I, 0)
                need, chk = False, None
            elif what == "before_run":
                if cb != "new":
                    self.err("callback", "before_run is announced twice or too late", node, I, 0)
                cb = "run"
            elif what == "before_iteration":
                if cb not in ("run", "after"):
                    self.err("callback", "before_iteration is announced out of order (after %s)" % cb, node, I, 0)
                if not init:
                    self.err("callback", "before_iteration is announced before the initialization", node, I, 0)
                if chk != "go":
                    self.err("callback", "before_iteration is announced although no iteration may follow", node, I, 0)
                cb, itd = "before", False
            elif what == "after_iteration":
                if cb != "before" or not itd:
                    self.err("callback", "after_iteration is announced without a completed iteration", node, I, 0)
                cb = "after"
            elif what == "after_run":
                if cb not in ("run", "after"):
                    self.err("callback", "after_run is announced out of order (after %s)" % cb, node, I, 0)
                if chk != "end":
                    self.err("callback", "after_run is announced although the run is not over", node, I, 0)
                cb = "done"
            out.add((init, need, chk, cb, itd))
        return frozenset(out)

    def at_return(self, I, gh, node):
        for q in gh:
            if q == "EXC":
                continue
            init, need, chk, cb, itd = q
            if chk != "end":
                self.err("end", "the run returns although no stopping criterion was found met", node, I, 0)
            if need:
                self.err("count", "the run returns with a completed iteration that was not counted", node, I, 0)
            if cb != "done":
                self.err("callback", "the run returns without announcing after_run", node, I, 0)


def analyse(driver, ci, opt=None, bare=False):
    """interpret ci's run() with initialization, iteration, stop test, next_iter and callbacks as protocol events (bare: the algorithm keeps no state of its own)"""
    t.reset()
    prog = driver.prog
    I = Interp(prog)
    I.indiv_cls = driver.indiv
    I.parents, I.lambdas = {}, {}
    proto = Proto()
    st = State()
    I.shared_scan(st)
    D = t.sym("D", nd=0)
    t.LOWER.org = t.UPPER.org = D
    st.heap[LO], st.heap[UP] = arr(t.LOWER), arr(t.UPPER)
    st.heap[PROB] = Obj(driver.problem_cls, {"dimension": S(D), "lower": Ref(LO), "upper": Ref(UP)}, None, ())
    fi = FuncInfo("<driver>", ast.parse("def f(): pass").body[0], driver.task_cls.methods["eval"].module, None)
    I.stack.append((fi, fi.node))
    log = []

    def p_stop(I, st, b, node):
        s = t.sym("stop(%s)" % (I.key(node),), nd=0)
        I.step(st, "stop", node, sym=s)
        return S(s)

    def p_next(I, st, b, node):
        I.step(st, "next", node)
        return S(t.NONE)

    def mkres(I, st, node, tag, n):
        k = I.key(node, tag)
        pop = I.alloc(st, arr(t.sym("pop:%s%s" % (tag, k), nd=2)), k + ("pop",) if isinstance(k, tuple) else (k, "pop"))
        fp = I.alloc(st, arr(t.sym("fpop:%s%s" % (tag, k), nd=1)), k + ("fpop",))
        d = I.new_dict(st, [] if bare else [("state0", S(t.sym("state:%s%s" % (tag, k), nd=0)))], k + ("d",))
        if n == 3:
            return Tup((pop, fp, d))
        xb = I.alloc(st, arr(t.sym("xb:%s%s" % (tag, k), nd=1)), k + ("xb",))
        return Tup((pop, fp, xb, S(t.sym("fxb:%s%s" % (tag, k), nd=0)), d))

    def snap(I, st, v):
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Dct):
            return tuple((k, I.content(st, x)) for k, x in st.heap[v.oid].entries)
        return I.content(st, v)

    def p_init(I, st, b, node):
        I.step(st, "init", node)
        r = mkres(I, st, node, "init", 3)
        I.ev("p_init", node, bound=b, task=b.get("task"))
        return r

    def p_iter(I, st, b, node):
        I.step(st, "iter", node)
        names = [n for n in b if n != "self"]
        I.ev("p_iter", node, names=names, vals=[snap(I, st, b[n]) for n in names], pc=st.pc)
        r = mkres(I, st, node, "iter", 5)
        I.ev("p_iter_ret", node, vals=[snap(I, st, x) for x in r.items], pc=st.pc)
        return r

    def p_best(I, st, b, node):
        names = [n for n in b if n != "self"]
        I.ev("p_best", node, vals=[snap(I, st, b[n]) for n in names[:2]])
        k = I.key(node, "best")
        xb = I.alloc(st, arr(t.sym("xb:best%s" % (k,), nd=1)), k + ("xb",))
        return Tup((xb, S(t.sym("fxb:best%s" % (k,), nd=0))))

    def p_cb(name):
        def f(I, st, b, node):
            I.step(st, name, node)
            names = [n for n in b if n != "self"]
            I.ev("cb", node, name=name, vals=[snap(I, st, b[n]) for n in names], pc=st.pc)
            return S(t.NONE)
        return f
    prims = {}
    for m, h in (("stopping_condition", p_stop), ("next_iter", p_next)):
        f = driver.task_cls.find(m)
        prims[(f.module.name, f.qual)] = h
    for m, h in (("init_population", p_init), ("run_iteration", p_iter), ("get_best", p_best)):
        f = ci.find(m)
        prims[(f.module.name, f.qual)] = h
    cl = prog.cls("niapy.callbacks", "CallbackList")
    for m in CB:
        f = cl.find(m)
        if f is not None:
            prims[(f.module.name, f.qual)] = p_cb(m)
    I.prims = prims
    node = ast.parse("Task()").body[0].value
    task = I.instantiate(st, driver.task_cls, [], {"problem": Ref(PROB), "optimization_type": S(t.sym("opt", nd=None)) if opt is None else I.get_attr(st, Cls(prog.cls("niapy.task", "OptimizationType")), opt, node)}, node)
    node = ast.parse("%s()" % ci.name).body[0].value
    alg, kw = driver.make_alg(I, st, ci)
    o = st.heap[alg.oid]
    at = dict(o.attrs)
    at["exception"] = S(t.sym("@exception", nd=None))
    st.heap[alg.oid] = o._replace(attrs=at)
    I.proto = proto
    st.gh = frozenset({Proto.START})
    mark = len(I.events)
    rets = []

    runfi = ci.find("run")

    def rh(I2, fi, outs):
        if fi is runfi:
            for s2, v in outs:
                for s3 in cases(I2, s2):
                    ex = s3.heap[alg.oid].attrs.get("exception")
                    e = I2.content(s3, I2.prune(s3, ex)) if ex is not None else None
                    for pc, x in alternatives(I2, s3, I2.prune(s3, v), s3.pc):
                        its = [under(I2.content(s3, y), pc) for y in x.items] if isinstance(x, Tup) else None
                        rets.append(Return((s3.gh, pc, its, under(e, pc) if e is not None else None, x)))
                        rets[-1].at = len(I2.events) if s2.at is None else s2.at
    I.ret_hook = rh
    rv = I.call_method(st, alg, "run", [task], {}, ast.parse("alg.run(task)").body[0].value)
    A = type("A", (), {})()
    A.I, A.st, A.rv, A.alg, A.task, A.proto, A.events = I, st, rv, alg, task, proto, I.events[mark:]
    for i, e in enumerate(I.events):
        e.at = i
    A.rets, A.runfi = rets, runfi
    for gh, pc, its, ex, v in rets:
        proto.at_return(I, gh, runfi.node)
    return A


class Return(tuple):
    """(protocol states, path condition, values, stored exception, value), at = index of the last event before it"""


def under(x, pc):
    """the term with the path's conditions resolved"""
    for c, val in pc:
        if isinstance(c, t.T) and t.contains(x, c):
            x = t.subst(x, c, t.boolc(bool(val)))
    return x


def hyp(I, st, c, val):
    proto, I.proto = I.proto, None
    I.assume(st, c, val)
    I.proto = proto


def cases(I, st):
    """a state in which the failed and the completed executions meet, taken apart again"""
    excs = [x for x in I.excs if not any(c is x for c, _ in st.pc)]
    if "EXC" not in st.gh or not (st.gh - {"EXC"}) or not excs:
        return [st]
    out = []
    for val in (True, False):
        s = st.copy()
        s.gh = frozenset({"EXC"}) if val else st.gh - {"EXC"}
        if len(excs) == 1:
            hyp(I, s, excs[0], val)
            for c, b in I.excs[excs[0]] if val else ():
                hyp(I, s, c, b)
        elif not val:
            for x in excs:
                hyp(I, s, x, False)
        out.append(s)
    return out


def alternatives(I, st, v, pc):
    if isinstance(v, PhiV):
        for val, x in ((True, v.a), (False, v.b)):
            s = st.copy()
            s.pc = pc
            hyp(I, s, v.c, val)
            if not s.dead:
                yield from alternatives(I, s, I.prune(s, x), s.pc)
    else:
        yield pc, v


def groups(driver):
    """the distinct run() implementations among the exported algorithms, with one class each"""
    out = {}
    for pkg, name, ci in driver.prog.exported_algorithms():
        f = ci.find("run")
        out.setdefault(f, []).append(ci)
    base = driver.alg_cls
    out.setdefault(base.find("run"), []).insert(0, base)
    return out


def where(A, fi, node):
    f = fi or A.runfi
    return "%s:%d in %s" % (f.module.relpath, getattr(node, "lineno", 0), f.qual)
