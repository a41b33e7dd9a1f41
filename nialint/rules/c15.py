"""C15 the experiment runner covers every algorithm/problem/run combination."""
import ast

from .. import terms as t
from ..interp import S, Ref, Obj, Lst, Dct, Tup, Cls, Ext, Fn, PhiV, vleaves, Bot
from ..loader import ClassInfo
from ..probspec import World, exported_problems

RULE = ("Abstract interpretation of Runner.__init__ and Runner.run with the collaborators as recording primitives: get_algorithm, get_problem, the Task "
        "constructor, Algorithm.run and the data frame exports. Dimension and evaluation limit are symbols, algorithms and problems are lists of names and "
        "instances, outcomes are distinct symbols. The records decide: every (algorithm, problem, run) executed once, each on its own Task whose problem, "
        "dimension and limit are the requested ones; every outcome found under the algorithm's and the problem's name both in the returned dict and in "
        "what is exported; exactly one export of the requested kind, none and an exception for an unknown format.")
ASSUMPTIONS = ["lists of algorithms, problems and run counts are analysed up to three elements; the loops treat their elements alike"]
MOD = "niapy.runner"
EXPORTS = {"dataframe": ("to_pickle", "pkl"), "json": ("to_json", "json"), "excel": ("to_excel", "xlsx")}
WRITERS = ("to_pickle", "to_json", "to_excel", "to_csv", "to_hdf", "to_parquet", "to_html", "to_latex", "to_feather")


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        w = self.w = World(ctx.driver)
        I = w.I
        I.UNROLL = 400
        self.tasks, self.runs, self.exports, self.asked, self.misuse = [], [], [], [], []
        st = w.st
        acls = [ctx.prog.cls("niapy.algorithms.basic.gwo", "GreyWolfOptimizer"), ctx.prog.cls("niapy.algorithms.basic.de", "DifferentialEvolution")]
        ps = dict(exported_problems(ctx.prog))
        pcls = [ps[k] for k in ("Griewank", "Rastrigin")]
        self.acls, self.pcls = acls, pcls
        for k, c in enumerate(acls + acls[:1]):
            st.heap[("ALGI", k)] = Obj(c, {"#id": S(t.const("instance:%d:%s" % (k, c.name)))}, None, ())
        for k, c in enumerate(pcls + pcls[:1]):
            st.heap[("PRBI", k)] = Obj(c, {"#id": S(t.const("instance:%d:%s" % (k, c.name)))}, None, ())
        self.n = 0
        prims = {}

        def p_alg(I, st, b, node):
            nm = b.get("name")
            c = I.content(st, nm) if nm is not None else t.top("name")
            if isinstance(nm, Ref) and nm.oid[0] == "ALGI":
                self.misuse.append((st.heap[nm.oid].ci.name, site(I, node), st.pc))
            extra = any(isinstance(v, Tup) and v.items or isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Dct) and st.heap[v.oid].entries
                        for k, v in b.items() if k != "name")
            self.n += 1
            oid = ("ALGN", self.n)
            self.asked.append((c, extra, site(I, node)))
            st.heap[oid] = Obj(acls[0], {"#id": S(t.const("name:%s" % t.cval(c)) if t.is_const(c) else t.top("name"))}, None, ())
            return Ref(oid)

        def p_prob(I, st, b, node):
            nm = b.get("name")
            c = I.content(st, nm) if nm is not None else t.top("name")
            kw = next((st.heap[v.oid] for k, v in b.items() if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Dct)), None)
            pos = next((v for v in b.values() if isinstance(v, Tup)), Tup(()))
            d = dict(kw.entries) if kw else {}
            if pos.items:
                d.setdefault("dimension", pos.items[0])
            self.n += 1
            oid = ("PRBN", self.n)
            st.heap[oid] = Obj(pcls[0], {"#id": S(t.const("name:%s" % t.cval(c)) if t.is_const(c) else t.top("name")),
                                         "#dim": d.get("dimension", S(t.const("default")))}, None, ())
            return Ref(oid)

        def p_task(I, st, b, node):
            self.n += 1
            oid = ("TASK", self.n)
            rec = {k: I.content(st, v) for k, v in b.items() if k not in ("self", "problem")}
            p, dim = b.get("problem"), rec.get("dimension")
            if isinstance(p, Ref) and isinstance(st.heap.get(p.oid), Obj):
                o = st.heap[p.oid].attrs
                pid = I.content(st, o["#id"]) if "#id" in o else t.top("problem")
                if "#dim" in o:
                    dim = I.content(st, o["#dim"])
                elif t.is_const(pid):
                    dim = None          # an instance has its own dimension
            else:
                c = I.content(st, p) if p is not None else t.top("no problem")
                pid = t.const("name:%s" % t.cval(c)) if t.is_const(c) and isinstance(t.cval(c), str) else t.top("problem") if c.top else c
            self.tasks.append(oid)
            st.heap[oid] = Obj(ctx.prog.cls("niapy.task", "Task"), {}, None, ())
            self.info[oid] = dict(problem=pid, dim=dim, args=rec, site=site(I, node), pc=st.pc)
            return Ref(oid)

        def p_run(I, st, b, node):
            a, k = b.get("self"), b.get("task")
            o = st.heap.get(a.oid) if isinstance(a, Ref) else None
            aid = I.content(st, o.attrs["#id"]) if isinstance(o, Obj) and "#id" in o.attrs else t.top("algorithm")
            self.n += 1
            out = (t.sym("out.x%d" % self.n, nd=1), t.sym("out.f%d" % self.n, nd=0))
            self.runs.append(dict(alg=aid, task=k.oid if isinstance(k, Ref) else None, out=out, site=site(I, node), pc=st.pc))
            return Tup((S(out[0]), S(out[1])))
        self.info = {}
        for m in ctx.prog.modules.values():
            for v in m.names.values():
                if v[0] == "class" and v[1].is_sub(ctx.driver.alg_cls) and "run" in v[1].methods:
                    prims[(v[1].methods["run"].module.name, v[1].methods["run"].qual)] = p_run
        prims[("niapy.util.factory", "get_algorithm")] = p_alg
        prims[("niapy.util.factory", "get_problem")] = p_prob
        I.prims = prims
        I.models, I.methmodels = dict(I.models), dict(I.methmodels)
        tcls = ctx.prog.cls("niapy.task", "Task")
        orig = I.instantiate

        def inst(st, ci, args, kw, node, maybe=frozenset(), open_=False):
            if isinstance(ci, ClassInfo) and ci.is_sub(tcls):
                b = I.bind(st, ci.find("__init__"), [S(t.NONE)] + list(args), kw, node, maybe, open_)
                return p_task(I, st, b, node)
            return orig(st, ci, args, kw, node, maybe, open_)
        I.instantiate = inst

        def frame(I, st, args, kw, node):
            self.n += 1
            oid = ("DF", self.n)
            d = args[0] if args else kw.get("data")
            st.heap[oid] = Obj("DataFrame", {"#data": d if d is not None else S(t.top("data"))}, None, ())
            return Ref(oid)
        for n in ("pandas.DataFrame", "pandas.DataFrame.from_dict", "pandas.DataFrame.from_records", "DataFrame", "DataFrame.from_dict"):
            I.models[n] = frame

        def writer(kind):
            def f(I, st, o, args, kw, node):
                r = st.heap.get(o.oid) if isinstance(o, Ref) else None
                p = args[0] if args else next(iter(kw.values()), None)
                d = r.attrs.get("#data") if isinstance(r, Obj) else None
                self.exports.append(dict(kind=kind, path=I.content(st, p) if p is not None else None, held=self.held(st, d), site=site(I, node), pc=st.pc))
                return S(t.NONE)
            return f
        for n in WRITERS:
            I.methmodels[n] = writer(n)
        self.strs = []

        def const_part(I, st, args, kw, node):
            return S(t.sym("now", nd=None))
        I.models.setdefault("os.path.exists", const_part)
        I.models.setdefault("os.path.isdir", const_part)
        for n in ("os.makedirs", "os.mkdir"):
            I.models.setdefault(n, lambda I, st, args, kw, node: S(t.NONE))

    def inputs(self, algs, probs):
        st = self.w.st

        def val(x, tag):
            return S(t.const(x)) if isinstance(x, str) else Ref((tag, x))
        st.heap[("ALGS",)] = Lst(tuple(val(a, "ALGI") for a in algs), None, None, None, None, ())
        st.heap[("PRBS",)] = Lst(tuple(val(p, "PRBI") for p in probs), None, None, None, None, ())
        return {"algorithms": Ref(("ALGS",)), "problems": Ref(("PRBS",))}

    def held(self, st, v):
        """{(alg name, problem name): [outcome terms]} of a results dict, None when it is not understood"""
        r = st.heap.get(v.oid) if isinstance(v, Ref) else None
        if not isinstance(r, Dct) or r.open:
            return None
        out = {}
        for k, x in r.entries:
            d = st.heap.get(x.oid) if isinstance(x, Ref) else None
            if not isinstance(d, Dct) or k in r.maybe or d.open:
                return None
            for k2, y in d.entries:
                its = self.w.I.exact_items(st, y) if k2 not in d.maybe else None
                if its is None:
                    return None
                row = []
                for z in its:
                    zi = self.w.I.exact_items(st, z)
                    row.append(tuple(self.w.I.content(st, q) for q in zi) if zi is not None else (self.w.I.content(st, z),))
                out[(k, k2)] = row
            if not d.entries:
                out[(k, None)] = []
        return out


def site(I, node):
    return "%s:%d" % (I.stack[-1][0].path, getattr(node, "lineno", 0))


def ident(R, x, kind):
    if isinstance(x, str):
        return "name:%s" % x
    c = (R.acls + R.acls[:1] if kind == "a" else R.pcls + R.pcls[:1])[x]
    return "instance:%d:%s" % (x, c.name)


def label(R, x, kind):
    return x if isinstance(x, str) else (R.acls + R.acls[:1] if kind == "a" else R.pcls + R.pcls[:1])[x].name


CONFIGS = [
    # algorithms, problems, runs, export, verbose
    (["HybridAlgorithmV1", 0, "HybridAlgorithmV2"], ["schwefel_221_a", 0], 2, "dataframe", False),
    (["HybridAlgorithmV1"], ["schwefel_221_a", "Schwefel_221_A", 1], 3, "json", False),
    ([0, 1], [0, 1], 1, "excel", False),
    (["HybridAlgorithmV2", "HybridAlgorithmV1", "hybridAlgorithmV1"], ["schwefel_221_b"], 1, "dataframe", True),
    ([0], [0], 5, "dataframe", False),
    (["HybridAlgorithmV1"], [1], 1, "excel", True),
    ([1, "HybridAlgorithmV2"], ["schwefel_221_a"], 4, "json", True),
    (["HybridAlgorithmV1"], ["schwefel_221_a"], 12, "dataframe", False),
]


def scenario(ctx, res, algs, probs, runs, export, verbose, twice=False):
    R = Run(ctx)
    w, I = R.w, R.w.I
    cls = ctx.prog.cls(MOD, "Runner")
    frun = cls.find("run")
    where = "%s:%d" % (frun.path, frun.node.lineno)
    dim, lim = t.sym("req.dimension", nd=0), t.sym("req.max_evals", nd=0)
    kw = {"dimension": S(dim), "max_evals": S(lim), "runs": S(t.const(runs)), **R.inputs(algs, probs)}
    runner = I.instantiate(w.st, cls, [], kw, w.node)
    what = "algorithms %s, problems %s, %d run(s), export %s" % ([a if isinstance(a, str) else label(R, a, "a") + "()" for a in algs],
                                                               [p if isinstance(p, str) else label(R, p, "p") + "()" for p in probs], runs, export)
    res.add("configurations interpreted")
    if not isinstance(runner, Ref) or w.st.dead:
        res.undec("%s: construction" % what)
        return
    args = {"export": S(t.const(export)), "verbose": S(t.const(verbose))}
    call = lambda: I.call_fn(w.st, frun, [runner], dict(args), w.node)
    n0 = len(I.events)
    rv = call()
    if twice and not w.st.dead:
        R.tasks2, R.runs, R.exports, R.asked = list(R.tasks), [], [], []
        rv = call()
        what += ", second run()"
    evs = [e for e in I.events[n0:] if e.kind in ("call_unknown", "ext_unknown", "recursion")]
    for n, s, pc in R.misuse[:1]:
        if not pc:
            res.fail("instance_as_name", "algorithm", "%s: the given instance of %s is looked up in the factory as if it were a name" % (what, n), s)
    known = export in EXPORTS
    if not known:
        if R.exports and not R.exports[0]["pc"]:
            res.fail("unknown_format", "export", "an export is written for the unknown format '%s'" % export, R.exports[0]["site"])
        elif not w.st.dead:
            if R.exports or isinstance(rv, Bot):
                res.undec("unknown format '%s'" % export)
            else:
                res.fail("unknown_format", "accepted", "run(export='%s') returns instead of rejecting the unknown format" % export, where)
        return
    if w.st.dead:
        res.fail("raises", "run", "%s: every path raises" % what, where)
        return
    # executions
    want = [(ident(R, a, "a"), ident(R, p, "p")) for a in algs for p in probs for _ in range(runs)]
    got, clear, seen = [], not any(r["pc"] for r in R.runs), {}
    for r in R.runs:
        res.add("executions compared")
        k = R.info.get(r["task"])
        if k is None or not t.is_const(r["alg"]) or not t.is_const(k["problem"]):
            if k is not None and not k["problem"].top and not t.is_const(k["problem"]):
                res.fail("problem", "task", "%s: the task's problem is %s" % (what, t.show(k["problem"])[:60]), k["site"])
            clear = False
            continue
        got.append((t.cval(r["alg"]), t.cval(k["problem"])))
        if r["task"] in seen:
            if not r["pc"]:
                res.fail("shared_task", "task", "%s: one task is used for more than one run" % what, r["site"])
        seen[r["task"]] = r
        check_task(R, res, k, dim, lim, what)
    for c, extra, s in R.asked:
        if extra:
            res.undec("%s: an algorithm is created with extra arguments [%s]" % (what, s))
    if sorted(got) != sorted(want):
        if clear and not evs:
            miss = [x for x in want if want.count(x) > got.count(x)]
            more = [x for x in got if got.count(x) > want.count(x)]
            x = (miss or more)[0]
            res.fail("coverage", "missing" if miss else "extra", "%s: %s on %s is executed %d time(s) instead of %d" % (what, x[0], x[1], got.count(x), want.count(x)), where)
        else:
            res.undec("%s: executions" % what)
        return
    # results
    hold = {}
    for r in R.runs:
        a, p = t.cval(r["alg"]), t.cval(R.info[r["task"]]["problem"])
        hold.setdefault((a.split(":")[-1], p.split(":")[-1]), []).append(r["out"])
    res.add("results compared")
    compare_results(R, res, R.held(w.st, rv), hold, what, "returned results", where, "returned")
    at = I.get_attr(w.st, runner, "results", w.node)
    compare_results(R, res, R.held(w.st, at), hold, what, "runner's results", where, "attribute")
    # export
    live = [e for e in R.exports]
    kind, ext = EXPORTS[export]
    if any(e["pc"] for e in live):
        live = [e for e in live if not contradicted(e["pc"])]
    if len(live) != 1 or live[0]["kind"] != kind:
        if evs or any(e["pc"] for e in live) or not live and opaque(I, n0):
            res.undec("%s: exports %s" % (what, [e["kind"] for e in live]))
        else:
            res.fail("export", export, "%s: writes %s instead of one %s" % (what, [e["kind"] for e in live] or "nothing", kind), live[0]["site"] if live else where)
        return
    e = live[0]
    res.add("exports compared")
    compare_results(R, res, e["held"], hold, what, "exported data", e["site"], "export")
    if e["path"] is not None:
        txt = "".join(str(t.cval(x)) for x in t.leaves(e["path"]) if t.is_const(x) and isinstance(t.cval(x), str))
        others = [v for _, v in EXPORTS.values() if v != ext and v in txt]
        if others and ext not in txt:
            res.fail("export_name", export, "%s: the %s export is written to a .%s file" % (what, kind, others[0]), e["site"])


def opaque(I, n0):
    return any(e.kind in ("ext_unknown", "call_unknown") for e in I.events[n0:])


def contradicted(pc):
    return any(t.is_const(c) and bool(t.cval(c)) != v for c, v in pc)


def check_task(R, res, k, dim, lim, what):
    a = k["args"]
    res.add("tasks compared")
    if k["dim"] is not None:
        d = k["dim"]
        if not t.same(d, dim):
            (res.undec("%s: dimension %s" % (what, t.show(d)[:60])) if d.top or not (t.is_const(d) or d.op == "sym")
             else res.fail("dimension", "task", "%s: the task's dimension is %s instead of the requested one" % (what, t.show(d)), k["site"]))
    m = a.get("max_evals")
    if m is None or not t.same(m, lim):
        (res.undec("%s: evaluation limit" % what) if m is None or m.top
         else res.fail("limit", "task", "%s: the task's evaluation limit is %s instead of the requested one" % (what, t.show(m)[:60]), k["site"]))
    for n, c in a.items():
        if n in ("dimension", "max_evals") or c is None:
            continue
        if n in ("max_iters", "cutoff_value", "lower", "upper"):
            if t.is_const(c) and t.cval(c) in (None, float("inf"), float("-inf")) or c.top or not (t.is_const(c) or c.op == "sym" and "req." in str(c.args[0])):
                continue
            res.fail("extra_limit", n, "%s: the task gets %s = %s, which nobody requested" % (what, n, t.show(c)), k["site"])


def compare_results(R, res, got, hold, what, name, where, key):
    if got is None:
        res.undec("%s: %s" % (what, name))
        return
    for (a, p), outs in hold.items():
        row = got.get((a, p))
        if row is None:
            res.fail("results", key + ":key", "%s: the %s hold nothing under ['%s']['%s']" % (what, name, a, p), where)
            return
        if any(any(c.top for c in z) for z in row):
            res.undec("%s: %s" % (what, name))
            return
        flat = [tuple(z) for z in row]
        for o in outs:
            if o not in flat and not (len(o) and any(set(o) <= set(z) for z in flat)):
                if any(not all(c.op == "sym" or t.is_const(c) for c in z) for z in flat):
                    res.undec("%s: %s under ['%s']['%s']" % (what, name, a, p))
                    return
                res.fail("results", key + ":lost", "%s: the %s miss an outcome of ['%s']['%s']" % (what, name, a, p), where)
                return
        if len(flat) != len(outs):
            res.fail("results", key + ":count", "%s: the %s hold %d outcomes under ['%s']['%s'] for %d runs" % (what, name, len(flat), a, p, len(outs)), where)
            return
    extra = [k for k in got if k not in hold]
    if extra:
        res.fail("results", key + ":extra", "%s: the %s hold entries nobody requested under %s" % (what, name, extra[0]), where)


def check_collision(ctx, res, kind):
    """two instances of one class: no outcome may be lost"""
    R = Run(ctx)
    w, I = R.w, R.w.I
    cls = ctx.prog.cls(MOD, "Runner")
    frun = cls.find("run")
    where = "%s:%d" % (frun.path, frun.node.lineno)
    algs, probs = ([0, 2], ["schwefel_221_a"]) if kind == "algorithms" else (["HybridAlgorithmV1"], [0, 2])
    kw = {"dimension": S(t.sym("req.dimension", nd=0)), "max_evals": S(t.sym("req.max_evals", nd=0)), "runs": S(t.const(1)), **R.inputs(algs, probs)}
    runner = I.instantiate(w.st, cls, [], kw, w.node)
    rv = I.call_fn(w.st, frun, [runner], {"export": S(t.const("dataframe"))}, w.node)
    res.add("configurations interpreted")
    got = R.held(w.st, rv) if not w.st.dead else None
    if got is None or any(r["pc"] for r in R.runs):
        res.undec("two instances among the %s" % kind)
        return
    have = {c for row in got.values() for z in row for c in z}
    for r in R.runs:
        if not set(r["out"]) <= have:
            if any(c.top for c in have):
                res.undec("two instances among the %s" % kind)
            else:
                res.fail("collision", kind, "two instances of one class among the %s: the outcomes of the first are overwritten by the second's" % kind, where)
            return


def check_defaults(ctx, res):
    R = Run(ctx)
    w, I = R.w, R.w.I
    cls = ctx.prog.cls(MOD, "Runner")
    frun = cls.find("run")
    init = cls.find("__init__")
    where = "%s:%d" % (init.path, init.node.lineno)
    runner = I.instantiate(w.st, cls, [], {}, w.node)
    I.call_fn(w.st, frun, [runner], {}, w.node)
    res.add("configurations interpreted")
    names = {n for m in ("basic", "modified", "other") for n in (ctx.prog.string_list(ctx.prog.module("niapy.algorithms." + m), "__all__") or [])}
    probs = {n.lower() for n, _ in exported_problems(ctx.prog)}
    for c, extra, s in R.asked:
        if t.is_const(c) and t.cval(c) not in names:
            res.fail("defaults", "algorithms", "Runner() with its default arguments asks for the algorithm %r" % t.cval(c), s)
            break
    for k in R.info.values():
        p = k["problem"]
        if t.is_const(p) and t.cval(p).split(":")[-1].lower().replace("_", "") not in probs:
            res.fail("defaults", "problems", "Runner() with its default arguments asks for the problem %r" % t.cval(p).split(":")[-1], k["site"])
            break
    if not R.asked and not R.runs:
        res.undec("Runner() with its default arguments")


def check_isolated(ctx, res):
    """two runners share no results"""
    R = Run(ctx)
    w, I = R.w, R.w.I
    cls = ctx.prog.cls(MOD, "Runner")
    frun = cls.find("run")
    where = "%s:%d" % (frun.path, frun.node.lineno)
    base = {"dimension": S(t.const(3)), "max_evals": S(t.const(9)), "runs": S(t.const(1))}
    r1 = I.instantiate(w.st, cls, [], {**base, **R.inputs(["HybridAlgorithmV1"], ["schwefel_221_a"])}, w.node)
    w.st.heap[("ALGS2",)] = Lst((S(t.const("HybridAlgorithmV2")),), None, None, None, None, ())
    r2 = I.instantiate(w.st, cls, [], {**base, "algorithms": Ref(("ALGS2",)), "problems": Ref(("PRBS",))}, ast.parse("\n\n\nRunner2()").body[0].value)
    v1 = I.call_fn(w.st, frun, [r1], {}, w.node)
    h1 = R.held(w.st, v1) if not w.st.dead else None
    v2 = I.call_fn(w.st, frun, [r2], {}, ast.parse("\n\n\n\n\nRun2()").body[0].value)
    h2 = R.held(w.st, v2) if not w.st.dead else None
    res.add("configurations interpreted", 2)
    if h1 is None or h2 is None or r1 == r2:
        res.undec("two runners")
        return
    for k in h2:
        if k[0] != "HybridAlgorithmV2":
            res.fail("isolation", "results", "a second runner's results hold the first one's entries", where)
            return
    if R.held(w.st, v1) != h1:
        res.fail("isolation", "results", "running a second runner changes the first one's results", where)


def check(ctx, res):
    for cfg in CONFIGS:
        scenario(ctx, res, *cfg)
    scenario(ctx, res, ["HybridAlgorithmV1", 0], ["schwefel_221_a", 0], 2, "json", False, twice=True)
    for bad in ("pandas", "csv", ""):
        scenario(ctx, res, ["HybridAlgorithmV1"], ["schwefel_221_a"], 1, bad, False)
    check_collision(ctx, res, "algorithms")
    check_collision(ctx, res, "problems")
    check_defaults(ctx, res)
    check_isolated(ctx, res)
