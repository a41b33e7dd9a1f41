"""The bundled local searches (functions an algorithm takes in a tuple of options): one call each, on a position and a best point
whose fitness values are their objective values, decided like one pass of an algorithm."""
import ast

from . import terms as t
from .bestpair import Outer
from .interp import Arr, Dct, Fn, Interp, Lst, PhiV, Ref, RngV, S, State, Tup, arr, vleaves
from .mono import Mono
from .pairing import Pairing

SHAPE = ("position", "fitness", "best", "best_fitness")


def searches(prog):
    """functions given in a tuple (default value or keyword argument) by the algorithm classes"""
    out = []
    for pkg, name, ci in prog.exported_algorithms():
        for c in ci.mro():
            for m in ("__init__", "set_parameters"):
                f = c.methods.get(m)
                if f is None:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Tuple, ast.List)) and n.elts and all(isinstance(x, (ast.Name, ast.Attribute)) for x in n.elts):
                        rs = [prog.resolve_expr(f.module, x) for x in n.elts]
                        if all(r and r[0] == "func" and r[1].module.name.startswith("niapy.algorithms") for r in rs):
                            out += [r[1] for r in rs if r[1] not in out]
    return [f for f in out if len(f.params()[0]) >= 4 and {"task", "rng"} <= set(f.params()[0] + f.params()[1])]


class Inner(Outer):
    """every loop is a loop of the search"""

    def loop(self, lid):
        return False

    def alias(self, c):
        return c in t.ALIASOF


class Call:
    pass


def call(driver, fn, free=False):
    """the returned (position, fitness, best, best fitness) of one call, as terms, per returned tuple"""
    I, st, task = driver.world()
    x, b = [t._new("sym", (n,), feas="F", nd=1) for n in ("@x", "@best")]        # points of the box
    st.heap[("X0",)] = arr(x)
    st.heap[("B0",)] = arr(b)
    st.heap[("R0",)] = arr(t.sym("@range", nd=1))
    C = Call()
    C.I, C.x, C.b = I, x, b
    C.fx, C.fb = (t.sym("@fx", nd=0), t.sym("@fbest", nd=0)) if free else (t.E(1, x), t.E(1, b))
    first = [Ref(("X0",)), S(C.fx), Ref(("B0",)), S(C.fb)]
    pos, kwo, va, kwa = fn.params()
    nd = len(fn.node.args.defaults)
    need = pos[4:len(pos) - nd] if nd else pos[4:]
    kw = {}
    for n in need + [k for k in ("task", "rng") if k in kwo or k in pos and k not in need]:
        if n == "task":
            kw[n] = task
        elif n == "rng":
            kw[n] = RngV("own", "the caller's generator")
        elif "range" in n:
            kw[n] = Ref(("R0",))
        else:
            kw[n] = S(t.sym("@" + n, nd=0))
    node = ast.parse("search()").body[0].value
    C.st = st
    C.rv = I.call_fn(st, fn, first, kw, node)
    C.rets = [l.items for l in vleaves(C.rv) if isinstance(l, Tup) and len(l.items) >= 4]
    return C


def decide(driver, fn, what):
    """[(verdict, prover)] for what in ('pop', 'best', 'mono')"""
    C = call(driver, fn, what == "mono")
    o = Inner(C.I)
    out = []
    for its in C.rets:
        X, F = [C.I.content(C.st, v) for v in (its[:2] if what == "pop" else its[2:4])]
        try:
            if what == "mono":
                P = Mono(o, C.fb, None)
                v = P.le(F)
            else:
                P = Pairing(o.lphi, what == "pop", o.alias)
                v = P.pair(X, F, 1)
        except RecursionError:
            v = "U"
        out.append((v, P, X, F))
    return out


TEXT = {"pop": "the position and the fitness", "best": "the best point and the best fitness", "mono": "a best fitness no worse than the one"}


def check(ctx, res, what, rule):
    """report of one rule on every bundled local search"""
    from .bestpair import cond
    for f in searches(ctx.prog):
        try:
            got = decide(ctx.driver, f, what)
        except Exception as e:
            res.undec("%s: %s" % (f.name, type(e).__name__))
            continue
        res.add("local searches analysed")
        if not got:
            res.undec("%s: nothing returned" % f.name)
        for v, P, X, F in got:
            res.add("proof obligations", P.n)
            if v == "T":
                res.sample("%s: %s it returns proved in %d obligations" % (f.name, TEXT[what], P.n))
            elif v == "F":
                steps = ["loop at line %s" % (z[1][1],) if z[0] == "loop" else "%s is %s" % (cond(z[0]), z[1]) for z in reversed(P.trace)]
                w = P.why if isinstance(P.why, tuple) else (P.why,)
                msg = ("%s returned by %s belong to different points: %s" % (TEXT[what], f.name, " / fitness of ".join(t.show(z)[:200] for z in w if z is not None))) if what != "mono" else (
                    "%s may return a best fitness worse than the one it was given" % f.name)
                res.fail(rule, f.qual, msg, f.where(), steps)
            else:
                res.undec("%s: %s" % (f.name, P.stuck[0][0] if getattr(P, "stuck", None) else "?"))
