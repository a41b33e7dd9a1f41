"""Applies the pairing decision to what initialization, iterations and run() of one algorithm return."""
from . import terms as t
from .interp import State, Tup, vleaves, Ref, View, Obj
from .pairing import Pairing

STEPS = ("run_iteration", "init_population")


class Outer:
    """tells the loop of run() (one pass = one iteration) from loops inside an iteration"""

    def __init__(self, I):
        self.inv = {v: k for k, v in I.ctxids.items()}
        self.leads = set()      # the calls that lead to a step: a loop elsewhere in run() is not its loop
        for k in I.ctxids:
            for i, z in enumerate(k):
                if self.step(z):
                    self.leads |= {k[:j] for j in range(i + 1)}

    def step(self, z):
        return len(z) > 1 and isinstance(z[1], str) and z[1].split(".")[-1] in STEPS

    def loop(self, lid):
        k = self.inv.get(lid[0], ())
        return not any(self.step(z) for z in k) and (k in self.leads or not self.leads)

    def lphi(self, l):
        return self.loop(l.args[0])

    def alias(self, c):
        o = t.ALIASOF.get(c)
        return bool(o) and o[0] == "L" and self.loop(o[1])


def returns(R):
    """last (= stabilized) return of each step"""
    out = {}
    for e in R.events[len(R.ctor_events):]:
        if e.kind in ("ret_init_population", "ret_run_iteration"):
            out[e.kind[4:]] = e
    return out


def unsign(f):
    """objective value without the factor that converts it to the user's direction"""
    if f.op == "phi":
        return t.phi(f.args[0], unsign(f.args[1]), unsign(f.args[2]))
    if f.op == "bin" and f.args[0] == "*":
        for a, b in ((f.args[1], f.args[2]), (f.args[2], f.args[1])):
            if b.op in ("fld", "sym", "call") and "opt" in t.show(b) and not t.contains_op(b, "E"):
                return a
    return f


def decide(R, which):
    """[(where, X, F, verdict, P)] for which in ('pop', 'best')"""
    I = R.I
    o = Outer(I)
    out = []

    def go(where, st, x, f, level):
        X, F = I.content(st, x), I.content(st, f)
        if where == "run":
            F = unsign(F)
        P = Pairing(o.lphi, which == "pop", o.alias)
        try:
            v = P.pair(X, F, level)
        except RecursionError:
            v = P.u("recursion limit", X, F)
        out.append((where, X, F, v, P))
    for kind, e in returns(R).items():
        st = State()
        st.heap = e.data["heap"]
        for l in vleaves(e.data["rv"]):
            if not isinstance(l, Tup):
                continue
            its = l.items
            if which == "pop" and len(its) >= 2:
                nd = I.content(st, its[0]).nd
                go(kind, st, its[0], its[1], 1 if nd in (1, "o0") else 2)
            elif which == "best" and kind == "run_iteration" and len(its) >= 4:
                go(kind, st, its[2], its[3], 1)
    if which == "best" and R.final is not None and not R.final[0].dead:
        for l in vleaves(R.final[1]):
            if isinstance(l, Tup) and len(l.items) == 2 and I.content(R.final[0], l.items[0]) is not t.NONE:
                go("run", R.final[0], l.items[0], l.items[1], 1)
    return out


def cond(c):
    """a path condition in words, without interpreter numbering"""
    s = t.show(c)
    return s if len(s) < 160 else s[:157] + "..."


def explain(P):
    steps = []
    for z in reversed(P.trace):
        if z[0] == "loop":
            steps.append("loop at line %s, %s" % (z[1][1], "after at least one pass" if z[2] else "before the first pass"))
        else:
            steps.append("%s is %s" % (cond(z[0]), z[1]))
    return steps
