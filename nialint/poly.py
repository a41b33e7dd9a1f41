"""A small polyhedra domain: conjunctions of linear constraints over the rationals (Fourier-Motzkin elimination)."""
from fractions import Fraction


class Aff:
    """affine expression: {var: coef} + const"""
    __slots__ = ("c", "k")

    def __init__(self, c=None, k=0):
        self.c = {v: Fraction(x) for v, x in (c or {}).items() if x}
        self.k = Fraction(k)

    def __add__(self, o):
        c = dict(self.c)
        for v, x in o.c.items():
            c[v] = c.get(v, 0) + x
        return Aff(c, self.k + o.k)

    def scale(self, f):
        f = Fraction(f)
        return Aff({v: x * f for v, x in self.c.items()}, self.k * f)

    def __sub__(self, o):
        return self + o.scale(-1)

    def const(self):
        return not self.c

    def key(self):
        return (tuple(sorted((str(v), x) for v, x in self.c.items())), self.k)

    def __repr__(self):
        s = " + ".join(("%s" % v if x == 1 else "%s*%s" % (x, v)) for v, x in sorted(self.c.items(), key=lambda p: str(p[0])))
        return (s + (" + %s" % self.k if self.k else "")) or str(self.k)


def var(n):
    return Aff({n: 1})


def num(k):
    return Aff({}, k)


# constraint: (aff, strict)  meaning aff < 0 (strict) or aff <= 0
def lt(a, b):
    return (a - b, True)


def le(a, b):
    return (a - b, False)


def neg(c):
    a, s = c
    return (a.scale(-1), not s)


def feasible(cs):
    """is the conjunction satisfiable over the rationals"""
    cs = list(cs)
    while True:
        nxt = []
        vs = {}
        for a, s in cs:
            if a.const():
                if a.k > 0 or (s and a.k >= 0):
                    return False
            else:
                nxt.append((a, s))
                for v in a.c:
                    vs.setdefault(v, [0, 0])[a.c[v] > 0] += 1
        if not nxt:
            return True
        v = min(vs, key=lambda z: (vs[z][0] * vs[z][1], str(z)))
        up, lo, rest = [], [], []
        for a, s in nxt:
            x = a.c.get(v)
            (rest if x is None else up if x > 0 else lo).append((a, s))
        out = {}
        for a, s in rest:
            out[(a.key(), s)] = (a, s)
        for a, s in up:
            for b, r in lo:
                n = a.scale(1 / a.c[v]) + b.scale(-1 / b.c[v])
                c = (n, s or r)
                out[(n.key(), c[1])] = c
        if len(out) > 4000:
            return True
        cs = list(out.values())


def entails(cs, goal):
    return not feasible(list(cs) + [neg(goal)])


def model(cs, order):
    """one rational point satisfying cs (None if infeasible), for messages"""
    cs = list(cs)
    if not feasible(cs):
        return None
    vs = sorted({v for a, _ in cs for v in a.c} | set(order), key=lambda v: (v not in order, order.index(v) if v in order else 0, str(v)))
    out = {}
    for v in vs:
        for cand in [Fraction(n) for n in (0, 1, 2, 3, -1, 5, 10, -3, -10, 20, 100, -100)] + [Fraction(n, d) for d in (2, 4, 8) for n in range(-41, 42)]:
            t = [(subst(a, v, cand), s) for a, s in cs]
            if feasible(t):
                out[v] = cand
                cs = t
                break
        else:
            return out
    return out


def subst(a, v, x):
    if v not in a.c:
        return a
    c = dict(a.c)
    k = c.pop(v)
    return Aff(c, a.k + k * x)
