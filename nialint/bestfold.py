"""The summary of get_best, folded over every ordering of a few fitness values: nothing is lost, nothing gets worse, point and value belong together."""
import itertools
import math

from . import order, terms as t
from .interp import S, Ref, Tup, Lst, arr, vleaves
from .probspec import World

INF = float("inf")


class Vec(tuple):
    """an array value"""


def ev(x, env, memo):
    if x in memo:
        return memo[x]
    r = memo[x] = _ev(x, env, memo)
    return r


def lift(f, *vs):
    n = {len(v) for v in vs if isinstance(v, Vec)}
    if not n:
        return f(*vs)
    if len(n) > 1:
        raise order.Unknown("shapes")
    n = n.pop()
    return Vec(f(*[v[i] if isinstance(v, Vec) else v for v in vs]) for i in range(n))


def number(v):
    if isinstance(v, bool):
        return int(v)
    if not isinstance(v, (int, float)):
        raise order.Unknown("number")
    return v


def truth(v):
    if isinstance(v, (bool, int, float)):
        return bool(v)
    raise order.Unknown("truth")


RED = {"min": min, "amin": min, "max": max, "amax": max, "any": any, "all": all, "sum": sum, "len": len}
ONE = {"isinf": math.isinf, "isnan": math.isnan, "isfinite": math.isfinite, "abs": abs, "float": lambda v: v, "bool": bool, "truth": bool,
       "array": lambda v: v, "asarray": lambda v: v, "copy": lambda v: v}


def _ev(x, env, memo):
    if x in env:
        return env[x]
    o, a = x.op, x.args
    go = lambda y: ev(y, env, memo)
    if o == "const":
        return t.cval(x)
    if o in ("list", "tuplec"):
        return Vec(go(y) for y in a)
    if o == "phi":
        c = go(a[0])
        if isinstance(c, Vec):
            return Vec(p if truth(q) else r for q, p, r in zip(c, go(a[1]), go(a[2])))
        return go(a[1] if truth(c) else a[2])
    if o == "and":
        return truth(go(a[0])) and truth(go(a[1]))
    if o == "or":
        return truth(go(a[0])) or truth(go(a[1]))
    if o == "not":
        return lift(lambda v: not truth(v), go(a[0]))
    if o == "cmp":
        f = {"<": lambda l, r: number(l) < number(r), "<=": lambda l, r: number(l) <= number(r), "==": lambda l, r: l == r}.get(a[0])
        if f is None:
            raise order.Unknown("comparison " + a[0])
        return lift(f, go(a[1]), go(a[2]))
    if o == "un" and a[0] == "-":
        return lift(lambda v: -number(v), go(a[1]))
    if o == "bin" and a[0] in ("+", "-", "*"):
        f = {"+": lambda l, r: number(l) + number(r), "-": lambda l, r: number(l) - number(r), "*": lambda l, r: number(l) * number(r)}[a[0]]
        return lift(f, go(a[1]), go(a[2]))
    if o == "slice":
        return slice(*[go(y) for y in a])
    if o == "row" and len(a) == 2:
        v, i = go(a[0]), go(a[1])
        if isinstance(v, Vec):
            if isinstance(i, slice):
                return Vec(v[i])
            if isinstance(i, Vec):
                if all(isinstance(k, bool) for k in i) and len(i) == len(v):
                    return Vec(p for p, k in zip(v, i) if k)
                if all(isinstance(k, int) for k in i):
                    return Vec(v[k] for k in i)
            elif isinstance(i, int) and -len(v) <= i < len(v):
                return v[i]
        raise order.Unknown("indexing")
    if o == "call":
        n, vs = a[0], [go(y) for y in a[1:] if isinstance(y, t.T)]
        n = n.replace("np.", "") if isinstance(n, str) else n
        if n in ("ndim", "size", "len") and len(vs) == 1 and isinstance(vs[0], (Vec, int, float)):
            if n == "ndim":
                return int(isinstance(vs[0], Vec))
            return len(vs[0]) if isinstance(vs[0], Vec) else 1
        if n in RED and len(vs) == 1 and isinstance(vs[0], Vec) and vs[0]:
            return RED[n](vs[0])
        if n in ("argmin", "argmax", "argsort", "nonzero", "flatnonzero", "sort") and len(vs) == 1 and isinstance(vs[0], Vec) and vs[0]:
            v = vs[0]
            k = sorted(range(len(v)), key=lambda j: number(v[j]))
            if n == "argmin":
                return k[0]
            if n == "argmax":
                return max(range(len(v)), key=lambda j: (number(v[j]), -j))
            if n == "argsort":
                return Vec(k)
            if n == "sort":
                return Vec(v[j] for j in k)
            return Vec(j for j in range(len(v)) if v[j])
        if n in ("round", "around") and len(vs) in (1, 2) and (len(vs) == 1 or isinstance(vs[1], int)):
            return lift(lambda v: number(v) if math.isinf(number(v)) else round(float(v), vs[1] if len(vs) == 2 else 0), vs[0])
        if n in ("min2", "max2", "minimum", "maximum"):
            return lift(min if n.startswith("min") else max, *vs)
        if n in ONE and len(vs) == 1:
            return lift(ONE[n], vs[0])
    raise order.Unknown("%s term %s" % (o, t.show(x)[:60]))


VALUES = (-2.0, 0.0, 1.0, INF)
NEAR = ((1.0, 1.0 + 1e-12), (1.0 + 1e-12, 1.0), (-1.0, -1.0 - 1e-12), (-5.0, 4.0), (-5.0, -4.0), (1e9, 1e9 - 1e-4), (0.5, -0.5), (3e-9, 2e-9), (0.9, 2 / 3))


def vals(n):
    """orderings of n fitness values and the incumbent's"""
    if n <= 3:
        yield from itertools.product(VALUES, repeat=n + 1)
    else:
        for p in itertools.permutations(range(n + 1)):
            if p[-1] in (0, n // 2, n):
                yield tuple(float(2 * k - n) for k in p)
    for a, b in NEAR:
        for i in range(n):
            f = [max(abs(a), abs(b)) * 2 + k for k in range(n)]
            f[i] = b
            yield tuple(f) + (a,)
            for j in range(n):
                if j != i:
                    g = list(f)
                    g[j] = a
                    yield tuple(g) + (INF,)


def decide(driver, fi):
    """-> ([(kind, message)], undecided reasons, orderings folded) for one implementation of get_best"""
    bad, unk, n = {}, set(), 0
    for size in (1, 2, 3, 5):
        for given in (True, False):
            w = World(driver)
            P = [t.sym("p%d" % i, nd=1) for i in range(size)]
            f = [t.sym("f%d" % i, nd=0) for i in range(size)]
            D = t.sym("D", nd=0)
            for p in P:
                p.org = D
            xs, fs = t._new("list", tuple(P), nd=2), t._new("list", tuple(f), nd=1)
            xs.org = fs.org = t.const(size)
            w.st.heap[("IN", "pop")], w.st.heap[("IN", "fpop")] = arr(xs), arr(fs)
            b, fb = t.sym("b", nd=1), t.sym("fb", nd=0)
            b.org = D
            w.st.heap[("IN", "b")] = arr(b)
            args = [Ref(("IN", "pop")), Ref(("IN", "fpop"))] + ([Ref(("IN", "b")), S(fb)] if given else [])
            fn = fi
            st = w.st
            if "staticmethod" not in [getattr(d, "id", "") for d in fi.node.decorator_list]:
                args = [S(t.top("self"))] + args
            rv = w.I.call_fn(st, fn, args, {}, w.node)
            its = None
            if isinstance(rv, Tup) and len(rv.items) == 2:
                its = [t.strip(w.I.content(st, z)) for z in rv.items]
            if its is None or st.dead:
                unk.add("result of get_best")
                continue
            for v in vals(size):
                if not given and v[-1] != INF:
                    continue
                n += 1
                env = dict(zip(f + [fb], v))
                env.update({p: ("point", i) for i, p in enumerate(P)})
                env[b] = ("point", "incumbent")
                have = {("point", i): v[i] for i in range(size)}
                if given:
                    have[("point", "incumbent")] = v[-1]
                else:
                    env[fb] = INF
                best = min(have.values())
                memo = {}
                txt = "for fitness values %s%s" % (list(v[:-1]), " and an incumbent of %s" % v[-1] if given else " and no incumbent")
                try:
                    F = ev(its[1], env, memo)
                    number(F)
                    if given and F > v[-1]:
                        bad.setdefault("worse", "get_best reports %s, worse than the incumbent, %s" % (F, txt))
                    if F > best:
                        bad.setdefault("lost", "get_best reports %s instead of %s %s" % (F, best, txt))
                except order.Unknown as e:
                    unk.add("best fitness: %s" % e)
                    continue
                try:
                    X = ev(its[0], env, memo)
                    if X in have and have[X] != F:
                        bad.setdefault("mismatch", "get_best reports a point of fitness %s with the value %s %s" % (have[X], F, txt))
                    elif X is None and best == INF and not given:
                        bad.setdefault("lost", "get_best reports no point %s" % txt)
                except order.Unknown as e:
                    unk.add("best point: %s" % e)
    return bad, unk, n


def report(ctx, res, kinds, rule):
    """every implementation of get_best the exported algorithms use"""
    seen = {}
    for pkg, name, ci in ctx.algorithms():
        fi = ci.find("get_best")
        if fi is not None:
            seen.setdefault(fi, ci)
    for fi in seen:
        bad, unk, n = decide(ctx.driver, fi)
        res.add("get_best implementations folded")
        res.add("orderings of fitness values folded", n)
        for k, m in bad.items():
            if k in kinds:
                res.fail(rule, "%s:%s" % (fi.qual, k), m, "%s:%d" % (fi.path, fi.node.lineno))
        for u in sorted(unk)[:3]:
            res.undec("%s: %s" % (fi.qual, u))
    return seen


def part(i):
    """the index picks less than everything"""
    if i.op != "slice":
        return t.is_const(i) and isinstance(t.cval(i), int)
    lo, hi, step = [t.cval(y) if t.is_const(y) else "?" for y in (i.args + (t.NONE,))[:3]]
    if any(v is not None and not isinstance(v, int) and v != "?" for v in (lo, hi, step)):
        return False
    return lo not in (None, 0, "?") or hi not in (None, "?") or step not in (None, 1, -1, "?")


def initial(ctx, res, rule):
    """run() looks for the first best among everything the initialization evaluated"""
    from . import runspec
    for fi, cis in runspec.groups(ctx.driver).items():
        A = runspec.analyse(ctx.driver, cis[0])
        calls = [e for e in A.events if e.kind == "p_best"]
        res.add("initial best selections located", len(calls))
        for e in calls:
            for v, what in zip(e.data["vals"], ("population", "fitness")):
                if not isinstance(v, t.T) or v.op == "sym":
                    continue
                if v.op == "row" and v.args[0].op == "sym" and part(v.args[1]):
                    res.fail(rule, "%s:initial" % fi.qual, "the first best is looked for in a part of the initial %s only" % what, e.where())
                else:
                    res.undec("%s: %s the first best is chosen from" % (fi.qual, what))
