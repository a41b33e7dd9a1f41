"""Evaluation of a function summary (gated term) over the finite abstraction of its atoms.

A summary compares a handful of quantities; which branch it takes depends only on their relative order and sign, so one
representative per ordering covers all values.  Nothing of the analysed program is executed: only extracted terms are folded.
"""
import math

from . import terms as t


_CYC = object()


class Unknown(Exception):
    pass


def ev(x, env, memo=None):
    """value of term x; env: term -> value"""
    memo = {} if memo is None else memo
    r = memo.get(x, memo)
    if r is not memo:
        return r
    r = _ev(x, env, memo)
    memo[x] = r
    return r


def truth(v):
    if isinstance(v, (bool, int, float)):
        return bool(v)
    if v is None:
        return False
    if isinstance(v, (tuple, str)):
        return bool(v)
    raise Unknown("truth of %r" % (v,))


def num(v):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        if isinstance(v, bool):
            return int(v)
        raise Unknown("number %r" % (v,))
    return v


def _ev(x, env, memo):
    if x in env:
        return env[x]
    o, a = x.op, x.args
    if o == "lphi" and x in t.DEFS and x not in memo:
        memo[x] = _CYC
        vs = []
        for d in t.DEFS[x]:
            v = ev(d, env, memo)
            if v is not _CYC:
                vs.append(v)
        del memo[x]
        if vs and all(same(v, vs[0]) for v in vs):
            return vs[0]
        raise Unknown("loop-carried value")
    if o == "const":
        return t.cval(x)
    if o == "phi":
        return ev(a[1] if truth(ev(a[0], env, memo)) else a[2], env, memo)
    if o == "and":
        return truth(ev(a[0], env, memo)) and truth(ev(a[1], env, memo))
    if o == "or":
        return truth(ev(a[0], env, memo)) or truth(ev(a[1], env, memo))
    if o == "not":
        return not truth(ev(a[0], env, memo))
    if o == "cmp":
        l, r = ev(a[1], env, memo), ev(a[2], env, memo)
        if a[0] == "<":
            return num(l) < num(r)
        if a[0] == "<=":
            return num(l) <= num(r)
        if a[0] in ("==", "is"):
            return l == r if not (l is None or r is None) else l is r
        raise Unknown("comparison " + a[0])
    if o == "un" and a[0] == "-":
        return -num(ev(a[1], env, memo))
    if o == "bin":
        l, r = num(ev(a[1], env, memo)), num(ev(a[2], env, memo))
        try:
            if a[0] == "+":
                return l + r
            if a[0] == "-":
                return l - r
            if a[0] == "*":
                return l * r
            if a[0] == "/":
                return l / r
            if a[0] == "//":
                return l // r
            if a[0] == "%":
                return l % r
            if a[0] == "**" and abs(r) < 10:
                return l ** r
            if a[0] in ("&", "|") and l in (0, 1) and r in (0, 1):
                return bool(l and r) if a[0] == "&" else bool(l or r)
        except ArithmeticError:
            raise Unknown("arithmetic")
        raise Unknown("operator " + a[0])
    if o == "row" and len(a) == 2 and isinstance(a[1], t.T) and t.is_const(a[1]):
        v, i = ev(a[0], env, memo), t.cval(a[1])
        if isinstance(v, tuple) and isinstance(i, int):
            if v and isinstance(v[0], str) and v[0].startswith("#"):
                if i == -len(v) or i == -1 and len(v) == 1:
                    if "last:" + v[0][1:] in env:
                        return env["last:" + v[0][1:]]
                    raise Unknown("earlier entry of a log")
                if -len(v) < i < 0:
                    return v[i]
            elif -len(v) <= i < len(v):
                return v[i]
        raise Unknown("indexing")
    if o == "cat":
        out = ()
        for y in a:
            v = ev(y, env, memo)
            if not isinstance(v, tuple):
                raise Unknown("cat")
            out += v
        return out
    if o in ("list", "tuplec"):
        return tuple(ev(y, env, memo) for y in a)
    if o == "call":
        n = a[0]
        if n == "enum":
            return ("enum", t.cval(a[1]))
        if n in ("abs", "min2", "max2", "isinf", "isnan", "isfinite", "sign", "len", "bool", "truth", "float", "int"):
            vs = [ev(y, env, memo) for y in a[1:]]
            if n == "len":
                if isinstance(vs[0], tuple):
                    if vs[0] and isinstance(vs[0][0], str) and vs[0][0].startswith("#"):
                        if "len:" + vs[0][0][1:] not in env:
                            raise Unknown("len")
                        return env["len:" + vs[0][0][1:]] + len(vs[0]) - 1
                    return len(vs[0])
                raise Unknown("len")
            if n in ("bool", "truth"):
                return truth(vs[0])
            vs = [num(v) for v in vs]
            if n in ("float", "int"):
                return vs[0]
            if n == "abs":
                return abs(vs[0])
            if n == "min2":
                return min(vs)
            if n == "max2":
                return max(vs)
            if n == "isinf":
                return math.isinf(vs[0])
            if n == "isnan":
                return math.isnan(vs[0])
            if n == "isfinite":
                return math.isfinite(vs[0])
            if n == "sign":
                return (vs[0] > 0) - (vs[0] < 0)
    raise Unknown("%s term %s" % (o, t.show(x)[:80]))


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


def holds(pc, env):
    return all(truth(ev(c, env)) == v for c, v in pc)
