"""Abstract worlds for the problem classes: construction with symbolic options, evaluation at a symbolic point."""
import ast
from fractions import Fraction

from . import terms as t
from .interp import Interp, State, S, Ref, PhiV, Tup, Arr, Lst, Dct, Obj, arr, vleaves, Bot
from .loader import FuncInfo

PKG = "niapy.problems"


def exported_problems(prog):
    """[(name, ClassInfo)] of the concrete problem classes niapy.problems exports"""
    m = prog.module(PKG)
    base = prog.cls("niapy.problems.problem", "Problem")
    names = prog.string_list(m, "__all__")
    if names is None:
        names = [n for n in m.order if not n.startswith("_")]
    out = []
    for n in names:
        r = prog.lookup(m, n)
        if r and r[0] == "class" and r[1].is_sub(base) and r[1] is not base:
            out.append((n, r[1]))
    return out


class World:
    def __init__(self, driver, reset=True):
        if reset:
            t.reset()
        prog = driver.prog
        I = Interp(prog)
        I.indiv_cls = driver.indiv
        I.parents, I.lambdas = {}, {}
        st = State()
        I.shared_scan(st)
        fi = FuncInfo("<driver>", ast.parse("def f(): pass").body[0], prog.module("niapy.problems.problem"), None)
        I.stack.append((fi, fi.node))
        self.I, self.st, self.node = I, st, ast.parse("Problem()").body[0].value
        self.driver, self.prog = driver, prog

    def vec(self, name, n, alias=()):
        x = t.sym(name, nd=1)
        x.org = n
        oid = ("IN", name)
        self.st.heap[oid] = arr(x)
        return Ref(oid)

    def events(self, kinds, n0=0):
        return [e for e in self.I.events[n0:] if e.kind in kinds]


def params_of(ci):
    fi = ci.find("__init__")
    pos, kwo, va, kwa = fi.params()
    return pos[1:], kwo, va, kwa


# ---- polynomial normal form of the value of one coordinate ---------------------------------------
ROUNDING = ("int", "round", "around", "floor", "ceil", "trunc", "rint", "abs", "absolute")
SAME = ("float", "float64", "asarray", "array", "copy", "tile", "repeat")


class Opaque(Exception):
    pass


def _mul(a, b):
    out = {}
    for m, x in a.items():
        for n, y in b.items():
            k = tuple(sorted(m + n))
            out[k] = out.get(k, 0) + x * y
    return {k: v for k, v in out.items() if v}


def coordpoly(x, depth=0):
    """{monomial over symbols: coefficient} of a coordinate of the scalar or constant-filled vector x"""
    if depth > 40:
        raise Opaque("depth")
    op, a = x.op, x.args
    if t.is_const(x):
        c = t.cval(x)
        if isinstance(c, bool) or not isinstance(c, (int, float)) or c != c or c in (float("inf"), float("-inf")):
            return {(("const", repr(c)),): Fraction(1)}
        return {(): Fraction(c)} if c else {}
    if op == "sym":
        return {(("sym", a[0]),): Fraction(1)}
    if op == "fill":
        return coordpoly(a[0], depth + 1)
    if op == "rep" or op == "un" and a[0] == "+":
        return coordpoly(a[-1], depth + 1)
    if op == "un" and a[0] == "-":
        return {k: -v for k, v in coordpoly(a[1], depth + 1).items()}
    if op == "bin":
        o = a[0]
        l, r = coordpoly(a[1], depth + 1), coordpoly(a[2], depth + 1)
        if o == "+" or o == "-":
            out = dict(l)
            for k, v in r.items():
                out[k] = out.get(k, 0) + (v if o == "+" else -v)
            return {k: v for k, v in out.items() if v}
        if o == "*":
            return _mul(l, r)
        if o == "/" and set(r) == {()}:
            return {k: v / r[()] for k, v in l.items()}
        if o == "**" and set(r) <= {()} and r.get((), 0).denominator == 1 and 0 <= r.get((), 0) <= 8:
            out = {(): Fraction(1)}
            for _ in range(int(r.get((), 0))):
                out = _mul(out, l)
            return out
        raise Opaque(o)
    if op == "call":
        f = a[0].split(".")[-1]
        if f in SAME:
            return coordpoly(a[1], depth + 1)
        if f in ROUNDING:
            return {((f, tuple(sorted((k, v) for k, v in coordpoly(a[1], depth + 1).items()))),): Fraction(1)}
        raise Opaque(f)
    if op in ("list", "listc", "tuple", "tuplec", "cat") and a:
        ps = [coordpoly(y, depth + 1) for y in a]
        if all(p == ps[0] for p in ps):
            return ps[0]
        raise Opaque(op)
    if op == "map":
        if x.args[-1].bv == 0:
            return coordpoly(x.args[-1], depth + 1)
    raise Opaque(op)


def compare(got, want, depth=0):
    """'same' | 'differ' | 'unknown' for the values of two scalar / constant-filled terms"""
    if t.same(got, want):
        return "same"
    p = next((x for x in t.leaves(got) if x.op == "phi"), None)
    if p is not None:
        if depth > 6:
            return "unknown"
        a, b = (compare(t.subst(got, p, x), want, depth + 1) for x in p.args[1:])
        if a == b:
            return a
        # one choice of a condition that the requested options settle either way
        c = p.args[0]
        while c.op == "not":
            c = c.args[0]
        if "differ" not in (a, b) or "unknown" in (a, b) and c.op != "cmp" or c.op == "cmp" and c.args[0] in ("==", "!=", "is", "isnot") and t.contains(c, want):
            return "unknown"
        if c.op == "cmp" and t.contains(c, want) and any(t.is_const(y) for y in c.args[1:]):
            k = [t.cval(y) for y in c.args[1:] if t.is_const(y)][0]
            if not isinstance(k, (int, float)) or k < 2:
                return "unknown"        # possibly a guard against values nobody may request
        return "differ"
    syms = {x for x in t.leaves(want) if x.op == "sym"}
    known = not got.top and not any(x.op in ("top", "bot") for x in t.leaves(got))
    if known and syms and not (syms & set(t.leaves(got))):
        return "differ"         # does not depend on the requested value at all
    try:
        return "same" if coordpoly(got) == coordpoly(want) else "differ"
    except Opaque:
        return "unknown"
