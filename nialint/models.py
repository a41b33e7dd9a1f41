"""Models of builtins, numpy, and random-generator methods used by niapy."""
import ast
import math

from . import terms as t
from .loader import ClassInfo
from . import interp as ip
from .interp import S, Ref, View, Fn, BM, Cls, Ext, BExt, PhiV, Tup, RngV, Part, BOT, Bot, Arr, Lst, Dct, Obj, arr, vleaves, joinv, Frame

CONSTS = {
    "numpy.inf": float("inf"), "math.inf": float("inf"), "numpy.pi": math.pi, "math.pi": math.pi, "math.e": math.e, "numpy.e": math.e,
    "numpy.nan": float("nan"), "math.nan": float("nan"), "numpy.newaxis": None,
    "finfo.eps": 2.220446049250313e-16, "finfo.max": 1.7976931348623157e308, "finfo.min": -1.7976931348623157e308, "finfo.tiny": 2.2250738585072014e-308,
    "sys.maxsize": 2 ** 63 - 1,
}
TABLE, METHODS = {}, {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def meth(*names):
    def d(f):
        for n in names:
            METHODS[n] = f
        return f
    return d


def getarg(args, kw, k, name, default=None):
    if len(args) > k:
        return args[k]
    return kw.get(name, default)


def isnone(v):
    return v is None or v == S(t.NONE)


def cterm(I, st, v):
    return I.content(st, v)


def shape_of(I, st, v):
    """-> (nd, first-dimension term)"""
    if isinstance(v, Tup) or I.exact_items(st, v) is not None:
        its = I.exact_items(st, v)
        if not its:
            return 0, None
        return (len(its) if len(its) <= 2 else None), I.content(st, its[0])
    c = I.content(st, v)
    if c.nd == 0:
        return 1, c
    if c.op == "call" and c.args[0] == "shape":
        return (c.args[1].nd if c.args[1].nd in (1, 2) else None), t.length(c.args[1])
    if c.op == "tuplec":
        return (len(c.args) if len(c.args) <= 2 else None), (c.args[0] if c.args else None)
    return None, None


def mkarr(I, st, term, node, extra="", ek="num", ocls=None):
    return I.alloc(st, arr(term, ek, ocls), I.key(node, "arr" + extra))


def ekof(I, st, v):
    for l in vleaves(v):
        if isinstance(l, Ref):
            r = st.heap.get(l.oid)
            if isinstance(r, (Arr, Lst)):
                if isinstance(r, Lst):
                    r = I.summ(st, r)
                if r.ek == "obj":
                    return "obj", r.ocls
    c = I.content(st, v)
    if c.nd == "o1":
        return "obj", None
    return "num", None


def fresh(I, st, term, node, extra="", like=None):
    """array result: Ref when array-shaped"""
    if like is not None:
        ek, oc = ekof(I, st, like)
        if ek == "obj":
            return mkarr(I, st, term, node, extra, "obj", oc)
    if term.nd in (1, 2):
        return mkarr(I, st, term, node, extra)
    return S(term)


def loop_map(I, st, node, tag, it, fn):
    """[fn(state, element) for element in it] -> summary list term (in-place effects on elements are kept)"""
    fid = ("hid", I.ctxid(), getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag)
    I.parents[fid] = None
    fr = Frame(I.stack[-1][0] if I.stack else None, fid)
    lst = I.alloc(st, Lst((), None, None, None, None, ()), I.key(node, "hid" + tag))
    st.frames[fid] = {"#it": it, "#out": lst}
    tg = ast.copy_location(ast.Name(id="#el", ctx=ast.Store()), node)

    def body(s):
        v = fn(s, s.frames[fid]["#el"])
        if s.dead:
            return
        I.list_append(s, s.frames[fid]["#out"], v if not isinstance(v, Bot) else S(t.top("bot")), node)
    I.for_loop(st, fr, node, it, tg, body, None, ("hid", tag))
    if st.dead:
        return t.top("dead"), None
    out = st.frames[fid]["#out"]
    c = I.content(st, out)
    ek = ekof(I, st, out)
    st.frames.pop(fid, None)
    return c, ek


# ---- builtins ------------------------------------------------------------------------------------
@reg("len")
def _len(I, st, args, kw, node):
    v = args[0]
    its = I.exact_items(st, v)
    if its is not None:
        return S(t.const(len(its)))
    if isinstance(v, PhiV):
        return joinv(v.c, _len(I, st, [v.a], kw, node), _len(I, st, [v.b], kw, node))
    if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Obj):
        r = st.heap[v.oid]
        fi = r.ci.find("__len__") if isinstance(r.ci, ClassInfo) else None
        if fi:
            return I.call_fn(st, fi, [v], {}, node)
    if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Dct):
        r = st.heap[v.oid]
        return S(t.const(len(r.entries))) if not r.open and not r.maybe else S(t.call("len", t.sym("dict", nd=None), nd=0))
    c = I.content(st, v)
    return S(t.length(c) or t.call("len", c, nd=0))


for _n, _tag in (("range", "#range"), ("enumerate", "#enum"), ("zip", "#zip"), ("reversed", "#rev")):
    def _mk(tag):
        def f(I, st, args, kw, node):
            args = [I.mat(st, a, I.key(node, "it%d" % k)) for k, a in enumerate(args)]
            if "start" in kw:
                args.append(kw["start"])
            return BExt(Tup(tuple(args)), tag)
        return f
    TABLE[_n] = _mk(_tag)


def pyclass_of(I, st, v):
    """set of names / ClassInfo the value certainly is; None unknown"""
    if isinstance(v, Ref):
        r = st.heap.get(v.oid)
        if isinstance(r, Arr):
            return {"numpy.ndarray"}
        if isinstance(r, Lst):
            return {"list"}
        if isinstance(r, Dct):
            return {"dict"}
        if isinstance(r, Obj) and isinstance(r.ci, ClassInfo):
            return set(c.name for c in r.ci.mro())
    if isinstance(v, View):
        return {"numpy.ndarray"}
    if isinstance(v, Tup):
        return {"tuple"}
    if isinstance(v, S):
        if v.t is t.NONE:
            return {"NoneType"}
        if t.is_const(v.t):
            return {type(t.cval(v.t)).__name__}
        if v.t.nd == 0:
            return {"int", "float"}
        if v.t.nd in (1, 2):
            return {"numpy.ndarray"}
        return None
    if isinstance(v, (Fn, BM, Part)):
        return {"function"}
    if isinstance(v, Cls):
        return {"type"}
    if isinstance(v, RngV):
        return {"numpy.random.Generator"}
    return None


@reg("isinstance")
def _isinstance(I, st, args, kw, node):
    v, c = args[0], args[1]
    if isinstance(v, PhiV):
        return joinv(v.c, _isinstance(I, st, [v.a, c], kw, node), _isinstance(I, st, [v.b, c], kw, node))
    names = set()
    for x in (c.items if isinstance(c, Tup) else [c]):
        if isinstance(x, Cls):
            names.add(x.ci.name)
        elif isinstance(x, Ext):
            names.add(x.name)
        else:
            return S(t.sym("isinst%s" % (I.key(node),), nd=0))
    k = pyclass_of(I, st, v)
    if k is None:
        if all(isinstance(x, Cls) for x in (c.items if isinstance(c, Tup) else [c])) and t.numeric(I.content(st, v)):
            return S(t.FALSE)
        return S(t.call("isinstance", I.content(st, v), t.const("|".join(sorted(names))), nd=0))
    short = {n.split(".")[-1] for n in names}
    if {x.split(".")[-1] for x in k} & short:
        if len(k) > 1 and isinstance(v, S) and not {"int", "float"} <= short:
            return S(t.call("isinstance", I.content(st, v), t.const("|".join(sorted(names))), nd=0))
        return S(t.TRUE)
    if "Iterable" in short or "Sequence" in short:
        return S(t.boolc(bool(k & {"numpy.ndarray", "list", "tuple"} | (k & {"str"}))))
    return S(t.FALSE)


@reg("callable")
def _callable(I, st, args, kw, node):
    v = args[0]
    if isinstance(v, (Fn, BM, Part, Cls, Ext, BExt)):
        return S(t.TRUE)
    if isinstance(v, PhiV):
        return joinv(v.c, _callable(I, st, [v.a], kw, node), _callable(I, st, [v.b], kw, node))
    if isinstance(v, S) and (t.is_const(v.t) or v.t.nd is not None):
        return S(t.FALSE)
    return S(t.call("callable", I.content(st, v), nd=0))


def elementwise(name):
    def f(I, st, args, kw, node):
        cs = [I.content(st, a) for a in args]
        if name in ("ceil", "floor", "trunc") and len(cs) == 1 and not kw and t.is_const(cs[0]) and isinstance(t.cval(cs[0]), (int, float)):
            try:
                return S(t.const(float(getattr(math, name)(t.cval(cs[0])))))
            except (OverflowError, ValueError):
                pass
        n = UFUNC_ARITY.get(name)
        if n and len(cs) == n + 1 and kw.get("out") is None:
            kw = dict(kw, out=args[n])      # the output array may be given by position
            cs = cs[:n]
        term = t.call(name, *cs, nd=t.maxnd(*[c.nd for c in cs]))
        if kw.get("out") is not None:
            I.set_whole(st, kw["out"], term, node)
            return kw["out"]
        return fresh(I, st, term, node)
    return f


UFUNC_ARITY = {n: 1 for n in ("sin", "cos", "tan", "exp", "sqrt", "square", "ceil", "floor", "arccos", "arcsin", "arctan", "log10", "log2", "sign", "isinf",
                              "isfinite", "isnan", "tanh", "sinh", "cosh", "expm1", "log1p", "degrees", "radians", "reciprocal", "trunc", "rint", "cbrt", "abs")}
UFUNC_ARITY.update({n: 2 for n in ("power", "fmod", "mod", "bitwise_and", "hypot", "arctan2", "add", "subtract", "multiply", "divide", "true_divide",
                                   "floor_divide", "remainder", "+", "-", "*", "/", "**")})
for _n in ("sin", "cos", "tan", "exp", "log", "sqrt", "square", "ceil", "floor", "arccos", "arcsin", "arctan", "log10", "log2", "power", "sign",
           "around", "round", "isinf", "isfinite", "isnan", "gamma", "lgamma", "factorial", "tanh", "sinh", "cosh", "expm1", "log1p", "fmod",
           "mod", "bitwise_and", "degrees", "radians", "hypot", "atan2", "arctan2", "nan_to_num", "reciprocal", "trunc", "rint", "pow", "fsum",
           "add", "subtract", "multiply", "divide", "cbrt", "divmod", "dot", "isclose", "true_divide", "floor_divide", "remainder", "maximum_", "cross_"):
    TABLE[_n] = elementwise(_n)


def binop(op):
    def f(I, st, args, kw, node):
        if len(args) != 2:
            return elementwise(op)(I, st, args, kw, node)
        term = t.bin_(op, I.content(st, args[0]), I.content(st, args[1]))
        if kw.get("out") is not None:
            I.set_whole(st, kw["out"], term, node)
            return kw["out"]
        return fresh(I, st, term, node)
    return f


for _n, _o in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**"), ("pow", "**")):
    TABLE["numpy." + _n] = binop(_o)
for _n in ("abs", "absolute", "fabs"):
    TABLE[_n] = elementwise("abs")
for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("iadd", "+"), ("isub", "-")):
    TABLE["operator." + _n] = binop(_o)


@reg("minimum", "fmin", "maximum", "fmax")
def _mm(I, st, args, kw, node):
    f = node.func
    nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "min")
    op = "min2" if "min" in nm else "max2"
    a, b = I.content(st, args[0]), I.content(st, args[1])
    feas = "B"
    # minimum(maximum(x, lower), upper) and the mirrored form
    for x, y in ((a, b), (b, a)):
        other, lim, o1 = (t.UPPER, t.LOWER, "max2") if op == "min2" else (t.LOWER, t.UPPER, "min2")
        p = t.sel_path(y, other)
        if p is not None and x.op == "call" and x.args[0] == o1:
            for z, w in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                q = t.sel_path(w, lim)
                if q is not None and q == p:
                    term = t.rep(z) if z.feas != "F" else z
                    return _out(I, st, term, kw, node)
    if a.feas == "F" and b.feas == "F":
        feas = "F"
    if (a.feas == "U" and a.top) or (b.feas == "U" and b.top):
        feas = "U"
    return _out(I, st, t.call(op, a, b, nd=t.maxnd(a.nd, b.nd), feas=feas), kw, node)


def _out(I, st, term, kw, node):
    if kw.get("out") is not None:
        o = kw["out"]
        if isinstance(o, Tup):
            o = o.items[0]
        I.set_whole(st, o, term, node)
        return o
    return fresh(I, st, term, node)


@reg("clip")
def _clip(I, st, args, kw, node):
    x = args[0]
    lo = getarg(args, kw, 1, "a_min", kw.get("min"))
    hi = getarg(args, kw, 2, "a_max", kw.get("max"))
    kw = dict(kw)
    if len(args) > 3:
        kw["out"] = args[3]
    c = I.content(st, x)
    a, b = (I.content(st, lo) if lo is not None else t.NONE), (I.content(st, hi) if hi is not None else t.NONE)
    p, q = t.sel_path(a, t.LOWER), t.sel_path(b, t.UPPER)
    if p is not None and p == q:
        term = c if c.feas == "F" else t.rep(c)
    else:
        unit = t.is_const(a) and t.is_const(b) and isinstance(t.cval(a), (int, float)) and isinstance(t.cval(b), (int, float)) and 0 <= t.cval(a) and t.cval(b) <= 1
        feas = "F" if a.feas == "F" and b.feas == "F" else "B"
        if c.feas == "U":
            feas = "U"
        term = t.call("clip", c, a, b, nd=t.maxnd(c.nd, a.nd if a is not t.NONE else 0, b.nd if b is not t.NONE else 0), feas=feas, unit=unit)
    return _out(I, st, term, kw, node)


@reg("int", "int_", "int32", "int64")
def _int(I, st, args, kw, node):
    if not args:
        return S(t.const(0))
    c = I.content(st, args[0])
    if t.is_const(c) and isinstance(t.cval(c), (int, float, str)):
        try:
            return S(t.const(int(t.cval(c))))
        except Exception:
            pass
    return S(t.call("int", c, nd=0 if c.nd in (0, None) else c.nd))


@reg("float", "float64")
def _float(I, st, args, kw, node):
    if not args:
        return S(t.const(0.0))
    c = I.content(st, args[0])
    if t.is_const(c):
        try:
            return S(t.const(float(t.cval(c))))
        except Exception:
            pass
    return S(c)


@reg("bool")
def _bool(I, st, args, kw, node):
    return S(I.truth(st, args[0], node))


@reg("str")
def _str1(I, st, args, kw, node):
    c = I.content(st, args[0]) if args and isinstance(args[0], S) else None
    if c is not None and t.is_const(c) and isinstance(t.cval(c), (str, int)) and len(args) == 1:
        return S(t.const(str(t.cval(c))))
    return _str(I, st, args, kw, node)


@reg("repr", "format", "chr", "hex")
def _str(I, st, args, kw, node):
    return S(t.sym("str%s" % (I.key(node),), nd=None))


@reg("print", "logging.info", "logging.basicConfig", "warnings.warn", "logging.warning", "logging.debug", "logging.error")
def _none(I, st, args, kw, node):
    return S(t.NONE)


@reg("logging.getLogger")
def _logger(I, st, args, kw, node):
    return Ext("logger")


@reg("logger.info", "logger.warning", "logger.debug", "logger.error", "logger.setLevel", "logger.exception")
def _lg(I, st, args, kw, node):
    return S(t.NONE)


@reg("min", "max", "amin", "amax", "numpy.min", "numpy.max", "nanmin", "nanmax")
def _minmax(I, st, args, kw, node):
    f = node.func if isinstance(node, ast.Call) else None
    nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "min")
    return minmax(I, st, "min" if "min" in nm else "max", args, kw, node)


def minmax(I, st, nm, args, kw, node):
    if len(args) == 2 and "axis" not in kw and I.content(st, args[1]).nd in (0, None) and I.content(st, args[0]).nd in (0, None) and not (isinstance(args[0], Ref)):
        if isinstance(args[1], S) and isinstance(args[0], S) and not kw and not _isnp(node):
            a, b = I.content(st, args[0]), I.content(st, args[1])
            return S(t.phi(t.cmp("<", b, a), b, a) if nm == "min" else t.phi(t.cmp("<", a, b), b, a))
    if len(args) > 1 and not _isnp(node):
        cs = [I.content(st, a) for a in args]
        if "key" in kw:
            return I.choose(args, t.draw(I.key(node, "mk"), "argkey", 0))
        return S(t.call(nm, t.listc(*cs), nd=0))
    v = args[0]
    if "key" in kw:
        r = I.as_summary(st, v)
        i = t.call("arg" + nm + "key", r.term, nd=0)
        return I.elem(st, v, S(i), node)
    ax = getarg(args, kw, 1, "axis")
    return reduce_(I, st, nm, v, ax, node, keepfeas=True)


def _isnp(node):
    return isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute)


def reduce_(I, st, nm, v, ax, node, keepfeas=False):
    c = I.content(st, v)
    if isnone(ax):
        if c.nd == 1 and nm in ("min", "max"):
            return S(t.call(nm, c, nd=0))
        return S(t.call(nm, c, nd=0, unit=nm in ("min", "max", "mean") and c.unit))
    a = I.content(st, ax)
    nd = {2: 1, 1: 0}.get(c.nd)
    if t.is_const(a):
        k = t.cval(a)
        feas = "F" if c.feas == "F" and keepfeas and (k == 0) and c.nd == 2 else ("U" if c.feas == "U" else "B")
        return fresh(I, st, t.call("%s%s" % (nm, k), c, nd=nd, feas=feas), node)
    return fresh(I, st, t.call(nm, c, a, nd=nd), node)


def _red(nm, keep=False):
    def f(I, st, args, kw, node):
        v = args[0]
        its = I.exact_items(st, v)
        if nm == "sum" and its is not None and not _isnp(node):
            acc = t.const(0) if len(args) < 2 else I.content(st, args[1])
            for x in its:
                acc = t.bin_("+", acc, I.content(st, x))
            return fresh(I, st, acc, node)
        ax = kw.get("axis", args[1] if len(args) > 1 and _isnp(node) else None)
        return reduce_(I, st, nm, v, ax, node, keep)
    return f


for _n, _k in (("sum", False), ("mean", True), ("std", False), ("var", False), ("prod", False), ("median", True), ("average", True), ("any", False), ("all", False),
               ("count_nonzero", False), ("nansum", False), ("ptp", False), ("percentile", False)):
    TABLE[_n] = _red(_n, _k)
TABLE["linalg.norm"] = TABLE["numpy.linalg.norm"] = _red("norm")


def _argx(nm):
    def f(I, st, args, kw, node):
        v = args[0]
        c = I.content(st, v)
        ax = getarg(args, kw, 1, "axis")
        return S(t.call(nm, c, nd=0 if isnone(ax) else {2: 1, 1: 0}.get(c.nd)))
    return f


for _n in ("argmin", "argmax", "nanargmin", "nanargmax"):
    TABLE[_n] = _argx(_n)


@reg("ndim")
def _ndim(I, st, args, kw, node):
    return S(t.call("ndim", I.content(st, args[0]), nd=0))


@reg("argsort", "lexsort")
def _argsort(I, st, args, kw, node):
    c = I.content(st, args[0])
    x = t.call("argsort", c, nd=1 if c.nd in (1, None, "o1") else c.nd)
    if x.org is None:
        x.org = t.length(c)
    return fresh(I, st, x, node)


@reg("sort")
def _sort(I, st, args, kw, node):
    c = I.content(st, args[0])
    ek, oc = ekof(I, st, args[0])
    if ek == "obj":
        return mkarr(I, st, t.row(c, t.call("argsort", c, nd=1)), node, "sort", ek, oc)
    if c.nd == 1:
        i = t.call("argsort", c, nd=1)
        if i.org is None:
            i.org = t.length(c)
        return mkarr(I, st, t.row(c, i), node, "sort")
    return fresh(I, st, t.call("sort", c, nd=c.nd, feas="U" if c.feas == "U" else "B"), node)


@reg("sorted")
def _sorted(I, st, args, kw, node):
    r = I.as_summary(st, args[0])
    key = kw.get("key")
    kt = r.term if key is None else t.call("key:%s" % ip.vname(key), r.term, nd=1)
    i = t.call("argsort", kt, nd=1)
    if i.org is None:
        i.org = t.length(r.term)
    return I.alloc(st, Lst(None, t.row(r.term, i), r.ek, r.ocls, r.elem, ()), I.key(node, "sorted"))


@reg("list", "tuple")
def _list(I, st, args, kw, node):
    if not args:
        return I.alloc(st, Lst((), None, None, None, None, ()), I.key(node, "list"))
    its = I.exact_items(st, args[0])
    if its is not None:
        return I.alloc(st, Lst(tuple(its), None, None, None, None, ()), I.key(node, "list"))
    v = args[0]
    if isinstance(v, BExt):
        n, g, ex = I.iter_shape(st, v, node)
        if ex is not None:
            return I.alloc(st, Lst(tuple(ex), None, None, None, None, ()), I.key(node, "list"))
        if v.name == "#range":
            x = t.call("arange", *[I.content(st, a) for a in v.obj.items], nd=1)
            if len(v.obj.items) == 1 and x.org is None:
                x.org = I.content(st, v.obj.items[0])
            return I.alloc(st, Lst(None, x, "scalar", None, None, ()), I.key(node, "list"))
        return I.topv("list of iterator", node)
    if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Obj):
        return I.topv("list of object", node)
    r = I.as_summary(st, v)
    return I.alloc(st, r._replace(esc=()), I.key(node, "list"))


@reg("dict")
def _dict(I, st, args, kw, node):
    ents, maybe, op = {}, set(), False
    if args:
        r = st.heap.get(args[0].oid) if isinstance(args[0], Ref) else None
        if isinstance(r, Dct):
            ents.update(dict(r.entries))
            maybe |= r.maybe
            op = r.open
        else:
            op = True
    ents.update(kw)
    return I.new_dict(st, ents.items(), I.key(node, "dict"), maybe, op)


@reg("set", "frozenset")
def _set(I, st, args, kw, node):
    return S(t.sym("set%s" % (I.key(node),), nd=None))


@reg("type")
def _type(I, st, args, kw, node):
    v = args[0]
    c = I.cls_of(st, v)
    if c is not None:
        return Cls(c)
    if isinstance(v, S) and t.is_const(v.t) and v.t is not t.NONE:
        return Ext(type(t.cval(v.t)).__name__)
    return I.topv("type()", node)


@reg("map")
def _map(I, st, args, kw, node):
    f, it = args[0], args[1]
    c, ek = loop_map(I, st, node, "map", it, lambda s, x: I.call(s, f, [x], {}, node))
    return I.alloc(st, Lst(None, c, "obj" if ek and ek[0] == "obj" else {1: "scalar", 2: "arr"}.get(c.nd), ek[1] if ek else None, None, ()), I.key(node, "map"))


@reg("filter")
def _filter(I, st, args, kw, node):
    r = I.as_summary(st, args[1])
    return I.alloc(st, r._replace(term=t.row(r.term, t.draw(I.key(node, "flt"), "filter", 1)), items=None, esc=()), I.key(node, "filter"))


@reg("next", "iter")
def _next(I, st, args, kw, node):
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "iter":
        return args[0]
    a0 = node.args[0] if isinstance(node, ast.Call) and node.args else None
    if isinstance(a0, ast.GeneratorExp) or isinstance(a0, ast.Call) and isinstance(a0.func, ast.Name) and a0.func.id == "iter":
        its = I.exact_items(st, args[0])
        if its:
            return its[0]
        if its is not None:
            if len(args) > 1:
                return args[1]
            I.ev("stop_iteration", node)
    return I.topv("next", node)


@reg("hasattr")
def _hasattr(I, st, args, kw, node):
    r = st.heap.get(args[0].oid) if isinstance(args[0], Ref) else None
    n = I.content(st, args[1])
    if isinstance(r, Obj) and t.is_const(n) and isinstance(r.ci, ClassInfo):
        k = t.cval(n)
        return S(t.boolc(k in r.attrs or r.ci.find(k) is not None or r.ci.find_attr(k) is not None))
    if isinstance(args[0], Cls) and t.is_const(n) and (args[0].ci.find(t.cval(n)) or args[0].ci.find_attr(t.cval(n))):
        return S(t.TRUE)
    return S(t.sym("hasattr%s" % (I.key(node),), nd=0))


@reg("getattr")
def _getattr(I, st, args, kw, node):
    n = I.content(st, args[1])
    if t.is_const(n):
        return I.get_attr(st, args[0], t.cval(n), node)
    return I.topv("getattr", node)


@reg("setattr")
def _setattr(I, st, args, kw, node):
    n = I.content(st, args[1])
    if t.is_const(n):
        I.set_attr(st, args[0], t.cval(n), args[2], node)
    else:
        I.ev("setattr_dynamic", node)
        r = st.heap.get(args[0].oid) if isinstance(args[0], Ref) else None
        I.note("setattr dynamic", node)
    return S(t.NONE)


@reg("vars", "dir", "globals", "locals", "id", "hash", "iter", "open", "input", "exec", "eval", "compile", "__import__")
def _opaque(I, st, args, kw, node):
    I.ev("opaque_builtin", node, name=ast.unparse(node.func) if isinstance(node, ast.Call) else "?")
    return S(t.top("builtin"))


@reg("functools.partial", "partial")
def _partial(I, st, args, kw, node):
    return Part(args[0], tuple(args[1:]), tuple(kw.items()))


@reg("numpy.vectorize", "vectorize")
def _vec(I, st, args, kw, node):
    return Part(Ext("#vectorized"), (args[0],), ())


@reg("#vectorized")
def _vcall(I, st, args, kw, node):
    f, rest = args[0], [I.mat(st, a, I.key(node, "vec%d" % k)) for k, a in enumerate(args[1:])]
    arrs = [a for a in rest if I.content(st, a).nd in (1, 2)]
    if not arrs:
        return I.call(st, f, rest, kw, node)
    if any(I.content(st, a).nd == 2 for a in arrs):
        r = t.draw(I.key(node, "v2"), "vectorized", 2)
        return fresh(I, st, r, node)
    it = BExt(Tup(tuple(arrs)), "#zip")

    def body(s, el):
        its = list(el.items)
        a2 = [its.pop(0) if a in arrs else a for a in rest]
        return I.call(s, f, a2, kw, node)
    c, ek = loop_map(I, st, node, "vec", it, body)
    return fresh(I, st, c, node)


# ---- copy ----------------------------------------------------------------------------------------
@reg("copy.copy", "copy.deepcopy", "deepcopy")
def _copy(I, st, args, kw, node):
    return do_copy(I, st, args[0], node, "dc")


def do_copy(I, st, v, node, extra="cp"):
    if isinstance(v, PhiV):
        return joinv(v.c, do_copy(I, st, v.a, node, extra + "a"), do_copy(I, st, v.b, node, extra + "b"))
    if isinstance(v, Ref):
        r = st.heap.get(v.oid)
        if isinstance(r, Arr):
            return mkarr(I, st, r.term, node, extra, r.ek, r.ocls)
        if isinstance(r, Lst):
            return I.alloc(st, r._replace(esc=()), I.key(node, extra))
        if isinstance(r, Dct):
            return I.alloc(st, r, I.key(node, extra))
        if isinstance(r, Obj):
            if r.src is not None:
                I._fill_focus(st, v.oid, r.src)
                r = st.heap[v.oid]
            at = {k: (do_copy(I, st, x, node, extra + k) if k in ("x",) or extra.startswith("dc") and not isinstance(x, RngV) else x) for k, x in r.attrs.items()}
            return I.alloc(st, Obj(r.ci, at, None, ()), I.key(node, extra))
    if isinstance(v, View):
        return fresh(I, st, I.content(st, v), node, extra)
    if isinstance(v, S) and v.t.nd in (1, 2):
        return mkarr(I, st, v.t, node, extra)
    return v


# ---- numpy ---------------------------------------------------------------------------------------
@reg("asarray", "asanyarray", "ascontiguousarray")
def _asarray(I, st, args, kw, node):
    return asarr(I, st, args[0], node, False)


@reg("array", "numpy.array", "copy", "numpy.copy")
def _array(I, st, args, kw, node):
    if kw.get("copy") == S(t.FALSE):
        return asarr(I, st, args[0], node, False)
    return asarr(I, st, args[0], node, True)


def asarr(I, st, v, node, copy, extra=""):
    if isinstance(v, PhiV):
        return joinv(v.c, asarr(I, st, v.a, node, copy, extra + "a"), asarr(I, st, v.b, node, copy, extra + "b"))
    if isinstance(v, Ref):
        r = st.heap.get(v.oid)
        if isinstance(r, Arr):
            return mkarr(I, st, r.term, node, "cp" + extra, r.ek, r.ocls) if copy else v
        if isinstance(r, Lst):
            s = I.summ(st, r)
            term = s.term
            if r.items == ():
                term = t.fill(t.const(0.0), "emptylist", 1)
                term.org = t.const(0)
                return mkarr(I, st, term, node, "as" + extra)
            nd = {"scalar": 1, "arr": 2, "obj": "o1"}.get(s.ek)
            if term.nd is None and nd is not None and term.op == "list":
                pass
            if s.ek == "val" and r.items:
                term = t.call("array", term, nd=None, feas="U")
                return S(term)
            return mkarr(I, st, term, node, "as" + extra, "obj" if s.ek == "obj" or term.nd == "o1" else "num", s.ocls)
        return S(t.call("array", I.content(st, v), nd=None, feas="U"))
    if isinstance(v, View):
        return mkarr(I, st, I.content(st, v), node, "cp" + extra) if copy else v
    if isinstance(v, Tup):
        lst = I.alloc(st, Lst(v.items, None, None, None, None, ()), I.key(node, "tl" + extra))
        return asarr(I, st, lst, node, True, extra)
    c = I.content(st, v)
    if c.nd in (1, 2):
        return mkarr(I, st, c, node, "as" + extra)
    return S(c)


def _fillf(val):
    def f(I, st, args, kw, node):
        shp = getarg(args, kw, 0, "shape")
        nd, n = shape_of(I, st, shp)
        obj = False
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        if dt is not None and isinstance(dt, Ext) and dt.name in ("object", "numpy.object_"):
            obj = True
        x = t.fill(t.const(val) if not obj else t.NONE, I.key(node), "o1" if obj and nd == 1 else nd)
        if x.org is None and n is not None and nd:
            x.org = n
        if nd is None:
            return S(x)
        return mkarr(I, st, x, node, "", "obj" if obj else "num")
    return f


for _n, _v in (("zeros", 0.0), ("empty", 0.0), ("ones", 1.0)):
    TABLE[_n] = _fillf(_v)


@reg("full")
def _full(I, st, args, kw, node):
    nd, n = shape_of(I, st, getarg(args, kw, 0, "shape"))
    v = getarg(args, kw, 1, "fill_value")
    c = I.content(st, v)
    if c.nd not in (0, None):
        x = t.fill(c, I.key(node), nd)
        if c.nd == nd:
            x = c
    else:
        x = t.fill(c, I.key(node), nd)
    if x.org is None and n is not None and nd and x is not c:
        x.org = n
    dt = kw.get("dtype", args[2] if len(args) > 2 else None)
    obj = isinstance(dt, Ext) and dt.name in ("object", "numpy.object_")
    if nd is None:
        return S(x)
    return mkarr(I, st, x, node, "", "obj" if obj else "num")


def _like(val):
    def f(I, st, args, kw, node):
        c = I.content(st, args[0])
        v = I.content(st, args[1]) if val is None else t.const(val)
        x = t.fill(v, I.key(node), c.nd if c.nd in (1, 2) else None)
        if x.org is None:
            x.org = t.length(c)
        return fresh(I, st, x, node)
    return f


TABLE.update({"zeros_like": _like(0.0), "ones_like": _like(1.0), "empty_like": _like(0.0), "full_like": _like(None)})


@reg("where")
def _where(I, st, args, kw, node):
    c = I.content(st, args[0])
    if len(args) == 1:
        if c.nd == 2:
            return Tup((S(t.call("nonzero0", c, nd=1)), S(t.call("nonzero1", c, nd=1))))
        return Tup((S(t.call("nonzero", c, nd=1)),))
    a, b = I.content(st, args[1]), I.content(st, args[2])
    # x where inside, clipped outside
    r = _where_clip(c, a, b)
    if r is None and 2 in (a.nd, b.nd):
        # a mask of rows selects rows; a plain vector broadcasts along the columns
        if c.op == "row" and c.args[1].op == "call" and c.args[1].args[0] == "tupidx" and len(c.args[1].args) == 3 and c.args[0].nd == 1 \
                and c.args[1].args[1].op == "slice" and c.args[1].args[2] is t.NONE:
            c = c.args[0]
        elif c.nd == 1:
            c = t.call("bcast", c, nd=2)
    return fresh(I, st, r if r is not None else t.phi(c, a, b), node)


def _where_clip(c, a, b):
    """where(x < lower, lower, where(x > upper, upper, x)) and similar two-step clips"""
    def step(c, a, b):
        # -> (x, 'lo'|'hi') when where(c,a,b) replaces coordinates of x beyond one bound by that bound
        if c.op == "not":
            c, a, b = c.args[0], b, a
        if c.op == "cmp" and c.args[0] in ("<", "<="):
            x, y = c.args[1], c.args[2]
            if y is t.LOWER and a is t.LOWER:
                return x, b, "lo"
            if x is t.UPPER and a is t.UPPER:
                return y, b, "hi"
            if x is t.LOWER and b is t.LOWER:
                return y, a, "lo"
            if y is t.UPPER and b is t.UPPER:
                return x, a, "hi"
        return None
    s1 = step(c, a, b)
    if s1 is None:
        return None
    x, inner, side = s1
    if inner.op == "phi":
        s2 = step(inner.args[0], inner.args[1], inner.args[2])
        if s2 is not None and s2[2] != side and s2[1] is x and s2[0] is x:
            return t.rep(x)
    return None


@reg("nonzero", "flatnonzero")
def _nz(I, st, args, kw, node):
    c = I.content(st, args[0])
    return Tup((S(t.call("nonzero", c, nd=1)),))


@reg("argwhere")
def _aw(I, st, args, kw, node):
    c = I.content(st, args[0])
    return S(t.call("argwhere", c, nd=2))


@reg("concatenate", "hstack", "vstack", "stack")
def _concat(I, st, args, kw, node):
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else "concatenate"
    ax = getarg(args, kw, 1, "axis")
    its = I.exact_items(st, args[0])
    if its is None:
        c = I.content(st, args[0])
        return fresh(I, st, t.call(nm, c, nd=None, feas=c.feas if c.feas == "F" else "U"), node)
    cs = [I.content(st, x) for x in its]
    eks = [ekof(I, st, x) for x in its]
    obj = any(e[0] == "obj" for e in eks)
    oc = next((e[1] for e in eks if e[1]), None)
    a = t.const(0) if ax is None else I.content(st, ax)
    nds = {c.nd for c in cs if not (c.op == "list" and not c.args)}
    if nm == "vstack":
        parts = [t.listc(c) if c.nd == 1 else c for c in cs]
        return fresh(I, st, t.cat(*parts), node)
    if nm == "stack":
        return fresh(I, st, t.listc(*cs), node)
    if nm == "hstack" and nds - {1, "o1"}:
        return fresh(I, st, t.call("hstack", *cs, nd=None, feas="U"), node)
    if a is t.NONE:
        flat = t.call("concat_flat", *cs, nd=1)
        return fresh(I, st, flat, node) if nds != {1} else fresh(I, st, t.cat(*cs), node)
    if t.is_const(a) and t.cval(a) == 0:
        x = t.cat(*cs)
        if obj:
            return mkarr(I, st, x, node, "cat", "obj", oc)
        return fresh(I, st, x, node, "cat")
    return fresh(I, st, t.call("concat1", *cs, nd=2), node)


@reg("append")
def _append(I, st, args, kw, node):
    a, b = args[0], args[1]
    ax = getarg(args, kw, 2, "axis")
    ca, cb = I.content(st, a), I.content(st, b)
    ea, eb = ekof(I, st, a), ekof(I, st, b)
    if isnone(ax):
        if ea[0] == "obj" or eb[0] == "obj" or cb.nd == "o0":
            part = t.listc(cb) if cb.nd == "o0" or isinstance(b, Ref) and isinstance(st.heap.get(b.oid), Obj) else cb
            k, oc = I.elkind(st, b)
            return mkarr(I, st, t.cat(ca, part), node, "app", "obj", ea[1] or eb[1] or oc)
        if ca.nd == 2 or cb.nd == 2:
            I.ev("flatten", node, how="append")
            return mkarr(I, st, t.call("append_flat", ca, cb, nd=1), node, "app")
        if ca.nd == 1 and cb.nd is None:
            return fresh(I, st, t.cat(ca, t.call("flat", cb, nd=1, feas="U")), node, "app")
        if ca.nd in (1, None):
            return fresh(I, st, t.cat(ca, t.listc(cb) if cb.nd == 0 else cb), node, "app") if ca.nd == 1 else S(t.call("append", ca, cb, nd=1, feas="U"))
        return S(t.call("append", ca, cb, nd=1))
    k = I.content(st, ax)
    if t.is_const(k) and t.cval(k) == 0:
        return fresh(I, st, t.cat(ca, cb), node, "app")
    return fresh(I, st, t.call("append1", ca, cb, nd=2), node)


@reg("delete")
def _delete(I, st, args, kw, node):
    c = I.content(st, args[0])
    i = I.content(st, args[1])
    ax = getarg(args, kw, 2, "axis")
    ek, oc = ekof(I, st, args[0])
    if isnone(ax) and c.nd == 2:
        I.ev("flatten", node, how="delete")
        return mkarr(I, st, t.call("delete_flat", c, i, nd=1), node, "del")
    if not isnone(ax) and not (t.is_const(I.content(st, ax)) and t.cval(I.content(st, ax)) == 0):
        return fresh(I, st, t.call("delete1", c, i, nd=c.nd), node)
    x = t.row(c, t.call("compl", i, nd=1))
    if ek == "obj":
        return mkarr(I, st, x, node, "del", ek, oc)
    return fresh(I, st, x, node, "del")


@reg("insert")
def _insert(I, st, args, kw, node):
    c = I.content(st, args[0])
    return fresh(I, st, t.call("insert", c, I.content(st, args[1]), I.content(st, args[2]), nd=c.nd, feas="U"), node)


@reg("tile")
def _tile(I, st, args, kw, node):
    c = I.content(st, args[0])
    nd, n = shape_of(I, st, args[1])
    its = I.exact_items(st, args[1])
    if c.nd == 1 and its is not None and len(its) == 2 and I.content(st, its[1]) is t.const(1):
        x = t.fill(c, I.key(node), 2)
        if x.org is None:
            x.org = n
        return mkarr(I, st, x, node, "tile")
    return fresh(I, st, t.call("tile", c, I.content(st, args[1]), nd=max(nd, c.nd) if nd and c.nd in (0, 1, 2) else None, feas="U"), node)


@reg("repeat")
def _repeat(I, st, args, kw, node):
    c = I.content(st, args[0])
    ax = kw.get("axis")
    n = I.content(st, args[1])
    if ax is None and c.nd == 1 or ax is not None and t.is_const(I.content(st, ax)) and t.cval(I.content(st, ax)) == 0:
        i = t.call("repidx", n, nd=1)
        return fresh(I, st, t.row(c, i), node)
    return fresh(I, st, t.call("repeat", c, n, nd=c.nd if ax is not None else 1, feas="U"), node)


@reg("arange", "linspace")
def _arange(I, st, args, kw, node):
    x = t.call("arange", *[I.content(st, a) for a in args], nd=1)
    if len(args) == 1 and x.org is None:
        x.org = I.content(st, args[0])
    return mkarr(I, st, x, node)


@reg("logical_not")
def _lnot(I, st, args, kw, node):
    return S(t.not_(I.content(st, args[0])))


@reg("logical_and", "logical_or")
def _land(I, st, args, kw, node):
    a, b = I.content(st, args[0]), I.content(st, args[1])
    return S(t.and_(a, b) if node.func.attr.endswith("and") else t.or_(a, b))


def _cmpf(op):
    def f(I, st, args, kw, node):
        return S(t.cmp(op, I.content(st, args[0]), I.content(st, args[1])))
    return f


for _n, _o in (("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="), ("equal", "=="), ("not_equal", "!=")):
    TABLE[_n] = _cmpf(_o)


@reg("array_equal", "allclose", "array_equiv")
def _aeq(I, st, args, kw, node):
    return S(t.call("array_equal", I.content(st, args[0]), I.content(st, args[1]), nd=0))


@reg("finfo", "iinfo")
def _finfo(I, st, args, kw, node):
    return Ext("finfo")


@reg("unique")
def _unique(I, st, args, kw, node):
    c = I.content(st, args[0])
    u = S(t.call("unique", c, nd=1, feas="U"))
    if any(k.startswith("return_") for k in kw):
        return Tup((u,) + tuple(S(t.call("unique_%s" % k, c, nd=1)) for k in kw if k.startswith("return_")))
    return u


@reg("flip", "roll")
def _flip(I, st, args, kw, node):
    c = I.content(st, args[0])
    if c.nd == 1 and not (c.feas == "F"):
        i = t.call("flipidx", t.length(c) or t.call("len", c, nd=0), nd=1)
        return fresh(I, st, t.row(c, i), node)
    return fresh(I, st, t.call("flip", c, nd=c.nd, feas="U"), node)


@reg("cumsum", "cumprod", "tril", "triu", "diff", "select", "interp", "outer", "transpose", "bincount", "histogram",
     "searchsorted", "digitize", "meshgrid", "column_stack", "atleast_2d", "expand_dims", "einsum", "matmul", "eye", "identity", "diag",
     "split", "array_split", "broadcast_to", "take", "in1d", "isin", "setdiff1d", "linalg.eigh", "linalg.inv", "cov", "corrcoef", "logspace", "nan_to_num")
def _gen(I, st, args, kw, node):
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else "gen"
    cs = [I.content(st, a) for a in args]
    nd = {"cumsum": 1, "select": 1, "diff": cs[0].nd if cs else None, "tril": 2, "bincount": 1}.get(nm)
    return fresh(I, st, t.call(nm, *cs, nd=nd, feas="U"), node)


def flatview(I, st, v, to=None):
    """the same storage when a one-dimensional array is flattened, squeezed or viewed (None: something else)"""
    if isinstance(v, (Ref, View)):
        c = I.content(st, v)
        if c.nd == 1 and (to is None or t.is_const(to) and t.cval(to) == -1) and (isinstance(v, View) or isinstance(st.heap.get(v.oid), Arr)):
            return v
    return None


@reg("ravel", "squeeze", "reshape", "atleast_1d")
def _ravel(I, st, args, kw, node):
    nm = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else "ravel"
    to = None
    if nm == "reshape":
        a = args[1] if len(args) > 1 else kw.get("newshape", kw.get("shape"))
        to = I.content(st, a) if a is not None else t.NONE
    v = flatview(I, st, args[0], to) if args else None
    if v is not None:
        return v
    return _gen(I, st, args, kw, node)


@reg("copyto")
def _copyto(I, st, args, kw, node):
    w = kw.get("where")
    c = I.content(st, args[0])
    new = I.content(st, args[1])
    if new.nd == 0:
        new = t.fill(new, I.key(node), c.nd)
    if w is not None:
        new = t.call("where", I.content(st, w), new, c, nd=c.nd, feas="U")
    I.set_whole(st, args[0], new, node)
    return S(t.NONE)


@reg("put", "place", "putmask", "fill_diagonal")
def _put(I, st, args, kw, node):
    c = I.content(st, args[0])
    I.set_whole(st, args[0], t.call("put", *[I.content(st, a) for a in args], nd=c.nd, feas="U"), node)
    return S(t.NONE)


@reg("apply_along_axis")
def _aaa(I, st, args, kw, node):
    f = getarg(args, kw, 0, "func1d")
    ax = getarg(args, kw, 1, "axis")
    a = getarg(args, kw, 2, "arr")
    extra = list(args[3:])
    kw = {k: v for k, v in kw.items() if k not in ("func1d", "axis", "arr")}
    a = I.mat(st, a, I.key(node, "aaa"))
    c = I.content(st, a)
    k = I.content(st, ax)
    if t.is_const(k) and t.cval(k) in (1, -1) and c.nd in (2, None) or t.is_const(k) and t.cval(k) == 0 and c.nd == 1:
        if c.nd == 1:
            r = I.call(st, f, [a] + extra, kw, node)
            return r
        x, ek = loop_map(I, st, node, "aaa", a, lambda s, el: I.call(s, f, [el] + extra, kw, node))
        if x.op == "lphi" or x.nd not in (1, 2, "o1"):
            return S(x) if x.nd not in (1, 2) else mkarr(I, st, x, node, "aaar")
        if x.nd == "o1":
            return mkarr(I, st, x, node, "aaar", "obj", ek[1] if ek else None)
        return mkarr(I, st, x, node, "aaar")
    # other axes: apply to a generic column; effects are still seen
    colv = S(t.row(c, t.call("tupidx", t.slice_(t.NONE, t.NONE, t.NONE), t.sym("colidx", nd=0), nd=None)))
    r = I.call(st, f, [I.mat(st, colv, I.key(node, "col"))] + extra, kw, node)
    rc = I.content(st, r)
    I.ev("apply_axis", node, axis=t.show(k))
    return fresh(I, st, t.call("apply_axis", rc, nd={0: 1, 1: 2}.get(rc.nd), feas="U" if rc.feas != "B" else "B"), node)


@reg("default_rng", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.RandomState", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937")
def _rng(I, st, args, kw, node):
    v = getarg(args, kw, 0, "seed")
    site = "%s:%d" % (I.stack[-1][0].path if I.stack else "?", getattr(node, "lineno", 0))
    if isinstance(v, RngV):
        return v
    return joinrng(I, st, v, site)


def joinrng(I, st, v, site):
    if isnone(v):
        return RngV("unseeded", site)
    if isinstance(v, PhiV):
        return joinv(v.c, joinrng(I, st, v.a, site), joinrng(I, st, v.b, site))
    c = I.content(st, v)
    if c.op == "phi":
        a, b = joinrng(I, st, S(c.args[1]), site), joinrng(I, st, S(c.args[2]), site)
        return joinv(c.args[0], a, b)
    if t.is_const(c):
        return RngV("fixed", site)
    for x in t.leaves(c):
        if x.op == "sym" and x.args[0] == "cfg.seed":
            return RngV("seeded", site)
    if c.draw:
        return RngV("seeded", site)     # derived from another generator's output (that draw is checked on its own)
    return RngV("unknown", site)


@reg("datetime.datetime.now", "datetime.now", "os.path.exists", "os.makedirs", "os.path.join", "threading.current_thread", "threading.main_thread",
     "multiprocessing.current_process", "time.time", "time.perf_counter")
def _amb(I, st, args, kw, node):
    return S(t.sym("ambient%s" % (I.key(node),), nd=0))


# ---- rng methods ---------------------------------------------------------------------------------
def rng_call(I, st, o, name, args, kw, node):
    I.ev("draw", node, tag=o.tag, site=o.site, name=name)

    def size_nd(v):
        if isnone(v):
            return 0, None
        return shape_of(I, st, v)

    def key(x=""):
        return I.key(node, "d" + name + x)

    def mk(dist, nd, n, feas="B", unit=False, *a):
        x = t.draw(key(), dist, nd, feas, unit, *a)
        if n is not None and x.org is None and nd in (1, 2):
            x.org = n
        return fresh(I, st, x, node, "rng")
    if name in ("random", "rand", "random_sample"):
        nd, n = size_nd(getarg(args, kw, 0, "size"))
        return mk("random", nd, n, "B", True)
    if name == "uniform":
        lo, hi = getarg(args, kw, 0, "low"), getarg(args, kw, 1, "high")
        a = I.content(st, lo) if lo is not None else t.const(0.0)
        b = I.content(st, hi) if hi is not None else t.const(1.0)
        sz = getarg(args, kw, 2, "size")
        nd, n = size_nd(sz)
        if isnone(sz):
            nd = t.maxnd(a.nd, b.nd)
            n = t.length(a) if nd and a.nd == nd else t.length(b) if nd else None
        feas = "F" if a.feas == "F" and b.feas == "F" else ("U" if (a.top and a.feas == "U") or (b.top and b.feas == "U") else "B")
        unit = t.is_unit(a) and t.is_unit(b)
        return mk("uniform", nd, n, feas, unit, a, b)
    if name in ("normal", "standard_normal", "exponential", "standard_cauchy", "cauchy", "gamma", "beta", "poisson", "binomial", "lognormal", "laplace", "logistic", "standard_t", "gumbel", "weibull", "pareto", "triangular", "standard_exponential", "chisquare", "rayleigh", "geometric"):
        npar = {"standard_normal": 0, "standard_cauchy": 0, "exponential": 1, "standard_exponential": 0}.get(name, 2)
        pars = [I.content(st, a) for a in args[:npar]] + [I.content(st, v) for k, v in kw.items() if k != "size"]
        sz = getarg(args, kw, npar, "size")
        nd, n = size_nd(sz)
        if isnone(sz):
            nd = t.maxnd(*[p.nd for p in pars]) if pars else 0
        return mk(name, nd, n, "B", False, *pars)
    if name in ("integers", "randint", "random_integers"):
        lo, hi = getarg(args, kw, 0, "low"), getarg(args, kw, 1, "high")
        sz = getarg(args, kw, 2, "size")
        nd, n = size_nd(sz)
        pars = [I.content(st, x) for x in (lo, hi) if x is not None]
        if isnone(sz):
            nd = t.maxnd(*[p.nd if p is not t.NONE else 0 for p in pars]) if pars else 0
        return mk("integers", nd, n, "B", False, *pars)
    if name == "choice":
        a = getarg(args, kw, 0, "a")
        sz = getarg(args, kw, 1, "size")
        nd, n = size_nd(sz)
        c = I.content(st, a)
        if c.nd == 0 and not isinstance(a, Tup):
            return mk("choice", nd, n, "B", False, c)
        i = t.draw(key("i"), "choiceidx", nd if nd is not None else None)
        if n is not None and i.org is None and nd == 1:
            i.org = n
        its = I.exact_items(st, a)
        if its is not None and nd == 0:
            return I.choose(its, i) if its else BOT
        v = I.elem(st, a, S(i), node)
        if isinstance(v, View):
            return fresh(I, st, I.content(st, v), node, "chc")
        return v
    if name == "permutation":
        v = args[0]
        c = I.content(st, v)
        if c.nd == 0:
            return mk("permutation", 1, c)
        i = t.draw(key("i"), "permidx", 1)
        if i.org is None:
            i.org = t.length(c)
        return fresh(I, st, t.row(c, i), node, "perm", like=v)
    if name == "shuffle":
        v = args[0]
        i = t.draw(key("i"), "permidx", 1)
        c = I.content(st, v)
        if i.org is None:
            i.org = t.length(c)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Lst) and st.heap[v.oid].items is not None:
            st.heap[v.oid] = I.summ(st, st.heap[v.oid])
        I.set_whole(st, v, t.row(c, i), node)
        return S(t.NONE)
    if name in ("spawn", "bit_generator", "bytes"):
        return S(t.draw(key(), name, None))
    I.note("rng method " + name, node)
    return S(t.draw(key(), name, None, "U"))


# ---- methods -------------------------------------------------------------------------------------
@meth("copy", "__copy__")
def m_copy(I, st, o, args, kw, node):
    return do_copy(I, st, o, node)


@meth("astype")
def m_astype(I, st, o, args, kw, node):
    c = I.content(st, o)
    isint = args and isinstance(args[0], Ext) and "int" in args[0].name
    if kw.get("copy") == S(t.FALSE) and not isint and isinstance(o, (Ref, View)):
        return o        # the same storage unless the type changes
    return fresh(I, st, t.call("int", c, nd=c.nd) if isint else c, node, "ast", like=o)


@meth("tolist")
def m_tolist(I, st, o, args, kw, node):
    r = I.as_summary(st, o)
    return I.alloc(st, r._replace(esc=()), I.key(node, "tolist"))


@meth("put", "itemset", "partition", "resize")
def m_put(I, st, o, args, kw, node):
    c = I.content(st, o)
    I.set_whole(st, o, t.call("put", c, *[I.content(st, a) for a in args], nd=c.nd, feas="U"), node)
    return S(t.NONE)


@meth("view")
def m_view(I, st, o, args, kw, node):
    return o if isinstance(o, (Ref, View)) and not args and not kw else m_gen(I, st, o, args, kw, node)


@meth("flatten", "ravel")
def m_flatten(I, st, o, args, kw, node):
    c = I.content(st, o)
    if node.func.attr == "ravel" if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else False:
        v = flatview(I, st, o)
        if v is not None:
            return v
    if c.nd == 1:
        return fresh(I, st, c, node, "flat")
    return fresh(I, st, t.call("ravel", c, nd=1), node, "flat")


@meth("reshape", "squeeze", "transpose", "dot", "cumsum", "nonzero", "round", "repeat", "take", "swapaxes", "conj", "item", "ptp", "tobytes")
def m_gen(I, st, o, args, kw, node):
    c = I.content(st, o)
    nm = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else "gen"
    if nm in ("squeeze", "reshape"):
        v = flatview(I, st, o, None if nm == "squeeze" else I.content(st, args[0]) if len(args) == 1 else t.NONE)
        if v is not None:
            return v
    return fresh(I, st, t.call("m_" + nm, c, *[I.content(st, a) for a in args], nd=0 if nm == "item" else 1 if nm in ("nonzero", "cumsum") else None, feas="U"), node)


def m_red(nm, keep=False):
    def f(I, st, o, args, kw, node):
        ax = getarg(args, kw, 0, "axis")
        return reduce_(I, st, nm, o, ax, node, keep)
    return f


for _n, _k in (("sum", 0), ("mean", 1), ("std", 0), ("var", 0), ("prod", 0), ("any", 0), ("all", 0), ("min", 1), ("max", 1)):
    METHODS[_n] = m_red(_n, bool(_k))


@meth("argmin", "argmax")
def m_arg(I, st, o, args, kw, node):
    return TABLE[node.func.attr](I, st, [o] + list(args), kw, node)


@meth("argsort")
def m_argsort(I, st, o, args, kw, node):
    return _argsort(I, st, [o], kw, node)


@meth("fill")
def m_fill(I, st, o, args, kw, node):
    c = I.content(st, o)
    x = t.fill(I.content(st, args[0]), I.key(node), c.nd)
    I.set_whole(st, o, x, node)
    return S(t.NONE)


@meth("clip")
def m_clip(I, st, o, args, kw, node):
    return _clip(I, st, [o] + list(args), kw, node)


@meth("append")
def m_append(I, st, o, args, kw, node):
    if isinstance(o, Ref) and isinstance(st.heap.get(o.oid), Lst):
        I.list_append(st, o, args[0], node)
    else:
        I.note("append on non-list", node)
    return S(t.NONE)


@meth("extend")
def m_extend(I, st, o, args, kw, node):
    if isinstance(o, Ref) and isinstance(st.heap.get(o.oid), Lst):
        I.list_extend(st, o, args[0], node)
    else:
        I.note("extend on non-list", node)
    return S(t.NONE)


@meth("insert")
def m_insert(I, st, o, args, kw, node):
    r = st.heap.get(o.oid) if isinstance(o, Ref) else None
    if isinstance(r, Lst):
        i = I.content(st, args[0])
        if r.items is not None and t.is_const(i) and not I.inloop:
            its = list(r.items)
            its.insert(t.cval(i), args[1])
            I.ev("mutate", node, oid=o.oid, how="insert")
            st.heap[o.oid] = r._replace(items=tuple(its))
        else:
            I.list_append(st, o, args[1], node)
            # order changed
            r = st.heap[o.oid]
            if r.items is None:
                st.heap[o.oid] = r._replace(term=t.row(r.term, t.call("insidx", i, nd=1)))
    return S(t.NONE)


@meth("remove")
def m_remove(I, st, o, args, kw, node):
    r = st.heap.get(o.oid) if isinstance(o, Ref) else None
    if isinstance(r, Lst):
        r = I.summ(st, r)
        st.heap[o.oid] = r
        I.set_term(st, o.oid, t.row(r.term, t.call("compl", t.call("index", I.content(st, args[0]), nd=0), nd=1)), node, "remove")
    return S(t.NONE)


@meth("clear")
def m_clear(I, st, o, args, kw, node):
    r = st.heap.get(o.oid) if isinstance(o, Ref) else None
    if isinstance(r, Lst):
        I.ev("mutate", node, oid=o.oid, how="clear")
        st.heap[o.oid] = Lst((), None, None, None, None, r.esc)
    elif isinstance(r, Dct):
        I.ev("dict_set", node, oid=o.oid, key=None)
        st.heap[o.oid] = Dct((), frozenset(), False)
    return S(t.NONE)


@meth("sort")
def m_sort(I, st, o, args, kw, node):
    r = st.heap.get(o.oid) if isinstance(o, Ref) else None
    if isinstance(r, Lst):
        r = I.summ(st, r)
        st.heap[o.oid] = r
    c = I.content(st, o)
    key = kw.get("key")
    kt = c if key is None else t.call("key:%s" % ip.vname(key), c, nd=1)
    i = t.call("argsort", kt, nd=1)
    if i.org is None:
        i.org = t.length(c)
    I.set_whole(st, o, t.row(c, i), node)
    return S(t.NONE)


@meth("reverse")
def m_reverse(I, st, o, args, kw, node):
    r = st.heap.get(o.oid) if isinstance(o, Ref) else None
    if isinstance(r, Lst):
        st.heap[o.oid] = I.summ(st, r)
    c = I.content(st, o)
    I.set_whole(st, o, t.row(c, t.call("flipidx", t.length(c) or t.call("len", c, nd=0), nd=1)), node)
    return S(t.NONE)


@meth("index", "count", "find")
def m_index(I, st, o, args, kw, node):
    return S(t.call("index", I.content(st, o), *[I.content(st, a) for a in args], nd=0))


@meth("pop", "popleft")
def m_pop(I, st, o, args, kw, node):
    r = st.heap.get(o.oid) if isinstance(o, Ref) else None
    if isinstance(r, Dct):
        return I.dict_pop(st, o, I.content(st, args[0]), args[1] if len(args) > 1 else kw.get("default"), node)
    if isinstance(r, Lst):
        i = I.content(st, args[0]) if args else t.const(-1)
        I.ev("mutate", node, oid=o.oid, how="pop")
        if r.items is not None and t.is_const(i) and not I.inloop:
            its = list(r.items)
            if -len(its) <= t.cval(i) < len(its):
                v = its.pop(t.cval(i))
                st.heap[o.oid] = r._replace(items=tuple(its))
                return v
            I.ev("index_error", node, n=len(its), i=t.cval(i))
            return BOT
        v = I.elem(st, o, S(i), node)
        if isinstance(v, View):
            v = fresh(I, st, I.content(st, v), node, "popv")
        r = I.summ(st, st.heap[o.oid])
        st.heap[o.oid] = r
        if isinstance(v, Ref) and v.oid[0] == "f":
            # popped element: detach from the list
            f = st.heap[v.oid]
            v = I.alloc(st, f._replace(esc=()), I.key(node, "popf"))
        st.heap[o.oid] = r._replace(term=t.row(r.term, t.call("compl", i, nd=1)))
        return v
    return I.topv("pop", node)


@meth("get")
def m_get(I, st, o, args, kw, node):
    r = st.heap.get(o.oid) if isinstance(o, Ref) else None
    d = args[1] if len(args) > 1 else S(t.NONE)
    if isinstance(r, Dct):
        return I.dict_get(st, o, I.content(st, args[0]), d, node, strict=False)
    return I.topv("get", node)


@meth("setdefault")
def m_setdefault(I, st, o, args, kw, node):
    r = st.heap.get(o.oid) if isinstance(o, Ref) else None
    if isinstance(r, Dct):
        d = args[1] if len(args) > 1 else S(t.NONE)
        v = I.dict_get(st, o, I.content(st, args[0]), d, node, strict=False)
        I.store(st, o, I.content(st, args[0]), v, node)
        return v
    return I.topv("setdefault", node)


@meth("update")
def m_update(I, st, o, args, kw, node):
    r = st.heap.get(o.oid) if isinstance(o, Ref) else None
    if isinstance(r, Dct):
        I.ev("dict_set", node, oid=o.oid, key=None)
        e, maybe, op = dict(r.entries), set(r.maybe), r.open
        for a in args:
            for l in vleaves(a):
                r2 = st.heap.get(l.oid) if isinstance(l, Ref) else None
                if isinstance(r2, Dct):
                    e.update(dict(r2.entries))
                    maybe = (maybe - (set(dict(r2.entries)) - r2.maybe)) | (r2.maybe - set(dict(r.entries)))
                    op |= r2.open
                else:
                    op = True
        e.update(kw)
        st.heap[o.oid] = Dct(tuple(e.items()), frozenset(maybe - set(kw)), op)
        return S(t.NONE)
    I.note("update on non-dict", node)
    return S(t.NONE)


@meth("items", "keys", "values")
def m_items(I, st, o, args, kw, node):
    r = st.heap.get(o.oid) if isinstance(o, Ref) else None
    nm = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else "items"
    if isinstance(r, Dct) and not r.open:
        if nm == "items":
            return Tup(tuple(Tup((S(t.const(k)), v)) for k, v in r.entries))
        if nm == "keys":
            return Tup(tuple(S(t.const(k)) for k, _ in r.entries))
        return Tup(tuple(v for _, v in r.entries))
    return S(t.sym("dictview%s" % (I.key(node),), nd=None))


@meth("format", "upper", "lower", "strip", "split", "join", "startswith", "endswith", "isalnum", "replace", "title", "encode", "decode", "isdigit", "capitalize", "rstrip", "lstrip")
def m_str(I, st, o, args, kw, node):
    nm = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else ""
    if isinstance(o, S) and t.is_const(o.t) and isinstance(t.cval(o.t), str) and not kw:
        its = [I.exact_items(st, a) if nm == "join" else None for a in args]
        vals = [[I.content(st, x) for x in its[0]]] if its and its[0] is not None else [I.content(st, a) for a in args]
        flat = vals[0] if its and its[0] is not None else vals
        if all(t.is_const(x) and isinstance(t.cval(x), (str, int)) for x in flat):
            try:
                r = getattr(t.cval(o.t), nm)(*([[t.cval(x) for x in flat]] if its and its[0] is not None else [t.cval(x) for x in flat]))
                if isinstance(r, (str, bool, int)):
                    return S(t.const(r))
            except Exception:
                pass
    return S(t.sym("strm%s" % (I.key(node),), nd=None))


@meth("info", "warning", "debug", "error", "setLevel", "exception")
def m_log(I, st, o, args, kw, node):
    return S(t.NONE)


@meth("add", "discard")
def m_add(I, st, o, args, kw, node):
    return S(t.NONE)


@meth("reduce", "accumulate", "outer")
def m_ufunc(I, st, o, args, kw, node):
    return S(t.top("ufunc method"))


def _env(name):
    def f(I, st, args, kw, node):
        return S(t.sym("env:" + name, nd=0))
    return f


for _n in ("threading.current_thread", "threading.main_thread", "threading.get_ident", "multiprocessing.current_process", "multiprocessing.parent_process",
           "multiprocessing.process.current_process", "multiprocessing.process.parent_process", "os.getpid", "os.getppid"):
    TABLE[_n] = _env(_n.split(".")[-1])
