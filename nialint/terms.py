"""Hash-consed value-number terms with compositional facets.

feas : 'F' inside the box | 'P' placeholder (zeros/empty, neutral) | 'U' unknown | 'B' not confined
nd   : 0 scalar, 1 vector, 2 matrix, 'o1' container of individuals, 'o0' an individual, None unknown
top  : True when an unmodelled value takes part
"""
import itertools

FORD = {"P": 0, "F": 1, "U": 2, "B": 3}


def meet(*fs):
    m = "P"
    for f in fs:
        if FORD[f] > FORD[m]:
            m = f
    return m


class T:
    __slots__ = ("op", "args", "id", "feas", "nd", "unit", "top", "draw", "bv", "org", "depth")

    def __repr__(self):
        return show(self)


_tab = {}
_ctr = itertools.count()
DEFS = {}       # lphi term -> back-edge term (last round)


def reset():
    global NAN
    NAN = False
    _tab.clear()
    DEFS.clear()
    _memo_sub.clear()
    _memo_e.clear()
    _memo_col.clear()
    _memo_row.clear()
    global _ctr
    _ctr = itertools.count()
    _init()


def _new(op, args, feas="B", nd=None, unit=False, top=None, draw=None, org=None):
    key = (op,) + tuple(args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args = op, tuple(args)
    t.id = next(_ctr)
    t.feas, t.nd, t.unit = feas, nd, unit
    ta = [a for a in t.args if isinstance(a, T)]
    t.top = any(a.top for a in ta) if top is None else top
    t.draw = any(a.draw for a in ta) if draw is None else draw
    t.bv = max([a.bv for a in ta] or [0])
    if op == "bv":
        t.bv = args[0]
    t.depth = 1 + max([a.depth for a in ta] or [0])
    t.org = org
    _tab[key] = t
    return t


def const(c):
    key = (type(c).__name__, repr(c))
    t = _new("const", key, feas="B", nd=0 if isinstance(c, (int, float, bool)) else None)
    CONSTV[t] = c
    if isinstance(c, (int, float)) and not isinstance(c, bool):
        t.unit = 0 <= c <= 1
        if c != c or c in (float("inf"), float("-inf")):
            t.feas = "P"
    return t


CONSTV = {}
LOOPS = []       # loops being interpreted
DRAWL = {}       # draw -> loops every pass of which makes it anew
ALIASOF = {}     # 'may share storage' condition -> the storage it is about


def is_const(t):
    return t.op == "const"


def cval(t):
    return CONSTV[t]


def sym(name, nd=0, unit=False):
    return _new("sym", (name,), nd=nd, unit=unit)


def top(reason="?"):
    return _new("top", (reason,), feas="U", nd=None, top=True)


def draw(key, dist, nd, feas="B", unit=False, *args):
    r = _new("draw", (key, dist) + args, feas=feas, nd=nd, unit=unit, draw=True)
    a = DRAWL.get(r)
    DRAWL[r] = tuple(LOOPS) if a is None else tuple(x for x in a if x in LOOPS)
    return r


NONE = TRUE = FALSE = LOWER = UPPER = INF = None


def _init():
    global NONE, TRUE, FALSE, LOWER, UPPER, INF
    CONSTV.clear()
    ALIASOF.clear()
    DRAWL.clear()
    del LOOPS[:]
    NONE = const(None)
    TRUE = const(True)
    FALSE = const(False)
    INF = const(float("inf"))
    LOWER = _new("lower", (), feas="F", nd=1)
    UPPER = _new("upper", (), feas="F", nd=1)


def boolc(b):
    return TRUE if b else FALSE


# ---- arithmetic ------------------------------------------------------------------------------
def maxnd(*nds):
    if any(n is None for n in nds):
        if any(n in (2,) for n in nds):
            return 2
        return None
    best = 0
    for n in nds:
        if n in ("o1", "o0"):
            return None
        best = max(best, n)
    return best


def coord(t):
    """index term of the coordinate a scalar was taken from / belongs to; None unknown"""
    if t.op == "row":
        return t.args[1]
    if t.op == "phi":
        a, b = coord(t.args[1]), coord(t.args[2])
        return a if a is b else None
    if t.op == "draw" and t.args[1] == "uniform" and len(t.args) >= 4:
        a, b = coord(t.args[2]), coord(t.args[3])
        return a if a is b else None
    if t.op in ("rep", "samp"):
        for a in t.args:
            if isinstance(a, T):
                c = coord(a)
                if c is not None:
                    return c
    if t.op == "bin":
        for a in t.args[1:]:
            c = coord(a)
            if c is not None:
                return c
    return None


def sel_path(t, root):
    """if t is root or a (nested) row of root return the list of indices, else None"""
    p = []
    while t is not root:
        if t.op != "row":
            return None
        p.append(t.args[1])
        t = t.args[0]
    return tuple(p)


def is_lower(t):
    return sel_path(t, LOWER)


def is_upper(t):
    return sel_path(t, UPPER)


def is_range(t):
    """upper-lower (same selection) -> selection path"""
    if t.op == "row":
        r = is_range(t.args[0])
        return None if r is None else (t.args[1],) + r
    if t.op == "bin" and t.args[0] == "-":
        a, b = is_upper(t.args[1]), is_lower(t.args[2])
        if a is not None and a == b:
            return a
    return None


def is_unit(t):
    if t.unit:
        return True
    if t.op == "row" and is_unit(t.args[0]):
        return True
    if t.op == "bin":
        o, a, b = t.args
        if o == "-" and is_const(a) and cval(a) == 1 and is_unit(b):
            return True
        if o == "*" and is_unit(a) and is_unit(b):
            return True
        if o == "**" and is_unit(a) and is_const(b) and cval(b) >= 0:
            return True
        if o == "/" and is_unit(a) and is_const(b) and cval(b) >= 1:
            return True
    if t.op == "phi":
        return is_unit(t.args[1]) and is_unit(t.args[2])
    return False


def is_compl(a, b):
    """b == 1 - a (syntactically, either way)"""
    for x, y in ((a, b), (b, a)):
        if y.op == "bin" and y.args[0] == "-" and is_const(y.args[1]) and cval(y.args[1]) == 1 and y.args[2] is x:
            return True
    return False


def _feas_bin(op, a, b):
    if op == "+":
        for x, y in ((a, b), (b, a)):
            lp = is_lower(x)
            if lp is not None and y.op == "bin" and y.args[0] == "*":
                for u, r in ((y.args[1], y.args[2]), (y.args[2], y.args[1])):
                    if is_unit(u) and is_range(r) == lp:
                        return "F"
            if x.op == "bin" and x.args[0] == "*" and y.op == "bin" and y.args[0] == "*":
                for u, p in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                    for v, q in ((y.args[1], y.args[2]), (y.args[2], y.args[1])):
                        if is_unit(u) and is_compl(u, v) and p.feas == "F" and q.feas == "F":
                            return "F"
            # x + unit*(y - x)
            if x.feas == "F" and y.op == "bin" and y.args[0] == "*":
                for u, d in ((y.args[1], y.args[2]), (y.args[2], y.args[1])):
                    if is_unit(u) and d.op == "bin" and d.args[0] == "-" and d.args[2] is x and d.args[1].feas == "F":
                        return "F"
    if op == "-":
        # lower + upper - p ;  upper - unit*range
        if a.op == "bin" and a.args[0] == "+" and b.feas == "F":
            x, y = a.args[1], a.args[2]
            if (is_lower(x) is not None and is_lower(x) == is_upper(y)) or (is_upper(x) is not None and is_upper(x) == is_lower(y)):
                return "F"
        up = is_upper(a)
        if up is not None and b.op == "bin" and b.args[0] == "*":
            for u, r in ((b.args[1], b.args[2]), (b.args[2], b.args[1])):
                if is_unit(u) and is_range(r) == up:
                    return "F"
    if op == "/":
        if a.op == "call" and a.args[0] in ("sum0",) and a.args[1].feas == "F":
            return "F"
    if a.feas == "U" and a.top or b.feas == "U" and b.top:
        return "U"
    return "B"


def _num(c):
    return isinstance(c, (int, float)) and not isinstance(c, bool)


def bin_(op, a, b):
    if is_const(a) and is_const(b) and _num(cval(a)) and _num(cval(b)):
        try:
            x, y = cval(a), cval(b)
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                 "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x ** y if abs(x) < 1e6 and abs(y) < 64 else None}.get(op, lambda: None)()
            if isinstance(r, (int, float)):
                return const(r)
        except Exception:
            pass
    if op in ("+", "*", "&", "|"):       # commutative normal form
        if a.id > b.id:
            a, b = b, a
    if op == "*" and is_const(a) and cval(a) == 1:
        return b
    if op == "*" and is_const(b) and cval(b) == 1:
        return a
    if op in ("+",) and is_const(a) and cval(a) == 0 and _num(cval(a)):
        return b
    if op in ("+", "-") and is_const(b) and cval(b) == 0 and _num(cval(b)):
        return a
    if op == "@":
        return _new("bin", (op, a, b), nd=None)
    return _new("bin", (op, a, b), feas=_feas_bin(op, a, b), nd=maxnd(a.nd, b.nd))


def un(op, a):
    if op == "not":
        return not_(a)
    if is_const(a) and _num(cval(a)) and op == "-":
        return const(-cval(a))
    if op == "+":
        return a
    return _new("un", (op, a), feas="B", nd=a.nd)


def call(name, *args, nd=None, feas="B", unit=False):
    return _new("call", (name,) + args, feas=feas, nd=nd, unit=unit)


def rep(c, key=""):
    return _new("rep", (c,), feas="F", nd=c.nd)


# ---- booleans --------------------------------------------------------------------------------
_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "==", "is": "isnot", "isnot": "is", "in": "notin", "notin": "in"}


NAN = False     # True while extracting summaries that must also be right for NaN operands


def cmp(op, a, b):
    """normal form uses <, <=, ==, is, in (negations become not)"""
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if op == "!=":
        return not_(cmp("==", a, b))
    if op == "isnot":
        return not_(cmp("is", a, b))
    if op == "notin":
        return not_(cmp("in", a, b))
    if op in ("==", "is"):
        if a.id > b.id:
            a, b = b, a
        if is_const(a) and is_const(b):
            try:
                return boolc(cval(a) == cval(b))
            except Exception:
                pass
        if a is b and a.nd == 0 and op == "==" and not NAN:
            return TRUE
    if op in ("<", "<=") and is_const(a) and is_const(b) and _num(cval(a)) and _num(cval(b)):
        return boolc(cval(a) < cval(b) if op == "<" else cval(a) <= cval(b))
    if a is b and a.nd == 0 and op in ("<", "<=") and not NAN:
        return boolc(op == "<=")
    if op == "<=" and b is INF and a.nd == 0 and not NAN:
        return TRUE
    if op == "<" and a is INF and b.nd == 0:
        return FALSE
    return _new("cmp", (op, a, b), nd=maxnd(a.nd, b.nd))


def not_(a):
    if a.op == "not":
        return a.args[0]
    if is_const(a) and isinstance(cval(a), bool):
        return boolc(not cval(a))
    return _new("not", (a,), nd=a.nd)


def and_(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    return _new("and", (a, b), nd=maxnd(a.nd, b.nd))


def or_(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    if a is b:
        return a
    return _new("or", (a, b), nd=maxnd(a.nd, b.nd))


# ---- structure -------------------------------------------------------------------------------
def _under(c, val, t, depth=0):
    """t simplified knowing condition c is val"""
    if t.op == "phi" and depth < 6:
        k = t.args[0]
        if k is c:
            return _under(c, val, t.args[1] if val else t.args[2], depth + 1)
        if k.op == "not" and k.args[0] is c:
            return _under(c, val, t.args[2] if val else t.args[1], depth + 1)
    return t


def phi(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return phi(c.args[0], b, a)
    a = _under(c, True, a)
    b = _under(c, False, b)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if c.nd in (0, None):
        # the same cell written on both / one of the branches: one write of a gated value
        if a.op == "upd" and b.op == "upd" and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
            return upd(a.args[0], a.args[1], phi(c, a.args[2], b.args[2]))
        if a.op == "upd" and a.args[0] is b and a.args[1].nd == 0 and b.op != "fill":
            return upd(b, a.args[1], phi(c, a.args[2], row(b, a.args[1])))
        if b.op == "upd" and b.args[0] is a and b.args[1].nd == 0 and a.op != "fill":
            return upd(a, b.args[1], phi(c, row(a, b.args[1]), b.args[2]))
    nd = a.nd if a.nd == b.nd else (a.nd if b is NONE or b.nd is None else b.nd if a is NONE or a.nd is None else None)
    if nd is None and c.nd in (1, 2):
        nd = c.nd if not (a.nd is None or b.nd is None) else None
    if nd in (0, 1) and c.nd == 2:
        nd = 2
    if nd == 0 and c.nd == 1:
        nd = 1
    return _new("phi", (c, a, b), feas=meet(a.feas, b.feas) if not (a is NONE or b is NONE) else (a.feas if b is NONE else b.feas),
                nd=nd, unit=a.unit and b.unit)


def bv(k):
    return _new("bv", (k,), nd=0)


def lphi(loopid, path, entry, feas, nd, unit, topf, gen=0, paired=False):
    return _new("lphi", (loopid, path, entry, feas, str(nd), unit, topf, gen, paired), feas=feas, nd=nd, unit=unit, top=topf, draw=False)


def is_index_scalar(i):
    return i.nd == 0


_memo_row = {}


def contains(t, target, _seen=None):
    if t is target:
        return True
    if t.id < target.id:
        return False
    key = (t, target)
    seen = _seen if _seen is not None else set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x is target:
            return True
        if x in seen or x.id < target.id:
            continue
        seen.add(x)
        stack.extend(a for a in x.args if isinstance(a, T))
    return False


def has_lphi_of(t, loopid):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "lphi" and x.args[0] == loopid:
            return True
        stack.extend(a for a in x.args if isinstance(a, T))
    return False


def row(p, i):
    key = (p, i)
    r = _memo_row.get(key)
    if r is None:
        r = _row(p, i)
        _memo_row[key] = r
    return r


FULLSLICE = None


def _row_nd(p, i):
    if p.nd == "o1":
        return "o0" if i.nd == 0 else ("o1" if i.nd == 1 else None)
    if i.op == "call" and i.args[0] == "tupidx":
        if p.nd in (1, 2):
            n = 0
            for a in i.args[1:]:
                if a.op == "slice":
                    n += 1
                elif a.nd is None:
                    return None
                elif a is NONE:
                    n += 1
                elif a.nd:
                    n = max(n, a.nd)
            return min(n, 2)
        return None
    if i.nd == 0:
        return {2: 1, 1: 0}.get(p.nd)
    if i.nd == 1:
        return p.nd
    if i.op == "call" and i.args[0] == "argwhere":
        return 2 if p.nd == 1 else None
    if i.nd == 2:
        return p.nd if p.nd != 2 else 1
    return None


def _row(p, i):
    if i.op == "slice" and i.args[0] is NONE and i.args[1] is NONE and i.args[2] is NONE:
        return p
    if i.op == "const" and p.op == "row" and cval(i) == 0 and p.args[0].op == "row" and p.args[0].args[1].op == "call" and p.args[0].args[1].args[0] == "argwhere" \
            and p.args[1].nd == 0 and p.args[0].args[1].args[1].nd == 1:
        return row(row(p.args[0].args[0], call("nonzero", p.args[0].args[1].args[1], nd=1)), p.args[1])
    if p.op == "upd":
        q, j, v = p.args
        if j is i:
            return v
        if is_const(i) and is_const(j) and i.nd == 0 and j.nd == 0 and isinstance(cval(i), int) and isinstance(cval(j), int) \
                and (cval(i) >= 0) == (cval(j) >= 0):
            return row(q, i)
        if i.op == "not" and i.args[0] is j or j.op == "not" and j.args[0] is i:
            return row(q, i)
        nd = _row_nd(p, i)
        return _new("row", (p, i), feas=p.feas, nd=nd, unit=p.unit)
    if p.op == "tuplec" or p.op == "list":
        if is_const(i) and isinstance(cval(i), int) and -len(p.args) <= cval(i) < len(p.args):
            return p.args[cval(i)]
    if p.op == "map" and i.nd == 0:
        k, body = p.args[0], p.args[1]
        if not body.draw and not has_any_lphi(body):
            return subst(body, k, i)
    if p.op == "phi" and p.args[0].nd == 0 and (p.args[1].op in ("upd", "map", "tuplec", "list") or p.args[2].op in ("upd", "map", "tuplec", "list")):
        a, b = row(p.args[1], i), row(p.args[2], i)
        return phi(p.args[0], a, b)
    if p.op == "phi" and p.args[0].nd in (1, 2) and i.nd == 0:
        c = row(p.args[0], i)
        if p.nd == 2 and p.args[0].nd == 1 and p.args[1].nd == 2 and p.args[2].nd == 2:
            return phi(c, row(p.args[1], i), row(p.args[2], i))
        a = row(p.args[1], i) if p.args[1].nd in (1, 2) and (p.args[0].nd == p.args[1].nd) else None
        b = row(p.args[2], i) if p.args[2].nd in (1, 2) and (p.args[0].nd == p.args[2].nd) else None
        if a is not None and b is not None:
            return phi(c, a, b)
    if p.op == "fill":
        return p.args[0] if (p.nd == 1 and i.nd == 0 or p.nd == 2 and p.args[0].nd == 1 and i.nd == 0) else _new("row", (p, i), feas=p.feas, nd=_row_nd(p, i), unit=p.unit)
    return _new("row", (p, i), feas=p.feas, nd=_row_nd(p, i), unit=p.unit)


def has_any_lphi(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "lphi":
            return True
        stack.extend(a for a in x.args if isinstance(a, T))
    return False


def upd(p, i, v):
    if i.op == "slice" and i.args[0] is NONE and i.args[1] is NONE and i.args[2] is NONE:
        if v.nd == p.nd and v.nd is not None:
            return v
    if v is row(p, i) and not (p.op == "fill"):
        return p
    if p.op == "upd" and p.args[1] is i:
        p = p.args[0]
    # repair works coordinate by coordinate and leaves coordinates inside the box alone
    while p.op == "rep" and i.nd == 0 and p.nd == 1 and p.args[0].op == "upd" and p.args[0].args[1] is i and p.args[0].args[0].feas == "F":
        p = p.args[0].args[0]
    if v is row(p, i) and p.op != "fill":
        return p
    # boolean mask with same-mask selection  ->  elementwise select
    if i.nd == 1 and i.op in ("cmp", "and", "or", "not") and v.op == "row" and v.args[1] is i:
        return phi(i, v.args[0], p)
    vf = v.feas
    if p.nd == 1 and v.nd == 0 and vf == "F":
        c = coord(v)
        if c is not None and c is not i:
            vf = "B"
    if p.nd == 1 and v.nd == 0 and is_const(v) and p.feas == "F":
        vf = "B"
    return _new("upd", (p, i, v), feas=meet(p.feas, vf), nd=p.nd, unit=p.unit and v.unit)


def cat(*ps):
    fl = []
    for p in ps:
        if p.op == "cat":
            fl.extend(p.args)
        elif p.op == "list" and not p.args:
            continue
        else:
            fl.append(p)
    if len(fl) == 1:
        return fl[0]
    if not fl:
        return listc()
    nds = {p.nd for p in fl}
    return _new("cat", fl, feas=meet(*[p.feas for p in fl]), nd=nds.pop() if len(nds) == 1 else None)


def listc(*es):
    nds = {e.nd for e in es}
    nd = None
    if len(nds) == 1:
        n = nds.pop()
        nd = {0: 1, 1: 2, "o0": "o1"}.get(n)
    if not es:
        nd = None
    return _new("list", es, feas=meet(*[e.feas for e in es]) if es else "P", nd=nd)


def tuplec(*es):
    return _new("tuplec", es, feas="U", nd=None)


def slice_(a, b, c):
    return _new("slice", (a, b, c), nd=1)


def fill(v, key, nd):
    return _new("fill", (v, key), feas="P" if (is_const(v) and cval(v) in (0, 0.0, None, float("inf"), float("-inf"))) or v.feas == "P" else v.feas, nd=nd, unit=v.unit)


_memo_sub = {}


def subst(t, a, b):
    """replace term a by b (re-normalising)"""
    if t is a:
        return b
    if t.id < a.id:
        return t
    key = (t, a, b)
    r = _memo_sub.get(key)
    if r is not None:
        return r
    changed = False
    na = []
    for x in t.args:
        if isinstance(x, T):
            y = subst(x, a, b)
            changed |= y is not x
            na.append(y)
        else:
            na.append(x)
    r = rebuild(t, na) if changed else t
    _memo_sub[key] = r
    return r


def rebuild(t, a):
    op = t.op
    if op == "row":
        return row(*a)
    if op == "upd":
        return upd(*a)
    if op == "phi":
        return phi(*a)
    if op == "bin":
        return bin_(*a)
    if op == "cmp":
        return cmp(*a)
    if op == "not":
        return not_(*a)
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "cat":
        return cat(*a)
    if op == "E":
        return E(a[0], a[1])
    if op == "fld":
        return fld(*a)
    if op == "col":
        return col(*a)
    if op == "map":
        return mk_map_raw(*a)
    if op == "list":
        return listc(*a)
    r = _new(op, a, feas=t.feas, nd=t.nd, unit=t.unit, top=None if not t.top else True, draw=t.draw)
    return r


def mk_map_raw(k, body):
    n = body.nd
    nd = {0: 1, 1: 2, "o0": "o1"}.get(n)
    return _new("map", (k, body), feas=body.feas, nd=nd, unit=body.unit)


def mk_map(ivar, body):
    """[body(ivar) for ivar over the whole range]"""
    # eta: row(Y, ivar) with Y not mentioning ivar
    if body.op == "row" and body.args[1] is ivar and not contains(body.args[0], ivar):
        return body.args[0]
    if body.op == "E" and body.args[0] == 1:
        inner = mk_map(ivar, body.args[1])
        return E(2, inner)
    if body.op == "phi" and not contains(body.args[0], ivar):
        return phi(body.args[0], mk_map(ivar, body.args[1]), mk_map(ivar, body.args[2]))
    if not contains(body, ivar) and not body.draw and body.op == "const":
        return _new("rept", (body,), feas=body.feas, nd={0: 1, 1: 2}.get(body.nd), unit=body.unit)
    if body.op == "fld" and body.args[0].op != "row":
        inner = mk_map(ivar, body.args[0])
        return col(inner, body.args[1])
    k = bv(body.bv + 1)
    b2 = subst(body, ivar, k)
    return mk_map_raw(k, b2)


# ---- evaluation homomorphism -------------------------------------------------------------------
_memo_e = {}


def E(level, c):
    key = (level, c)
    r = _memo_e.get(key)
    if r is None:
        r = _E(level, c)
        _memo_e[key] = r
    return r


def _E(level, c):
    op = c.op
    if c is NONE:
        return INF
    if op == "phi" and (c.args[0].nd in (0, None) or level == 2 and c.args[0].nd == 1 and c.nd in (2,)):
        return phi(c.args[0], E(level, c.args[1]), E(level, c.args[2]))
    if op == "chk":
        return E(level, c.args[0])
    if level == 1:
        if op == "row":
            p, i = c.args
            if p.nd != 1 and i.nd in (0, None) and i.op != "call":
                return row(E(2, p), i)
    else:
        if op == "row":
            p, i = c.args
            if i.op != "call" and (i.nd == 1 or i.op == "slice"):
                return row(E(2, p), i)
        if op == "upd" and c.nd != 1:
            p, i, v = c.args
            if i.op != "call":
                return upd(E(2, p), i, E(1 if (v.nd == 1 or i.nd == 0) else 2, v))
        if op == "cat":
            return cat(*[E(2, a) for a in c.args])
        if op == "map":
            return mk_map_raw(c.args[0], E(1, c.args[1]))
        if op == "mapx" and c.nd in (2, None):
            return _new("mapx", (c.args[0], E(1, c.args[1])), nd=1)
        if op == "list":
            return listc(*[E(1, a) for a in c.args])
        if op == "rept":
            return _new("rept", (E(1, c.args[0]),), nd=1)
    return _new("E", (level, c), feas="B", nd=0 if level == 1 else 1)


# ---- individuals ----------------------------------------------------------------------------
def ind(cls, attrs, oid):
    """attrs: tuple of (name, term) sorted"""
    d = dict(attrs)
    feas = d["x"].feas if "x" in d else "U"
    flat = []
    for n, t in attrs:
        flat += [n, t]
    return _new("ind", [cls, oid] + flat, feas=feas, nd="o0")


def ind_get(t, name):
    a = t.args
    for k in range(2, len(a), 2):
        if a[k] == name:
            return a[k + 1]
    return None


def paired(o, depth=0):
    """does every individual of container/individual o satisfy f == E(x)?"""
    if depth > 60:
        return False
    if o.op == "ind":
        x, f = ind_get(o, "x"), ind_get(o, "f")
        return x is not None and f is not None and f is E(1, x)
    if o.op == "lphi":
        return bool(o.args[8])
    if o.op == "row":
        return paired(o.args[0], depth + 1)
    if o.op == "upd":
        return paired(o.args[0], depth + 1) and paired(o.args[2], depth + 1)
    if o.op == "phi":
        return all(x is NONE or paired(x, depth + 1) for x in o.args[1:])
    if o.op == "cat" or o.op == "list":
        return all(paired(x, depth + 1) for x in o.args)
    if o.op == "map":
        return paired(o.args[1], depth + 1)
    if o.op == "fill":
        return True
    if o.op == "rept":
        return paired(o.args[0], depth + 1)
    if o.op == "chk":
        return paired(o.args[0], depth + 1)
    return False


def fld(o, name):
    """field of an individual term"""
    if o.op == "ind":
        r = ind_get(o, name)
        if r is not None:
            return r
    if o.op == "phi":
        return phi(o.args[0], fld(o.args[1], name) if o.args[1] is not NONE else NONE, fld(o.args[2], name) if o.args[2] is not NONE else NONE)
    if o.op == "row" and o.args[1].nd in (0, None) and o.args[1].op not in ("slice",):
        return row(col(o.args[0], name), o.args[1])
    if name == "f" and paired(o):
        return E(1, fld(o, "x"))
    return _new("fld", (o, name), feas=o.feas if name == "x" else "B", nd={"x": 1, "f": 0}.get(name))


_memo_col = {}


def col(o, name):
    key = (o, name)
    r = _memo_col.get(key)
    if r is None:
        r = _col(o, name)
        _memo_col[key] = r
    return r


def _col(o, name):
    if o.op == "upd":
        p, i, v = o.args
        return upd(col(p, name), i, fld(v, name) if v.nd in ("o0", None) and i.nd in (0, None) else col(v, name))
    if o.op == "cat":
        return cat(*[col(a, name) for a in o.args])
    if o.op == "list":
        return listc(*[fld(a, name) for a in o.args])
    if o.op == "phi":
        return phi(o.args[0], col(o.args[1], name), col(o.args[2], name))
    if o.op == "map":
        return mk_map_raw(o.args[0], fld(o.args[1], name))
    if o.op == "mapx":
        b = fld(o.args[1], name)
        return _new("mapx", (o.args[0], b), feas=b.feas, nd={0: 1, 1: 2}.get(b.nd), unit=b.unit)
    if o.op == "row" and (o.args[1].nd == 1 or o.args[1].op == "slice"):
        return row(col(o.args[0], name), o.args[1])
    if name == "f" and paired(o):
        return E(2, col(o, "x"))
    return _new("col", (o, name), feas=o.feas if name == "x" else "B", nd={"x": 2, "f": 1}.get(name))


def chk(c):
    """content known feasible because a feasibility test succeeded"""
    if c.feas == "F":
        return c
    return _new("chk", (c,), feas="F", nd=c.nd)


def strip(t):
    while t.op == "chk":
        t = t.args[0]
    return t


def same(a, b):
    return a is b or _strip_all(a) is _strip_all(b)


def _strip_all(t):
    if not any_chk(t):
        return t
    if t.op == "chk":
        return _strip_all(t.args[0])
    na = [(_strip_all(x) if isinstance(x, T) else x) for x in t.args]
    return rebuild(t, na)


def any_chk(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "chk":
            return True
        stack.extend(a for a in x.args if isinstance(a, T))
    return False


def leaves(t, follow=None):
    """iterate over all sub-terms; follow(lphi)->bool decides whether to traverse a loop phi's definition"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(a for a in x.args if isinstance(a, T))
        if x.op == "lphi" and x in DEFS and (follow is None or follow(x)):
            stack.extend(DEFS[x])


# ---- length ----------------------------------------------------------------------------------
def length(t, depth=0, hyp=None):
    """term for len(t) of the first axis, or None"""
    if depth > 40:
        return None
    if t.org is not None:
        return t.org
    if hyp and t in hyp:
        return hyp[t]
    if t.op == "lphi" and t in DEFS:
        # an array that every pass keeps as long as it was
        e, b = DEFS[t]
        n = length(e, depth + 1, hyp)
        if n is not None and length(b, depth + 1, {**(hyp or {}), t: n}) is n:
            return n
        return None
    if t.op in ("upd", "chk", "rep"):
        return length(t.args[0], depth + 1, hyp)
    if t.op == "E" and t.args[0] == 2:
        return length(t.args[1], depth + 1, hyp)
    if t.op == "col":
        return length(t.args[0], depth + 1, hyp)
    if t.op == "list":
        return const(len(t.args))
    if t.op == "phi":
        a, b = length(t.args[1], depth + 1, hyp), length(t.args[2], depth + 1, hyp)
        return a if a is b else None
    if t.op == "bin" or t.op == "un":
        ls = [length(a, depth + 1, hyp) for a in t.args[1:] if a.nd == t.nd]
        return ls[0] if ls and ls[0] is not None else None
    if t.op == "row" and t.args[1].op == "slice" and t.args[1].args[0] is NONE and t.args[1].args[2] is NONE:
        n, e = length(t.args[0], depth + 1, hyp), t.args[1].args[1]
        if n is not None and is_const(n) and is_const(e) and isinstance(cval(e), int) and cval(e) >= 0:
            return const(min(cval(n), cval(e)))
        return None
    if t.op == "call" and t.args[0] == "tile" and t.args[1].nd == 1:
        n, e = length(t.args[1], depth + 1, hyp), t.args[2]
        if n is not None and is_const(n) and is_const(e) and isinstance(cval(e), int):
            return const(cval(n) * cval(e))
        return None
    if t.op == "row" and t.args[1].op == "call" and t.args[1].args[0] in ("argsort",):
        return length(t.args[0], depth + 1, hyp)
    return None


_init()


# ---- printing --------------------------------------------------------------------------------
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 7:
        return "..."
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.args
    if o == "const":
        return a[1]
    if o == "sym":
        return a[0]
    if o in ("lower", "upper"):
        return o
    if o == "draw":
        return "%s#%d" % (a[1], t.id)
    if o == "row":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "upd":
        return "%s{%s:=%s}" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "phi":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "bin":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "E":
        return "E%d(%s)" % (a[0], s(a[1]))
    if o == "lphi":
        return "loop<%s>#%d" % (pathname(a[1]), t.id)
    if o == "map":
        return "map(%s)" % s(a[1])
    if o == "bv":
        return "b%d" % a[0]
    return "%s(%s)" % (o, ", ".join(s(x) for x in a if not isinstance(x, tuple)))


def pathname(p):
    if isinstance(p, tuple):
        return ".".join(pathname(x) for x in p if isinstance(x, (str, tuple)))
    return str(p)


def numeric(x, depth=0):
    """some element of x is certainly a number (arrays are homogeneous, so all are)"""
    while x.op in ("row", "chk", "rep", "rept"):
        if x.op in ("rep", "rept"):
            return True
        x = x.args[0]
    if x.op in ("bin", "un", "E", "draw", "lower", "upper", "cmp", "not") or x.op == "const" and isinstance(cval(x), (int, float)):
        return True
    if depth < 12 and x.op in ("phi", "cat", "upd", "list"):
        return any(numeric(a, depth + 1) for a in (x.args[1:] if x.op == "phi" else x.args[:1] if x.op == "upd" else x.args) if isinstance(a, T))
    return False


def contains_op(x, op):
    seen, stack = set(), [x]
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == op:
            return True
        stack.extend(a for a in y.args if isinstance(a, T))
    return False
