"""Coordinate-wise abstract interpretation of vectorised functions on (x, lower, upper).

Every array is represented by its value at ONE arbitrary coordinate, an affine expression over the coordinate's own x, lower and
upper (and fresh variables for draws and remainders); masks and index sets are linear conditions on that coordinate; every store
through a mask splits the world.  A value taken from another coordinate (other index, other mask, aggregate) is a fresh variable
that is unrelated to this coordinate's bounds.  Worlds carry a polyhedron of constraints.
"""
import ast
import itertools

from . import poly
from .poly import var, num, lt, le, neg


class Unk(Exception):
    pass


class V:
    """number at the coordinate; arr: array-shaped; mask: restricted to an index set (id) or None"""

    def __init__(self, a, arr=True, mask=None):
        self.a, self.arr, self.mask = a, arr, mask


class Mask:
    """dnf: list of constraint conjunctions under which the coordinate is selected"""

    def __init__(self, dnf, ndnf):
        self.dnf, self.ndnf = dnf, ndnf


class Obj:
    """reference to array storage"""

    def __init__(self, oid):
        self.oid = oid


class Lit:
    def __init__(self, v):
        self.v = v


class Idx:
    """the coordinate's own index (loop variable), plus constant offset"""

    def __init__(self, off=0):
        self.off = off


class Len:
    pass


class Tup:
    def __init__(self, items):
        self.items = items


class Rng:
    pass


class Fun:
    def __init__(self, name):
        self.name = name


class World:
    def __init__(self, cs, env, heap, note=()):
        self.cs, self.env, self.heap, self.note = list(cs), env, heap, tuple(note)
        self.ret = None
        self.done = False

    def copy(self):
        w = World(self.cs, dict(self.env), dict(self.heap), self.note)
        w.ret, w.done = self.ret, self.done
        return w

    def ok(self):
        return poly.feasible(self.cs)


class CW:
    def __init__(self, prog, fi):
        self.prog, self.fi = prog, fi
        self.n = 0
        self.depth = 0
        self.foreign = {}

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- driving ------------------------------------------------------------------------------------
    def run(self, kw):
        x, l, u = var("x"), var("l"), var("u")
        heap = {"X": V(x), "L": V(l), "U": V(u)}
        args = {"x": Obj("X"), "lower": Obj("L"), "upper": Obj("U")}
        args.update(kw)
        w = World([lt(l, u)], {}, heap)
        return self.call_function(self.fi, [Obj("X"), Obj("L"), Obj("U")], kw, [w])

    def call_function(self, fi, args, kw, worlds):
        if self.depth > 4:
            raise Unk("recursion")
        a = fi.node.args
        names = [z.arg for z in a.posonlyargs + a.args]
        out = []
        for w in worlds:
            env = {}
            for n, v in zip(names, args):
                env[n] = v
            rest = {}
            for k, v in kw.items():
                if k in names or k in [z.arg for z in a.kwonlyargs]:
                    env[k] = v
                else:
                    rest[k] = v
            if a.kwarg:
                env[a.kwarg.arg] = ("kwargs", rest)
            dm = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            for n, d in dm.items():
                if n not in env:
                    env[n] = self.expr1(w, d)
            for z, d in zip(a.kwonlyargs, a.kw_defaults):
                if z.arg not in env and d is not None:
                    env[z.arg] = self.expr1(w, d)
            saved = w.env
            w.env = env
            self.depth += 1
            ws = self.block([w], fi.node.body)
            self.depth -= 1
            for z in ws:
                r = z.ret
                z.env, z.ret, z.done = saved, None, False
                out.append((z, r))
        return out

    def expr1(self, w, e):
        r = self.expr(w, e)
        if len(r) != 1:
            raise Unk("split in default")
        return r[0][1]

    # ---- statements ---------------------------------------------------------------------------------
    def block(self, ws, body):
        for s in body:
            nxt = []
            for w in ws:
                if w.done:
                    nxt.append(w)
                else:
                    nxt += [z for z in self.stmt(w, s) if z.ok()]
            ws = nxt
            if len(ws) > 400:
                raise Unk("too many cases")
        return ws

    def stmt(self, w, s):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return [w]
            return [z for z, _ in self.expr(w, s.value)]
        if isinstance(s, ast.Pass):
            return [w]
        if isinstance(s, ast.Return):
            out = []
            for z, v in ([(w, None)] if s.value is None else self.expr(w, s.value)):
                z.ret, z.done = v, True
                out.append(z)
            return out
        if isinstance(s, ast.Assign):
            out = []
            for z, v in self.expr(w, s.value):
                zs = [z]
                for tg in s.targets:
                    zs = [y for q in zs for y in self.assign(q, tg, v)]
                out += zs
            return out
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return [y for z, v in self.expr(w, s.value) for y in self.assign(z, s.target, v)]
        if isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
            out = []
            if isinstance(s.target, ast.Name) and isinstance(w.env.get(s.target.id), Obj):
                o = w.env[s.target.id]
                for z, v in self.expr(w, ast.BinOp(load, s.op, s.value)):
                    z.heap[o.oid] = self.val(z, v)
                    out.append(z)
                return out
            for z, v in self.expr(w, ast.BinOp(load, s.op, s.value)):
                out += self.assign(z, s.target, v)
            return out
        if isinstance(s, ast.If):
            out = []
            for z, m in self.cond(w, s.test):
                for pos, body in ((m.dnf, s.body), (m.ndnf, s.orelse)):
                    for cs in pos:
                        q = z.copy()
                        q.cs += cs
                        if q.ok():
                            out += self.block([q], body)
            return out
        if isinstance(s, ast.For):
            return self.for_(w, s)
        if isinstance(s, ast.Raise):
            return []
        if isinstance(s, ast.Assert):
            return [w]
        raise Unk("statement %s" % type(s).__name__)

    def for_(self, w, s):
        if s.orelse or any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s)):
            if any(isinstance(n, ast.Break) for n in ast.walk(s)):
                raise Unk("break")
        out = []
        for z, it in self.expr(w, s.iter):
            el = self.element(z, it)
            if el is None:
                raise Unk("loop over %s" % ast.unparse(s.iter))
            if isinstance(el, list):     # finite literal collection: unroll
                zs = [z]
                for v in el:
                    zs = [y for q in zs for y in self.block(self.assign(q, s.target, v), s.body)]
                out += zs
                continue
            if isinstance(el, tuple) and el[0] == "masked":     # only the selected coordinates are visited
                m, v = el[1], el[2]
                for cs in m.dnf:
                    q = z.copy()
                    q.cs += cs
                    if q.ok():
                        out += self.block(self.assign(q, s.target, v), s.body)
                for cs in m.ndnf:
                    q = z.copy()
                    q.cs += cs
                    if q.ok():
                        out.append(q)
                continue
            out += self.loop_body(self.assign(z, s.target, el), s.body)
        return out

    def loop_body(self, ws, body):
        """body of a loop over coordinates at our coordinate; `continue` ends it"""
        res = []
        for w in ws:
            res += self.block_c([w], body)
        return res

    def block_c(self, ws, body):
        for k, s in enumerate(body):
            if isinstance(s, ast.Continue):
                return ws
            if isinstance(s, ast.If) and any(isinstance(n, ast.Continue) for n in ast.walk(s)):
                out = []
                for w in ws:
                    for z, m in self.cond(w, s.test):
                        for pos, b in ((m.dnf, s.body), (m.ndnf, s.orelse)):
                            for cs in pos:
                                q = z.copy()
                                q.cs += cs
                                if q.ok():
                                    out += self.block_c([q], list(b) + ([] if b and isinstance(b[-1], ast.Continue) else body[k + 1:]))
                return out
            ws = self.block(ws, [s])
        return ws

    def element(self, w, it):
        if isinstance(it, tuple) and it[0] == "range":
            return Idx()
        if isinstance(it, tuple) and it[0] == "enumerate":
            e = self.element(w, it[1])
            return Tup([Idx(), e])
        if isinstance(it, tuple) and it[0] == "zip":
            es = [self.element(w, y) for y in it[1]]
            if any(e is None or isinstance(e, list) for e in es):
                return None
            return Tup(es)
        if isinstance(it, Obj):
            return V(w.heap[it.oid].a, False)
        if isinstance(it, V) and it.arr:
            return V(it.a, False)
        if isinstance(it, Mask):
            return ("masked", it, Idx())
        if isinstance(it, Tup):
            if len(it.items) == 1 and isinstance(it.items[0], Mask):
                raise Unk("loop over np.where tuple")
            return list(it.items)
        return None

    def assign(self, w, tg, v):
        if isinstance(tg, ast.Name):
            if isinstance(v, V) and v.arr and v.mask is None:
                o = self.fresh("o")
                w.heap[o] = v
                v = Obj(o)
            w.env[tg.id] = v
            return [w]
        if isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(tg.elts):
                ws = [w]
                for e, y in zip(tg.elts, v.items):
                    ws = [q for z in ws for q in self.assign(z, e, y)]
                return ws
            if isinstance(v, Mask) and len(tg.elts) == 1:
                return self.assign(w, tg.elts[0], v)
            raise Unk("unpacking")
        if isinstance(tg, ast.Subscript):
            out = []
            for z, b in self.expr(w, tg.value):
                if not isinstance(b, Obj):
                    raise Unk("store into %s" % ast.unparse(tg.value))
                for y, i in self.index(z, tg.slice):
                    out += self.store(y, b, i, v)
            return out
        raise Unk("target")

    def store(self, w, b, i, v):
        if isinstance(i, Idx) and i.off == 0:
            w.heap[b.oid] = V(self.val(w, v).a)
            return [w]
        if isinstance(i, (Lit, Idx)):
            return [w] if not isinstance(i, Idx) else [self.poison(w, b)]
        if i == "all":
            w.heap[b.oid] = V(self.val(w, v).a)
            return [w]
        if isinstance(i, Mask):
            val = self.val(w, v)
            out = []
            for cs in i.dnf:
                z = w.copy()
                z.cs += cs
                if z.ok():
                    a = val.a
                    if val.arr and val.mask is not i:
                        if val.mask is None:
                            raise Unk("unmasked array stored through a mask")
                        if not self.same(z, val.mask, i):
                            a = self.other("entries selected by another condition")
                    z.heap[b.oid] = V(a)
                    out.append(z)
            for cs in i.ndnf:
                z = w.copy()
                z.cs += cs
                if z.ok():
                    out.append(z)
            return out
        raise Unk("index")

    def same(self, w, m1, m2):
        """same selection?"""
        if m1 is m2:
            return True
        f = lambda m: sorted(sorted((a.key(), s) for a, s in cs) for cs in m.dnf)
        return f(m1) == f(m2)

    def poison(self, w, b):
        w.heap[b.oid] = V(self.other("another coordinate's store"))
        return w

    def other(self, why):
        n = self.fresh("other")
        self.foreign[n] = why
        return var(n)

    # ---- expressions: list of (world, value) ----------------------------------------------------------
    def val(self, w, v):
        if isinstance(v, Obj):
            return w.heap[v.oid]
        if isinstance(v, V):
            return v
        if isinstance(v, Lit) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
            if v.v in (float("inf"), float("-inf")) or v.v != v.v:
                raise Unk("infinite constant")
            return V(num(poly.Fraction(v.v)), False)
        raise Unk("number expected")

    def many(self, w, es):
        outs = [(w, [])]
        for e in es:
            outs = [(z, vs + [v]) for y, vs in outs for z, v in self.expr(y, e)]
        return outs

    def index(self, w, e):
        if isinstance(e, ast.Slice):
            if e.lower is None and e.upper is None and e.step is None:
                return [(w, "all")]
            raise Unk("slice")
        if isinstance(e, ast.Constant) and e.value is Ellipsis:
            return [(w, "all")]
        out = []
        for z, v in self.expr(w, e):
            if isinstance(v, Tup) and len(v.items) == 1:
                v = v.items[0]
            if isinstance(v, (Idx, Mask)) or isinstance(v, Lit) and isinstance(v.v, int):
                out.append((z, v))
            else:
                raise Unk("index %s" % ast.unparse(e))
        return out

    def expr(self, w, e):
        f = getattr(self, "x_" + type(e).__name__, None)
        if f is None:
            raise Unk("expression %s" % type(e).__name__)
        return f(w, e)

    def x_Constant(self, w, e):
        return [(w, Lit(e.value))]

    def x_Name(self, w, e):
        if e.id in w.env:
            return [(w, w.env[e.id])]
        r = self.prog.resolve_expr(self.fi.module, e)
        if r and r[0] == "func":
            return [(w, ("func", r[1]))]
        if e.id in ("len", "range", "enumerate", "zip", "min", "max", "abs", "float", "int", "list", "tuple"):
            return [(w, Fun(e.id))]
        d = self.ext(e)
        if d:
            return [(w, Fun(d))]
        raise Unk("name %s" % e.id)

    def ext(self, e):
        r = self.prog.resolve_expr(self.fi.module, e)
        if r and r[0] == "ext":
            return str(r[1])
        return None

    def x_Tuple(self, w, e):
        return [(z, Tup(vs)) for z, vs in self.many(w, e.elts)]

    x_List = x_Tuple

    def x_Attribute(self, w, e):
        d = self.ext(e)
        if d:
            if d in ("numpy.inf", "math.inf"):
                return [(w, Lit(float("inf")))]
            return [(w, Fun(d))]
        out = []
        for z, v in self.expr(w, e.value):
            if isinstance(v, (Obj, V)):
                if e.attr == "shape":
                    out.append((z, Tup([Len()])))
                elif e.attr == "size":
                    out.append((z, Len()))
                elif e.attr == "T":
                    out.append((z, v))
                else:
                    out.append((z, ("meth", v, e.attr)))
            elif isinstance(v, (Rng, Mask)) or isinstance(v, tuple) and v[0] == "kwargs":
                out.append((z, ("meth", v, e.attr)))
            else:
                raise Unk("attribute %s" % e.attr)
        return out

    def x_Subscript(self, w, e):
        out = []
        for z, b in self.expr(w, e.value):
            if isinstance(b, Tup):
                for y, i in self.expr(z, e.slice):
                    if isinstance(i, Lit) and isinstance(i.v, int):
                        out.append((y, b.items[i.v]))
                    else:
                        raise Unk("tuple index")
                continue
            if isinstance(b, Mask):          # np.where(...)[0]
                for y, i in self.expr(z, e.slice):
                    if isinstance(i, Lit) and i.v == 0:
                        out.append((y, b))
                    else:
                        raise Unk("mask index")
                continue
            if isinstance(b, tuple) and b[0] == "kwargs":
                for y, i in self.expr(z, e.slice):
                    out.append((y, b[1].get(i.v, Rng())))
                continue
            v = self.val(z, b)
            for y, i in self.index(z, e.slice):
                if isinstance(i, Idx):
                    out.append((y, V(v.a if i.off == 0 else self.other("index shifted by %+d" % i.off), False)))
                elif isinstance(i, Lit):
                    out.append((y, V(self.other("entry %s" % i.v), False)))
                elif i == "all":
                    out.append((y, V(v.a, True, v.mask)))
                elif isinstance(i, Mask):
                    out.append((y, V(v.a, True, i)))
        return out

    def x_UnaryOp(self, w, e):
        if isinstance(e.op, (ast.Not, ast.Invert)):
            return [(z, Mask(m.ndnf, m.dnf)) for z, m in self.cond(w, e.operand)]
        out = []
        for z, v in self.expr(w, e.operand):
            if isinstance(v, Lit):
                out.append((z, Lit(-v.v) if isinstance(e.op, ast.USub) else v))
            else:
                v = self.val(z, v)
                out.append((z, V(v.a.scale(-1) if isinstance(e.op, ast.USub) else v.a, v.arr, v.mask)))
        return out

    def mm(self, a, b):
        """shape and mask of a combination"""
        if a.arr and b.arr and a.mask is not b.mask:
            if a.mask is None or b.mask is None:
                raise Unk("shapes")
            if not self.same(None, a.mask, b.mask):
                return True, a.mask, True
        m = a if a.arr else b
        return m.arr, m.mask, False

    def x_BinOp(self, w, e):
        out = []
        for z, (l, r) in self.many(w, [e.left, e.right]):
            out += self.binop(z, e.op, l, r)
        return out

    def binop(self, w, op, l, r):
        if isinstance(l, Mask) and isinstance(r, Mask):
            if isinstance(op, ast.BitAnd):
                return [(w, self.m_and(l, r))]
            if isinstance(op, ast.BitOr):
                return [(w, self.m_or(l, r))]
            raise Unk("mask operator")
        if isinstance(l, Idx) and isinstance(r, Lit) and isinstance(op, (ast.Add, ast.Sub)):
            return [(w, Idx(l.off + (r.v if isinstance(op, ast.Add) else -r.v)))]
        if isinstance(l, Lit) and isinstance(r, Lit):
            try:
                v = {ast.Add: lambda: l.v + r.v, ast.Sub: lambda: l.v - r.v, ast.Mult: lambda: l.v * r.v, ast.Div: lambda: l.v / r.v}[type(op)]()
                return [(w, Lit(v))]
            except Exception:
                raise Unk("constant arithmetic")
        if isinstance(l, Len) or isinstance(r, Len):
            raise Unk("length arithmetic")
        a, b = self.val(w, l), self.val(w, r)
        arr_, mask, mixed = self.mm(a, b)
        if mixed:
            return [(w, V(self.other("mixed selections"), True, mask))]
        mk = lambda x: V(x, arr_, mask)
        if isinstance(op, ast.Add):
            return [(w, mk(a.a + b.a))]
        if isinstance(op, ast.Sub):
            return [(w, mk(a.a - b.a))]
        if isinstance(op, ast.Mult):
            if a.a.const():
                return [(w, mk(b.a.scale(a.a.k)))]
            if b.a.const():
                return [(w, mk(a.a.scale(b.a.k)))]
            u = self.unit_times(w, a.a, b.a)
            if u is not None:
                return [(w, mk(u))]
            raise Unk("product")
        if isinstance(op, ast.Div):
            if b.a.const() and b.a.k:
                return [(w, mk(a.a.scale(1 / b.a.k)))]
            raise Unk("quotient")
        if isinstance(op, ast.Mod):
            return self.mod(w, a.a, b.a, mk)
        raise Unk("operator")

    def unit_times(self, w, a, b):
        """u * r with 0 <= u <= 1 known: a fresh value between 0 and r"""
        for u, r in ((a, b), (b, a)):
            vs = list(u.c)
            if len(vs) == 1 and vs[0].startswith("unit") and u.c[vs[0]] == 1 and u.k == 0:
                cs = w.cs + self.masked
                if poly.entails(cs, le(num(0), r)):
                    n = var(self.fresh("prod"))
                    w.cs += [le(num(0), n), le(n, r)]
                    return n
        return None

    masked = []

    def mod(self, w, a, m, mk):
        out = []
        n = self.fresh("mod")
        for pos, cs in ((True, [lt(num(0), m)]), (False, [lt(m, num(0))])):
            z = w.copy()
            z.cs += cs
            if z.ok():
                r = var(n)
                z.cs += [le(num(0), r), lt(r, m)] if pos else [lt(m, r), le(r, num(0))]
                # within the first period the remainder is exact
                inner, rest = z.copy(), []
                if pos:
                    inner.cs += [le(num(0), a), lt(a, m), le(r, a), le(a, r)]
                    if inner.ok():
                        rest.append((inner, mk(r)))
                    for c in (lt(a, num(0)), le(m, a)):
                        q = z.copy()
                        q.cs.append(c)
                        if q.ok():
                            rest.append((q, mk(r)))
                    out += rest
                else:
                    out.append((z, mk(r)))
        return out

    def m_and(self, a, b):
        return Mask([x + y for x in a.dnf for y in b.dnf], a.ndnf + [x + y for x in a.dnf for y in b.ndnf])

    def m_or(self, a, b):
        n = self.m_and(Mask(a.ndnf, a.dnf), Mask(b.ndnf, b.dnf))
        return Mask(n.ndnf, n.dnf)

    def x_Compare(self, w, e):
        out = []
        for z, vs in self.many(w, [e.left] + e.comparators):
            m = None
            for op, l, r in zip(e.ops, vs, vs[1:]):
                c = self.compare(z, op, l, r)
                m = c if m is None else self.m_and(m, c)
            out.append((z, m))
        return out

    def compare(self, w, op, l, r):
        if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, Lit) and r.v is None:
            isnone = isinstance(l, Lit) and l.v is None
            t, f = [[]], []
            if isnone == isinstance(op, ast.Is):
                return Mask(t, f)
            return Mask(f, t)
        if isinstance(l, Len) or isinstance(r, Len):
            raise Unk("length test")
        a, b = self.val(w, l), self.val(w, r)
        if isinstance(op, ast.Lt):
            c = lt(a.a, b.a)
        elif isinstance(op, ast.LtE):
            c = le(a.a, b.a)
        elif isinstance(op, ast.Gt):
            c = lt(b.a, a.a)
        elif isinstance(op, ast.GtE):
            c = le(b.a, a.a)
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            p = [[le(a.a, b.a), le(b.a, a.a)]]
            n = [[lt(a.a, b.a)], [lt(b.a, a.a)]]
            return Mask(p, n) if isinstance(op, ast.Eq) else Mask(n, p)
        else:
            raise Unk("comparison")
        return Mask([[c]], [[neg(c)]])

    def x_BoolOp(self, w, e):
        outs = [(w, None)]
        for v in e.values:
            nxt = []
            for z, m in outs:
                for y, c in self.cond(z, v):
                    nxt.append((y, c if m is None else (self.m_and if isinstance(e.op, ast.And) else self.m_or)(m, c)))
            outs = nxt
        return outs

    def cond(self, w, e):
        out = []
        for z, v in self.expr(w, e):
            if isinstance(v, Mask):
                out.append((z, v))
            elif isinstance(v, Lit):
                out.append((z, Mask([[]], []) if v.v else Mask([], [[]])))
            elif isinstance(v, Rng):
                out.append((z, Mask([[]], [])))
            else:
                raise Unk("condition %s" % ast.unparse(e))
        return out

    def x_IfExp(self, w, e):
        out = []
        for z, m in self.cond(w, e.test):
            for pos, b in ((m.dnf, e.body), (m.ndnf, e.orelse)):
                for cs in pos:
                    q = z.copy()
                    q.cs += cs
                    if q.ok():
                        out += self.expr(q, b)
        return out

    def x_ListComp(self, w, e):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unk("comprehension")
        g = e.generators[0]
        out = []
        for z, it in self.expr(w, g.iter):
            el = self.element(z, it)
            if el is None or isinstance(el, (list, tuple)):
                raise Unk("comprehension source")
            saved = dict(z.env)
            for y in self.assign(z, g.target, el):
                for q, v in self.expr(y, e.elt):
                    v = self.val(q, v)
                    q.env = dict(saved)
                    out.append((q, V(v.a, True)))
        return out

    x_GeneratorExp = x_ListComp

    # ---- calls ------------------------------------------------------------------------------------------
    def x_Call(self, w, e):
        out = []
        for z, f in self.expr(w, e.func):
            if any(isinstance(a, ast.Starred) for a in e.args):
                raise Unk("starred call")
            for y, args in self.many(z, e.args):
                ks = [(y, {})]
                for k in e.keywords:
                    if k.arg is None:
                        ks = [(q, dict(d, **(v[1] if isinstance(v, tuple) and v[0] == "kwargs" else {}))) for p, d in ks for q, v in self.expr(p, k.value)]
                    else:
                        ks = [(q, dict(d, **{k.arg: v})) for p, d in ks for q, v in self.expr(p, k.value)]
                for q, kw in ks:
                    out += self.call(q, f, args, kw, e)
        return [(q, v) for q, v in out if q.ok()]

    def call(self, w, f, args, kw, e):
        if isinstance(f, tuple) and f[0] == "func":
            return self.call_function(f[1], args, kw, [w])
        if isinstance(f, tuple) and f[0] == "meth":
            return self.method(w, f[1], f[2], args, kw, e)
        if not isinstance(f, Fun):
            raise Unk("call %s" % ast.unparse(e.func))
        n = f.name.split(".")[-1]
        if n == "default_rng":
            return [(w, Rng())]
        if n == "len":
            return [(w, Len())]
        if n == "range":
            if len(args) == 1 and isinstance(args[0], Len):
                return [(w, ("range",))]
            raise Unk("range")
        if n == "arange" and len(args) == 1 and isinstance(args[0], Len):
            return [(w, ("range",))]
        if n == "enumerate":
            return [(w, ("enumerate", args[0]))]
        if n == "zip":
            return [(w, ("zip", args))]
        if n in ("asarray", "array", "atleast_1d", "asanyarray", "ascontiguousarray"):
            if isinstance(args[0], Tup):
                return [(w, args[0])]
            if n != "array" and isinstance(args[0], Obj):
                return [(w, args[0])]
            return [(w, self.val(w, args[0]))]
        if n in ("float", "list", "tuple") and len(args) == 1:
            return [(w, args[0])]
        if n in ("copy",):
            return [(w, self.val(w, args[0]))]
        if n in ("empty_like", "empty", "zeros_like", "zeros", "ones_like"):
            return [(w, V(num(0) if "zeros" in n else num(1) if "ones" in n else var(self.fresh("raw"))))]
        if n in ("full_like",):
            return [(w, V(self.val(w, args[1]).a))]
        if n in ("where", "nonzero", "flatnonzero", "argwhere"):
            if len(args) == 1 and isinstance(args[0], Mask):
                if n == "argwhere":
                    raise Unk("argwhere")
                return [(w, args[0])]
            if n == "where" and len(args) == 3 and isinstance(args[0], Mask):
                return self.select(w, args[0], args[1], args[2])
            raise Unk("where")
        if n in ("minimum", "fmin", "min") and len(args) == 2 or n in ("maximum", "fmax", "max") and len(args) == 2:
            return self.out(self.minmax(w, n in ("minimum", "fmin", "min"), args), kw)
        if n in ("amin", "min", "amax", "max"):
            if isinstance(args[0], Tup) and isinstance(kw.get("axis", args[1] if len(args) > 1 else None), Lit) and kw.get("axis", args[1] if len(args) > 1 else None).v == 0:
                return self.minmax(w, n in ("amin", "min"), args[0].items)
            if isinstance(args[0], (Obj, V)) or isinstance(args[0], Tup) and len(args) == 1 and not kw and any(isinstance(i, Obj) or isinstance(i, V) and i.arr for i in args[0].items):
                return [(w, V(self.other("%s over all coordinates" % n), False))]
            raise Unk("min/max")
        if n in ("sum", "mean", "median", "average", "prod"):
            return [(w, V(self.other("%s over all coordinates" % n), False))]
        if n == "clip":
            x, lo, up = args[0], kw.get("a_min", args[1] if len(args) > 1 else None), kw.get("a_max", args[2] if len(args) > 2 else None)
            return self.clip(w, x, lo, up, kw)
        if n in ("abs", "absolute", "fabs"):
            a = self.val(w, args[0])
            out = []
            for c, v in ((le(num(0), a.a), a.a), (lt(a.a, num(0)), a.a.scale(-1))):
                z = w.copy()
                z.cs.append(c)
                if z.ok():
                    out.append((z, V(v, a.arr, a.mask)))
            return out
        if n in ("mod", "remainder"):
            return self.binop(w, ast.Mod(), args[0], args[1])
        if n in ("add", "subtract", "multiply", "divide", "true_divide"):
            op = {"add": ast.Add(), "subtract": ast.Sub(), "multiply": ast.Mult()}.get(n, ast.Div())
            return self.out(self.binop(w, op, args[0], args[1]), kw)
        if n in ("less", "less_equal", "greater", "greater_equal"):
            op = {"less": ast.Lt(), "less_equal": ast.LtE(), "greater": ast.Gt(), "greater_equal": ast.GtE()}[n]
            return [(w, self.compare(w, op, args[0], args[1]))]
        if n in ("logical_and", "logical_or", "bitwise_and", "bitwise_or"):
            return [(w, (self.m_and if n.endswith("and") else self.m_or)(args[0], args[1]))]
        if n in ("logical_not", "invert"):
            return [(w, Mask(args[0].ndnf, args[0].dnf))]
        if n in ("any", "all") and isinstance(args[0], Mask):
            m = args[0]
            # some other coordinate may make any() true; none may make all() true for sure
            if n == "any":
                return [(w, Mask(m.dnf + [list(c) for c in m.ndnf], m.ndnf))]
            return [(w, Mask(m.dnf, m.ndnf + [list(c) for c in m.dnf]))]
        if n in ("putmask", "place") and isinstance(args[1], Mask):
            return [(z, Lit(None)) for z, v in self.select(w, args[1], args[2], args[0]) for z in [self.setobj(z, args[0], v)]]
        if n == "copyto":
            if "where" in kw:
                return [(self.setobj(z, args[0], v), Lit(None)) for z, v in self.select(w, kw["where"], args[1], args[0])]
            return [(self.setobj(w, args[0], self.val(w, args[1])), Lit(None))]
        if f.name.startswith(("logging", "warnings")) or n in ("print",):
            return [(w, Lit(None))]
        raise Unk("call of %s" % f.name)

    def setobj(self, w, o, v):
        if not isinstance(o, Obj):
            raise Unk("out")
        w.heap[o.oid] = V(self.val(w, v).a)
        return w

    def out(self, rs, kw):
        if "out" in kw and isinstance(kw["out"], Obj):
            return [(self.setobj(z, kw["out"], v), kw["out"]) for z, v in rs]
        return rs

    def select(self, w, m, a, b):
        res = []
        for pos, v in ((m.dnf, a), (m.ndnf, b)):
            for cs in pos:
                z = w.copy()
                z.cs += cs
                if z.ok():
                    y = self.val(z, v)
                    res.append((z, V(y.a, True, None)))
        return res

    def minmax(self, w, mn, args):
        outs = [(w, self.val(w, args[0]))]
        for b in args[1:]:
            nxt = []
            for z, a in outs:
                c = self.val(z, b)
                arr_, mask, mixed = self.mm(a, c)
                for t, v in ((le(a.a, c.a), a if mn else c), (lt(c.a, a.a), c if mn else a)):
                    y = z.copy()
                    y.cs.append(t)
                    if y.ok():
                        nxt.append((y, V(v.a if not mixed else self.other("mixed selections"), arr_, mask)))
            outs = nxt
        return outs

    def clip(self, w, x, lo, up, kw):
        rs = [(w, self.val(w, x))]
        none = lambda v: v is None or isinstance(v, Lit) and v.v is None
        if not none(lo):
            rs = [p for z, v in rs for p in self.minmax(z, False, [v, lo])]
        if not none(up):
            rs = [p for z, v in rs for p in self.minmax(z, True, [v, up])]
        return self.out(rs, kw)

    def method(self, w, o, name, args, kw, e):
        if isinstance(o, tuple) and o[0] == "kwargs":
            if name in ("get", "pop"):
                k = args[0].v
                return [(w, o[1].get(k, args[1] if len(args) > 1 else Lit(None)))]
            raise Unk("kwargs method")
        if isinstance(o, Rng):
            return self.rng(w, name, args, kw)
        if isinstance(o, Mask):
            if name in ("any", "all"):
                return self.call(w, Fun("numpy." + name), [o], kw, e)
            if name in ("nonzero", "copy"):
                return [(w, o)]
            raise Unk("mask method")
        if name == "copy" or name == "astype":
            return [(w, self.val(w, o))]
        if name == "clip":
            return self.clip(w, o, args[0] if args else kw.get("min"), args[1] if len(args) > 1 else kw.get("max"), kw)
        if name in ("min", "max", "sum", "mean"):
            return [(w, V(self.other("%s over all coordinates" % name), False))]
        if name in ("flatten", "ravel", "reshape", "squeeze"):
            return [(w, self.val(w, o))]
        raise Unk("method %s" % name)

    def rng(self, w, name, args, kw):
        if name == "uniform":
            lo = args[0] if args else kw.get("low", Lit(0.0))
            up = args[1] if len(args) > 1 else kw.get("high", Lit(1.0))
            a, b = self.val(w, lo), self.val(w, up)
            arr_, mask, mixed = self.mm(a, b)
            r = var(self.fresh("draw"))
            # numpy returns low + (high - low) * u for either order of its arguments
            out = []
            for c, cs in ((le(a.a, b.a), [le(a.a, r), le(r, b.a)]), (lt(b.a, a.a), [le(b.a, r), le(r, a.a)])):
                z = w.copy()
                z.cs.append(c)
                if z.ok():
                    z.cs += cs
                    out.append((z, V(r if not mixed else self.other("mixed selections"), arr_ or "size" in kw or len(args) > 2, mask)))
            return out
        if name == "random":
            n = "unit%s" % self.fresh("")
            w.cs += [le(num(0), var(n)), le(var(n), num(1))]
            return [(w, V(var(n), False))]
        raise Unk("random draw %s" % name)


def analyse(prog, fi, kw):
    """-> list of (world, result affine or None, reason), or Unk"""
    cw = CW(prog, fi)
    out = []
    for w, r in cw.run(kw):
        try:
            v = cw.val(w, r) if r is not None else None
        except Unk:
            v = None
        out.append((w, v))
    return cw, out
