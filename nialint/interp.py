"""Abstract interpreter for the niapy sources over value-number terms (see DESIGN.md)."""
import ast
from collections import namedtuple

from . import terms as t
from .loader import FuncInfo, ClassInfo, AnalysisBroken

# ---- values ------------------------------------------------------------------------------------
S = namedtuple("S", "t")                    # scalar / temporary array / opaque, by term
Ref = namedtuple("Ref", "oid")              # heap object
View = namedtuple("View", "oid idx")        # view into a heap array/list: tuple of index terms
Fn = namedtuple("Fn", "fi fid")             # function (+ captured frame id)
BM = namedtuple("BM", "obj fi")             # bound method
Cls = namedtuple("Cls", "ci")
Ext = namedtuple("Ext", "name")             # external / builtin by dotted name
BExt = namedtuple("BExt", "obj name")       # builtin method bound to a value
ModV = namedtuple("ModV", "name")
SuperV = namedtuple("SuperV", "ci obj")
PhiV = namedtuple("PhiV", "c a b")
Tup = namedtuple("Tup", "items")
RngV = namedtuple("RngV", "tag site")       # tag: seeded | param | unseeded | fixed | unknown
Part = namedtuple("Part", "f args kw")      # functools.partial / np.vectorize
Bot = namedtuple("Bot", "x")
BOT = Bot(0)

# ---- heap records ------------------------------------------------------------------------------
Arr = namedtuple("Arr", "term ek ocls esc alias")           # ek 'num' | 'obj'
Lst = namedtuple("Lst", "items term ek ocls elem esc")      # items: tuple of Val | None
Dct = namedtuple("Dct", "entries maybe open")               # entries: tuple of (key, Val)
Obj = namedtuple("Obj", "ci attrs src esc")                 # attrs: dict (never mutated in place)


def arr(term, ek="num", ocls=None, esc=(), alias=()):
    return Arr(term, ek, ocls, esc, alias)


class State:
    __slots__ = ("frames", "heap", "pc", "dead", "gh", "at")

    def __init__(self):
        self.frames, self.heap, self.pc, self.dead = {}, {}, (), False
        self.gh = frozenset()        # typestates of the tracked protocol
        self.at = None               # number of events before the return that ends this state

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc, s.dead, s.gh, s.at = self.pc, self.dead, self.gh, self.at
        return s

    def become(self, o):
        self.frames, self.heap, self.pc, self.dead, self.gh = o.frames, o.heap, o.pc, o.dead, o.gh


class Frame:
    """static activation info (not part of the abstract state)"""
    __slots__ = ("fi", "fid", "returns", "loops", "parent_fid", "self_cls")

    def __init__(self, fi, fid, parent_fid=None):
        self.fi, self.fid, self.returns, self.loops, self.parent_fid = fi, fid, [], [], parent_fid


class Event:
    __slots__ = ("kind", "node", "fi", "data", "stack", "at")

    def __init__(self, kind, node, fi, stack, data):
        self.kind, self.node, self.fi, self.stack, self.data = kind, node, fi, stack, data

    def where(self):
        return "%s:%d in %s" % (self.fi.path if self.fi else "?", getattr(self.node, "lineno", 0), self.fi.qual if self.fi else "?")

    def construct(self):
        """position-free identity of the construct"""
        return "%s::%s::%s" % (self.fi.path if self.fi else "?", self.fi.qual if self.fi else "?",
                               ast.unparse(self.node)[:120] if self.node is not None else "")


def joinv(c, a, b):
    if a == b:
        return a
    if isinstance(a, Bot):
        return b
    if isinstance(b, Bot):
        return a
    if isinstance(a, S) and isinstance(b, S):
        return S(t.phi(c, a.t, b.t))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup(tuple(joinv(c, x, y) for x, y in zip(a.items, b.items)))
    if c.op == "not":
        return joinv(c.args[0], b, a)
    a2, b2 = underv(a, c, True), underv(b, c, False)
    if a2 != a or b2 != b:
        return joinv(c, a2, b2)
    if isinstance(a, RngV) and isinstance(b, RngV):
        order = ["seeded", "fixed", "param", "unknown", "unseeded"]
        return a if order.index(a.tag) >= order.index(b.tag) else b
    return PhiV(c, a, b)


def underv(v, c, val):
    if isinstance(v, PhiV):
        if v.c is c:
            return underv(v.a if val else v.b, c, val)
        if v.c.op == "not" and v.c.args[0] is c:
            return underv(v.b if val else v.a, c, val)
    return v


def gated(v, g=None):
    """[(gate condition, leaf)] : the leaf is the value iff the gate holds"""
    g = t.TRUE if g is None else g
    if isinstance(v, PhiV):
        return gated(v.a, t.and_(g, v.c)) + gated(v.b, t.and_(g, t.not_(v.c)))
    return [(g, v)]


def gphi(g, a, b):
    """phi under a conjunction of gates, nested so that inner gates simplify"""
    if g.op == "and":
        return gphi(g.args[0], gphi(g.args[1], a, b), b)
    return t.phi(g, a, b)


def gjoin(g, a, b):
    if g.op == "and":
        return gjoin(g.args[0], gjoin(g.args[1], a, b), b)
    return joinv(g, a, b)


def prune_none(v):
    """v without the alternatives that are None"""
    if not isinstance(v, PhiV):
        return v
    a, b = prune_none(v.a), prune_none(v.b)
    if a == S(t.NONE):
        return b
    if b == S(t.NONE):
        return a
    return joinv(v.c, a, b)


def vleaves(v):
    if isinstance(v, PhiV):
        return vleaves(v.a) + vleaves(v.b)
    return [v]


class Interp:
    MAXDEPTH = 40

    def __init__(self, prog):
        self.trylogs, self.trycatch = [], []
        self.prog = prog
        self.testpos = prog.__dict__.setdefault("testpos", {})
        self.events = []
        self.stack = []           # list of (FuncInfo, call node)
        self.ctx = ()
        self.ctxids = {}
        self.notes = {}           # unmodelled constructs -> count
        self.modcache = {}
        self.steps = 0
        self.nfn = set()
        self.cut = 0
        self.excs = {}
        from . import models
        self.models = models.TABLE
        self.methmodels = models.METHODS

    # ---- bookkeeping ----------------------------------------------------------------------------
    def ev(self, kind, node, **data):
        fi = self.stack[-1][0] if self.stack else None
        self.events.append(Event(kind, node, fi, tuple((f.qual, getattr(n, "lineno", 0)) for f, n in self.stack), data))

    def note(self, what, node=None):
        fi = self.stack[-1][0] if self.stack else None
        k = "%s @ %s:%s" % (what, fi.qual if fi else "?", getattr(node, "lineno", 0))
        self.notes[k] = self.notes.get(k, 0) + 1

    def ctxid(self):
        i = self.ctxids.get(self.ctx)
        if i is None:
            i = self.ctxids[self.ctx] = len(self.ctxids)
        return i

    def key(self, node, extra=""):
        return (self.ctxid(), getattr(node, "lineno", 0), getattr(node, "col_offset", 0), extra)

    def topv(self, reason, node=None):
        self.note("unmodelled: " + reason, node)
        return S(t.top(reason))

    # ---- heap -----------------------------------------------------------------------------------
    def alloc(self, st, rec, key):
        oid = ("o",) + key
        old = st.heap.get(oid)
        st.heap[oid] = rec
        return Ref(oid)

    def content(self, st, v):
        if isinstance(v, S):
            return v.t
        if isinstance(v, Ref):
            r = st.heap.get(v.oid)
            if isinstance(r, Arr):
                return r.term
            if isinstance(r, Lst):
                if r.items is not None:
                    return t.listc(*[self.content(st, x) for x in r.items])
                return r.term
            if isinstance(r, Obj):
                return self.obj_term(st, r, v.oid)
            if isinstance(r, Dct):
                return t.sym("dict:%s" % (v.oid,), nd=None)
            return t.top("dangling ref")
        if isinstance(v, View):
            r = st.heap.get(v.oid)
            if r is None:
                return t.top("dangling view")
            c = self.content(st, Ref(v.oid))
            for i in v.idx:
                c = t.row(c, i)
            return c
        if isinstance(v, PhiV):
            return t.phi(v.c, self.content(st, v.a), self.content(st, v.b))
        if isinstance(v, Tup):
            return t.tuplec(*[self.content(st, x) for x in v.items])
        if isinstance(v, (Fn, BM, Cls, Ext, ModV, RngV, Part, BExt)):
            return t.sym("val:%s" % (vname(v),), nd=None)
        return t.top("content of %s" % type(v).__name__)

    def obj_term(self, st, r, oid):
        if r.src is not None:
            return r.src
        attrs = []
        for n in sorted(r.attrs):
            v = r.attrs[n]
            if isinstance(v, (S, Ref, View, PhiV, Tup)):
                if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), (Obj, Dct)):
                    continue
                attrs.append((n, self.content(st, v)))
        return t.ind(r.ci.name if isinstance(r.ci, ClassInfo) else str(r.ci), tuple(attrs), "")

    def mat(self, st, v, key):
        """give a temporary array an identity"""
        if isinstance(v, S) and v.t.nd in (1, 2) and v.t.op not in ("slice",):
            return self.alloc(st, arr(v.t), key)
        return v

    def set_term(self, st, oid, term, node, how="write"):
        """in-place change of the content of an array / list"""
        r = st.heap[oid]
        old = self.content(st, Ref(oid))
        self.ev("mutate", node, oid=oid, how=how)
        if isinstance(r, Arr):
            st.heap[oid] = r._replace(term=term)
        elif isinstance(r, Lst):
            st.heap[oid] = r._replace(term=term, items=None)
        self.propagate(st, oid, old, node)
        # may-alias links
        for o2, r2 in list(st.heap.items()):
            if isinstance(r2, Arr) and r2.alias:
                for (base, idx, org) in r2.alias:
                    if base == oid and o2 != oid:
                        c = self.content(st, Ref(oid))
                        for i in idx:
                            c = t.row(c, i)
                        q = t.sym("alias?%s" % (org,), nd=0)
                        t.ALIASOF[q] = org
                        st.heap[o2] = st.heap[o2]._replace(term=t.phi(q, c, st.heap[o2].term))
        if isinstance(r, Arr) and r.alias:
            for (base, idx, org) in r.alias:
                rb = st.heap.get(base)
                if rb is None or base == oid:
                    continue
                q = t.sym("alias?%s" % (org,), nd=0)
                t.ALIASOF[q] = org
                c = self.content(st, Ref(base))
                n = self._upd_path(c, idx, t.phi(q, term, self._row_path(c, idx)))
                self.ev("mutate", node, oid=base, how="alias")
                if isinstance(rb, Arr):
                    st.heap[base] = rb._replace(term=n)
                elif isinstance(rb, Lst):
                    st.heap[base] = rb._replace(term=n, items=None)

    @staticmethod
    def _row_path(c, idx):
        for i in idx:
            c = t.row(c, i)
        return c

    def _upd_path(self, c, idx, v):
        if not idx:
            return v
        return t.upd(c, idx[0], self._upd_path(t.row(c, idx[0]), idx[1:], v))

    def propagate(self, st, oid, old, node):
        """object/array `oid` changed: update owners and containers it was stored into"""
        r = st.heap[oid]
        new = self.content(st, Ref(oid))
        if new is old:
            return
        for (c, i) in r.esc if not isinstance(r, Dct) else ():
            cr = st.heap.get(c)
            if cr is None or c == oid:
                continue
            if isinstance(cr, Lst) and cr.items is not None:
                continue
            ct = self.content(st, Ref(c))
            cur = t.row(ct, i)
            if cur is old or cur.op == "row" or i.op == "sym":
                self.set_term(st, c, t.upd(ct, i, new), node, "element")
        # owners: individuals one of whose attributes is this array
        for o2, r2 in list(st.heap.items()):
            if isinstance(r2, Obj) and o2 != oid:
                for n, v in r2.attrs.items():
                    if isinstance(v, (Ref, View)) and v.oid == oid:
                        self.obj_changed(st, o2, node)
                        break

    def obj_changed(self, st, oid, node, oldterm=None):
        r = st.heap[oid]
        old = oldterm if oldterm is not None else r.src
        st.heap[oid] = r._replace(src=None)
        self._fill_focus(st, oid, r.src)
        new = self.content(st, Ref(oid))
        for (c, i) in r.esc:
            cr = st.heap.get(c)
            if cr is None or (isinstance(cr, Lst) and cr.items is not None):
                continue
            ct = self.content(st, Ref(c))
            self.set_term(st, c, t.upd(ct, i, new), node, "element")

    def _fill_focus(self, st, oid, src):
        """a focused element is about to diverge from its source term: mint its basic attributes"""
        if src is None:
            return
        for n in ("x", "f"):
            r = st.heap[oid]
            if n not in r.attrs:
                self._mint_attr(st, oid, src, n)
        if src.op == "ind":
            for k in range(2, len(src.args), 2):
                if src.args[k] not in st.heap[oid].attrs:
                    self._mint_attr(st, oid, src, src.args[k])

    def _mint_attr(self, st, oid, src, n):
        f = t.fld(src, n)
        r = st.heap[oid]
        if f.nd in (1, 2):
            a = ("a", oid, n)
            st.heap[a] = arr(f)
            v = Ref(a)
        else:
            v = S(f)
        at = dict(r.attrs)
        at[n] = v
        st.heap[oid] = r._replace(attrs=at)
        return v

    def is_indiv(self, ci):
        return isinstance(ci, ClassInfo) and any(c.name == "Individual" for c in ci.mro())

    # ---- assumption / joins -----------------------------------------------------------------------
    def assume(self, st, c, val):
        if c is (t.FALSE if val else t.TRUE):
            st.dead = True
            return
        if t.is_const(c):
            return
        for (k, b) in st.pc:
            if k is c and b != val:
                st.dead = True
                return
        if c.op == "not":
            return self.assume(st, c.args[0], not val)
        st.pc = st.pc + ((c, val),)
        if self.proto is not None:
            self.proto.assumed(self, st, c, val)
        if val:
            self._refine_feas(st, c)

    proto = None

    def step(self, st, what, node, **data):
        """protocol event"""
        if self.proto is not None:
            st.gh = self.proto.step(self, st, what, node, data)
            for l in self.trylogs:
                l |= st.gh

    def _refine_feas(self, st, c):
        """a successful (x >= lower) & (x <= upper) test makes x feasible"""
        lo, up = set(), set()

        def conj(k):
            if k.op == "and":
                conj(k.args[0])
                conj(k.args[1])
            elif k.op == "bin" and k.args[0] == "&":
                conj(k.args[1])
                conj(k.args[2])
            elif k.op == "call" and k.args[0] == "all":
                conj(k.args[1])
            elif k.op == "cmp" and k.args[0] in ("<=", "<"):
                a, b = k.args[1], k.args[2]
                if a is t.LOWER:
                    lo.add(b)
                elif b is t.UPPER:
                    up.add(a)
        conj(c)
        for x in lo & up:
            nx = t.chk(x)
            if nx is x:
                continue
            for oid, r in list(st.heap.items()):
                if isinstance(r, Arr):
                    if r.term is x:
                        st.heap[oid] = r._replace(term=nx)
                    elif t.contains(r.term, x) and r.term.op in ("upd",):
                        st.heap[oid] = r._replace(term=t.subst(r.term, x, nx))
                    elif x.op == "row" and r.term is x.args[0]:
                        st.heap[oid] = r._replace(term=t.upd(r.term, x.args[1], nx))
            for fr in st.frames.values():
                for n, v in fr.items():
                    if isinstance(v, S) and v.t is x:
                        fr[n] = S(nx)

    def join(self, states, site=None):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            d = State()
            d.dead = True
            return d
        acc = states[-1]
        for s in reversed(states[:-1]):
            acc = self.join2(s, acc, site)
        return acc

    def join2(self, a, b, site=None):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] == b.pc[n]:
            n += 1
        if n < len(a.pc) and n < len(b.pc) and a.pc[n][0] is b.pc[n][0]:
            c = a.pc[n][0] if a.pc[n][1] else t.not_(a.pc[n][0])
        elif n < len(a.pc) and n == len(b.pc):
            c = t.sym("join%s" % (site,), nd=0) if len(a.pc) != n + 1 else (a.pc[n][0] if a.pc[n][1] else t.not_(a.pc[n][0]))
        else:
            c = t.sym("join:%s" % (site or (a.pc[n:n + 1], b.pc[n:n + 1])).__repr__(), nd=0)
        out = State()
        out.gh = a.gh | b.gh
        out.pc = a.pc[:n]
        for f in a.frames.keys() | b.frames.keys():
            fa, fb = a.frames.get(f), b.frames.get(f)
            if fa is None or fb is None:
                out.frames[f] = dict(fa if fb is None else fb)
                continue
            fo = {}
            for k in fa.keys() | fb.keys():
                if k in fa and k in fb:
                    x, y = fa[k], fb[k]
                    fo[k] = x if x == y else joinv(c, x, y)
                else:
                    fo[k] = fa[k] if k in fa else fb[k]
            out.frames[f] = fo
        ha, hb = a.heap, b.heap
        ho = dict(hb)
        for o, ra in ha.items():
            rb = hb.get(o)
            if rb is None or ra is rb or ra == rb:
                ho[o] = ra
            else:
                ho[o] = self.join_rec(c, ra, rb, a, b)
        out.heap = ho
        return out

    def join_rec(self, c, ra, rb, a, b):
        if type(ra) is not type(rb):
            return ra
        if isinstance(ra, Arr):
            return Arr(t.phi(c, ra.term, rb.term), ra.ek if ra.ek == rb.ek else ("obj" if "obj" in (ra.ek, rb.ek) else "num"),
                       ra.ocls or rb.ocls, tuple(dict.fromkeys(ra.esc + rb.esc)), tuple(dict.fromkeys(ra.alias + rb.alias)))
        if isinstance(ra, Lst):
            if ra.items is not None and rb.items is not None and len(ra.items) == len(rb.items):
                return ra._replace(items=tuple(joinv(c, x, y) for x, y in zip(ra.items, rb.items)), esc=tuple(dict.fromkeys(ra.esc + rb.esc)))
            sa, sb = self.summ(a, ra), self.summ(b, rb)
            return self.join_lst(c, sa, sb)
        if isinstance(ra, Dct):
            da, db = dict(ra.entries), dict(rb.entries)
            e, mb = [], set(ra.maybe) | set(rb.maybe)
            for k in list(da) + [k for k in db if k not in da]:
                if k in da and k in db:
                    e.append((k, joinv(c, da[k], db[k])))
                else:
                    e.append((k, da.get(k, db.get(k))))
                    mb.add(k)
            return Dct(tuple(e), frozenset(mb), ra.open or rb.open)
        if isinstance(ra, Obj):
            at = {}
            for k in list(ra.attrs) + [k for k in rb.attrs if k not in ra.attrs]:
                if k in ra.attrs and k in rb.attrs:
                    at[k] = joinv(c, ra.attrs[k], rb.attrs[k])
                else:
                    at[k] = ra.attrs.get(k, rb.attrs.get(k))
            src = None
            if ra.src is not None and rb.src is not None:
                src = t.phi(c, ra.src, rb.src)
                if ra.src is not rb.src:
                    at = {}
            return Obj(ra.ci, at, src, tuple(dict.fromkeys(ra.esc + rb.esc)))
        return ra

    def summ(self, st, r):
        """summarise an exact list"""
        if r.items is None:
            return r
        term = t.listc(*[self.content(st, x) for x in r.items])
        ek, ocls, elem = None, None, None
        for x in r.items:
            k, oc = self.elkind(st, x)
            ek = k if ek in (None, k) else "val"
            ocls = ocls or oc
            elem = x if elem is None else (elem if elem == x else joinv(t.sym("elem?", nd=0), elem, x))
        return Lst(None, term, ek, ocls, elem if ek == "val" else None, r.esc)

    def elkind(self, st, v):
        if isinstance(v, S):
            return ("scalar" if v.t.nd in (0, None) else "o0" and ("arr" if v.t.nd in (1, 2) else "obj"), None)
        if isinstance(v, Ref):
            r = st.heap.get(v.oid)
            if isinstance(r, Arr):
                return "arr", None
            if isinstance(r, Obj) and (self.is_indiv(r.ci)):
                return "obj", r.ci
            return "val", None
        if isinstance(v, View):
            c = self.content(st, v)
            return ("arr" if c.nd != 0 else "scalar"), None
        if isinstance(v, PhiV):
            ks = [self.elkind(st, x) for x in vleaves(v) if x != S(t.NONE)]
            if ks and all(k[0] == ks[0][0] for k in ks):
                return ks[0]
        return "val", None

    def join_lst(self, c, a, b):
        ek = a.ek if b.ek is None else b.ek if a.ek is None else (a.ek if a.ek == b.ek else "val")
        elem = a.elem if b.elem is None else b.elem if a.elem is None else joinv(c, a.elem, b.elem)
        return Lst(None, t.phi(c, a.term, b.term), ek, a.ocls or b.ocls, elem, tuple(dict.fromkeys(a.esc + b.esc)))

    # ---- name lookup ------------------------------------------------------------------------------
    def global_name(self, m, name, node):
        k = (m.name, name)
        if k in self.modcache:
            return self.modcache[k]
        r = self.prog.lookup(m, name)
        v = self.from_lookup(r, name, node)
        if r is None:
            if name in BUILTINS:
                v = Ext(name)
            else:
                self.ev("undefined_name", node, name=name)
                v = S(t.top("undefined " + name))
        self.modcache[k] = v
        return v

    def from_lookup(self, r, name, node):
        if r is None:
            return None
        k = r[0]
        if k == "func":
            return Fn(r[1], None)
        if k == "class":
            return Cls(r[1])
        if k == "mod":
            return ModV(r[1]) if r[1].split(".")[0] == "niapy" else Ext(r[1])
        if k == "ext":
            from . import models
            if r[1] in models.CONSTS:
                return S(t.const(models.CONSTS[r[1]]))
            return Ext(r[1])
        if k == "expr":
            return self.global_expr(r[1], r[2], name)
        return S(t.top("missing name " + name))

    # objects created once per process (module / class level, default arguments)
    def shared_scan(self, st):
        """allocate every process-wide mutable object of the program"""
        self.shared = {}
        for m in self.prog.modules.values():
            for k, v in m.names.items():
                if v[0] == "expr" and isinstance(v[1], ast.AST):
                    self.share(st, m, v[1], "%s" % k)
                elif v[0] == "class":
                    for n, e in v[1].attrs.items():
                        self.share(st, m, e, "%s.%s" % (v[1].name, n))
                    for fi in v[1].methods.values():
                        self.share_defaults(st, fi)
                elif v[0] == "func":
                    self.share_defaults(st, v[1])

    def share_defaults(self, st, fi):
        a = fi.node.args
        for d in list(a.defaults) + [d for d in a.kw_defaults if d is not None]:
            self.share(st, fi.module, d, "default of " + fi.qual)

    def share(self, st, m, node, name):
        if id(node) in self.shared:
            return
        oid = ("G", m.name, name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        if isinstance(node, ast.List):
            st.heap[oid] = Lst(tuple(self.global_expr(m, e, name) for e in node.elts), None, None, None, None, ())
        elif isinstance(node, ast.Dict) and all(isinstance(k, ast.Constant) for k in node.keys):
            st.heap[oid] = Dct(tuple((k.value, self.global_expr(m, e, name)) for k, e in zip(node.keys, node.values)), frozenset(), False)
        elif isinstance(node, ast.Call):
            r = self.prog.resolve_expr(m, node.func)
            f = r[1] if r and r[0] == "ext" else (node.func.id if isinstance(node.func, ast.Name) else "")
            f = f.split(".")[-1]
            if f in ("dict", "defaultdict", "OrderedDict", "Counter", "WeakKeyDictionary"):
                st.heap[oid] = Dct((), frozenset(), True)
            elif f in ("list", "deque"):
                st.heap[oid] = Lst((), None, None, None, None, ())
            elif f in ("zeros", "ones", "array", "asarray", "empty", "arange", "full"):
                st.heap[oid] = arr(t._new("sym", ("shared:%s.%s" % (m.name, name),), nd=1))
            elif f == "default_rng":
                if not node.args and not node.keywords:
                    self.shared[id(node)] = RngV("unseeded", name)
                else:
                    self.shared[id(node)] = RngV("fixed", name)
                return
            else:
                return
        elif isinstance(node, (ast.ListComp, ast.DictComp)):
            st.heap[oid] = Dct((), frozenset(), True) if isinstance(node, ast.DictComp) else Lst(None, t.sym("shared:%s.%s" % (m.name, name), nd=None), None, None, None, ())
        else:
            return
        self.shared[id(node)] = Ref(oid)

    shared = {}

    def global_expr(self, m, node, name):
        if id(node) in self.shared:
            return self.shared[id(node)]
        if isinstance(node, ast.List):
            return Tup(tuple(self.global_expr(m, e, name) for e in node.elts))
        try:
            c = ast.literal_eval(node)
            if isinstance(c, (int, float, str, bool, type(None))):
                return S(t.const(c))
            if isinstance(c, (list, tuple)):
                return Tup(tuple(S(t.const(x)) if isinstance(x, (int, float, str, bool, type(None))) else S(t.top("glob")) for x in c))
        except Exception:
            pass
        if isinstance(node, ast.Tuple):
            return Tup(tuple(self.global_expr(m, e, name) for e in node.elts))
        r = self.prog.resolve_expr(m, node)
        if r:
            return self.from_lookup(r, name, node)
        return S(t.sym("global:%s.%s" % (m.name, name), nd=None))

    def lookup(self, st, fr, name, node):
        fid = fr.fid
        seen = 0
        while fid is not None and seen < 10:
            d = st.frames.get(fid)
            if d is not None and name in d:
                return self.prune(st, d[name])
            fid = self.parents.get(fid)
            seen += 1
        return self.global_name(fr.fi.module, name, node)

    parents = {}

    def prune(self, st, v):
        if isinstance(v, PhiV) and st.pc:
            for (c, b) in st.pc:
                if v.c is c:
                    return self.prune(st, v.a if b else v.b)
        if isinstance(v, S) and v.t.op == "phi" and st.pc:
            for (c, b) in st.pc:
                if v.t.op == "phi" and v.t.args[0] is c:
                    v = S(v.t.args[1] if b else v.t.args[2])
        return v

    # ---- statements -------------------------------------------------------------------------------
    def block(self, st, fr, stmts):
        for s in stmts:
            if st.dead:
                return
            self.stmt(st, fr, s)

    def stmt(self, st, fr, s):
        self.steps += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("statement " + type(s).__name__, s)
            return
        m(st, fr, s)

    def s_Pass(self, st, fr, s):
        pass

    def s_Import(self, st, fr, s):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            dn = a.name if a.asname else a.name.split(".")[0]
            st.frames[fr.fid][n] = ModV(dn) if dn.split(".")[0] == "niapy" else Ext(dn)

    def s_ImportFrom(self, st, fr, s):
        for a in s.names:
            r = self.prog.lookup_from(s.module or "", a.name)
            st.frames[fr.fid][a.asname or a.name] = self.from_lookup(r, a.name, s) or S(t.top("import"))

    def s_Global(self, st, fr, s):
        self.ev("global_stmt", s, names=s.names)

    def s_Nonlocal(self, st, fr, s):
        self.note("nonlocal", s)

    def s_Expr(self, st, fr, s):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(st, fr, s.value)

    def s_Assert(self, st, fr, s):
        c = self.truth(st, self.expr(st, fr, s.test), s)
        self.assume(st, c, True)

    def s_Delete(self, st, fr, s):
        for x in s.targets:
            if isinstance(x, ast.Name):
                st.frames[fr.fid].pop(x.id, None)
            elif isinstance(x, ast.Subscript):
                b = self.expr(st, fr, x.value)
                i = self.index(st, fr, x.slice)
                for l in vleaves(b):
                    if isinstance(l, Ref) and isinstance(st.heap.get(l.oid), Lst):
                        c = self.content(st, l)
                        r = self.summ(st, st.heap[l.oid])
                        st.heap[l.oid] = r
                        self.set_term(st, l.oid, t.row(c, t.call("compl", i, nd=1)), s, "del")
                    elif isinstance(l, Ref) and isinstance(st.heap.get(l.oid), Dct):
                        self.dict_pop(st, l, i, None, s)

    def s_Raise(self, st, fr, s):
        v = self.expr(st, fr, s.exc) if isinstance(s.exc, ast.Name) else None
        self.ev("raise", s, pc=st.pc, val=v, bare=s.exc is None, caught=self.caught[-1] if self.caught else None)
        st.dead = True

    def s_Return(self, st, fr, s):
        tail, self.tail = self.tail, None
        if self.ret_hook is not None and isinstance(s.value, ast.Call):
            self.tail = (s.value, self.ctx, [])
        mine = self.tail
        v = self.expr(st, fr, s.value) if s.value is not None else S(t.NONE)
        self.tail = tail
        if mine is not None and mine[2]:
            fr.returns += mine[2]
            st.dead = True
            return
        if st.dead:
            return
        fr.returns.append((st.copy(), v))
        fr.returns[-1][0].at = len(self.events)
        st.dead = True

    tail = None

    def s_Break(self, st, fr, s):
        fr.loops[-1][0].append(st.copy())
        st.dead = True

    def s_Continue(self, st, fr, s):
        fr.loops[-1][1].append(st.copy())
        st.dead = True

    def s_FunctionDef(self, st, fr, s):
        fi = FuncInfo(s.name, s, fr.fi.module, None, "function", fr.fi.qual + "." + s.name)
        st.frames[fr.fid][s.name] = Fn(fi, fr.fid)

    def s_With(self, st, fr, s):
        for i in s.items:
            v = self.expr(st, fr, i.context_expr)
            if i.optional_vars is not None:
                self.assign(st, fr, i.optional_vars, v, s)
        self.block(st, fr, s.body)

    guards = 0
    caught = []

    def s_Try(self, st, fr, s):
        pre = st.copy() if s.handlers else None
        log = set(st.gh)
        names = []
        for h in s.handlers:
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            names += ["BaseException" if x is None else ast.unparse(x).split(".")[-1] for x in ts]
        # run()'s own handler reports the failure, it does not prevent it
        guard = bool(set(names) & {"KeyError", "LookupError", "TypeError", "AttributeError"}) or (
            bool(s.handlers) and self.stack[-1][0].name != "run" and bool(set(names) & {"Exception", "BaseException"}))
        self.guards += guard
        self.trycatch.append(names)
        self.trylogs.append(log)
        self.block(st, fr, s.body)
        self.trylogs.pop()
        self.trycatch.pop()
        self.guards -= guard
        if s.handlers:
            exc = t.sym("exc:%s" % (self.key(s),), nd=0)
            outs = []
            for h in s.handlers:
                b = pre.copy()
                b.gh = self.proto.handler(log) if self.proto is not None else frozenset(log)
                self.assume(b, exc, True)
                for nm in {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
                    b.frames[fr.fid][nm] = S(t.top("try-assigned " + nm))
                self.caught.append(t.sym("exception:%s" % (self.key(h),), nd=None))
                if h.name:
                    b.frames[fr.fid][h.name] = S(self.caught[-1])
                self.block(b, fr, h.body)
                self.caught.pop()
                outs.append(b)
            hs = self.join(outs, self.key(s, "hs"))
            self.excs[exc] = () if hs.dead else hs.pc[len(pre.pc):]
            if not st.dead:
                self.assume(st, exc, False)
            if not hs.dead:
                if not st.dead:
                    self.block(st, fr, s.orelse)
                pc = pre.pc
                st.become(self.join([st, hs], self.key(s, "try")))
                if not st.dead:
                    st.pc = pc
                s = ast.Try(body=[], handlers=[], orelse=[], finalbody=s.finalbody)
            elif not st.dead:
                st.pc = pre.pc
        if not st.dead:
            self.block(st, fr, s.orelse)
        if s.finalbody:
            d = st.dead
            st.dead = False
            self.block(st, fr, s.finalbody)
            st.dead = d or st.dead

    def s_If(self, st, fr, s):
        c = self.truth(st, self.expr(st, fr, s.test), s.test)
        if st.dead:
            return
        a, b = st.copy(), st
        b = st.copy()
        self.assume(a, c, True)
        if not a.dead:
            self.block(a, fr, s.body)
        self.assume(b, c, False)
        if not b.dead:
            self.block(b, fr, s.orelse)
        st.become(self.join([a, b], self.key(s)))

    def s_Match(self, st, fr, s):
        self.note("match statement", s)

    def s_Assign(self, st, fr, s):
        v = self.expr(st, fr, s.value)
        if st.dead:
            return
        if isinstance(v, S):
            v = self.mat(st, v, self.key(s, "asg"))
        for tg in s.targets:
            self.assign(st, fr, tg, v, s)

    def s_AnnAssign(self, st, fr, s):
        if s.value is not None:
            v = self.mat(st, self.expr(st, fr, s.value), self.key(s, "asg"))
            self.assign(st, fr, s.target, v, s)

    def assign(self, st, fr, tg, v, node):
        if isinstance(tg, ast.Name):
            if isinstance(v, S) and v.t.nd in (1, 2):
                v = self.mat(st, v, self.key(tg, "bind"))
            st.frames[fr.fid][tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vs = self.unpack(st, v, len(tg.elts), node, any(isinstance(e, ast.Starred) for e in tg.elts), tg.elts)
            for e, x in zip(tg.elts, vs):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(st, fr, e, x, node)
        elif isinstance(tg, ast.Attribute):
            o = self.expr(st, fr, tg.value)
            self.set_attr(st, o, tg.attr, self.mat(st, v, self.key(tg, "attr")), node)
        elif isinstance(tg, ast.Subscript):
            b = self.expr(st, fr, tg.value)
            i = self.index(st, fr, tg.slice)
            if isinstance(b, S):
                n = t.upd(b.t, i, self.content(st, v))
                if isinstance(tg.value, (ast.Name, ast.Attribute)):
                    self.assign(st, fr, tg.value, S(n), node)
                return
            self.store(st, b, i, v, node)
        else:
            self.note("assign target " + type(tg).__name__, tg)

    def unpack(self, st, v, n, node, star=False, elts=None):
        v = self.prune(st, v)
        if isinstance(v, PhiV):
            a = self.unpack(st, v.a, n, node, star, elts)
            b = self.unpack(st, v.b, n, node, star, elts)
            return [joinv(v.c, x, y) for x, y in zip(a, b)]
        items = None
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Lst) and st.heap[v.oid].items is not None:
            items = list(st.heap[v.oid].items)
        if items is not None:
            if star:
                k = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)][0]
                rest = len(items) - (n - 1)
                mid = self.alloc(st, Lst(tuple(items[k:k + rest]), None, None, None, None, ()), self.key(node, "star"))
                return items[:k] + [mid] + items[k + rest:]
            if len(items) == n:
                return items
            self.ev("bad_unpack", node, got=len(items), want=n)
            return [S(t.top("unpack"))] * n
        if isinstance(v, Bot):
            return [BOT] * n
        return [self.elem(st, v, S(t.const(k)), node) for k in range(n)]

    def s_AugAssign(self, st, fr, s):
        op = BINOPS[type(s.op)]
        tg = s.target
        rhs = self.expr(st, fr, s.value)
        if isinstance(tg, ast.Name):
            cur = self.lookup(st, fr, tg.id, tg)
            st_v = self.aug(st, cur, op, rhs, s)
            st.frames[fr.fid][tg.id] = st_v
        elif isinstance(tg, ast.Attribute):
            o = self.expr(st, fr, tg.value)
            cur = self.get_attr(st, o, tg.attr, tg)
            v = self.aug(st, cur, op, rhs, s)
            self.set_attr(st, o, tg.attr, v, s)
        elif isinstance(tg, ast.Subscript):
            b = self.expr(st, fr, tg.value)
            i = self.index(st, fr, tg.slice)
            if isinstance(b, S):
                n = t.upd(b.t, i, t.bin_(op, t.row(b.t, i), self.content(st, rhs)))
                if isinstance(tg.value, (ast.Name, ast.Attribute)):
                    self.assign(st, fr, tg.value, S(n), s)
                return
            cur = self.elem(st, b, S(i), s)
            if self.is_list(st, cur) or isinstance(cur, Ref) and isinstance(st.heap.get(cur.oid), Obj):
                v = self.aug(st, cur, op, rhs, s)
            else:
                v = S(t.bin_(op, self.content(st, cur), self.content(st, rhs)))
            self.store(st, b, i, v, s)

    def is_list(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Lst)

    def aug(self, st, cur, op, rhs, node):
        cur = self.prune(st, cur)
        if isinstance(cur, PhiV):
            r = t.bin_(op, self.content(st, cur), self.content(st, rhs))
            leafs = vleaves(cur)
            if all(isinstance(l, (Ref, View)) for l in leafs) and not any(self.is_list(st, l) for l in leafs):
                rt = self.content(st, rhs)
                for g, l in gated(cur):
                    old = self.content(st, l)
                    self.set_whole(st, l, gphi(g, t.bin_(op, old, rt), old), node)
                return cur
            return self.mat(st, S(r), self.key(node, "aug"))
        if self.is_list(st, cur) and op == "+":
            self.list_extend(st, cur, rhs, node)
            return cur
        if isinstance(cur, (Ref, View)) and not self.is_obj(st, cur):
            c = self.content(st, cur)
            self.set_whole(st, cur, t.bin_(op, c, self.content(st, rhs)), node)
            return cur
        if isinstance(cur, Tup) and isinstance(rhs, Tup) and op == "+":
            return Tup(cur.items + rhs.items)
        return self.mat(st, S(t.bin_(op, self.content(st, cur), self.content(st, rhs))), self.key(node, "aug"))

    def is_obj(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.oid), (Obj, Dct))

    def set_whole(self, st, v, term, node):
        """replace the whole content of an array/view in place"""
        if isinstance(v, Ref):
            r = st.heap.get(v.oid)
            if isinstance(r, (Arr, Lst)):
                self.set_term(st, v.oid, term, node)
        elif isinstance(v, View):
            c = self.content(st, Ref(v.oid))
            self.set_term(st, v.oid, self._upd_path(c, v.idx, term), node)
        elif isinstance(v, PhiV):
            for g, l in gated(v):
                if isinstance(l, (Ref, View)):
                    self.set_whole(st, l, gphi(g, term, self.content(st, l)), node)

    # ---- element access ---------------------------------------------------------------------------
    def index(self, st, fr, sl):
        """-> index term"""
        if isinstance(sl, ast.Slice):
            a = self.content(st, self.expr(st, fr, sl.lower)) if sl.lower is not None else t.NONE
            b = self.content(st, self.expr(st, fr, sl.upper)) if sl.upper is not None else t.NONE
            c = self.content(st, self.expr(st, fr, sl.step)) if sl.step is not None else t.NONE
            return t.slice_(a, b, c)
        if isinstance(sl, ast.Tuple):
            return t.call("tupidx", *[self.index(st, fr, e) for e in sl.elts], nd=None)
        v = self.expr(st, fr, sl)
        if isinstance(v, Tup):
            if len(v.items) == 1:
                return self.content(st, v.items[0])
            return t.call("tupidx", *[self.content(st, e) for e in v.items], nd=None)
        return self.content(st, v)

    @staticmethod
    def norm_idx(i):
        """tuple index -> list of successive indices when the leading ones are scalar"""
        if i.op == "call" and i.args[0] == "tupidx":
            out, rest = [], list(i.args[1:])
            while rest and rest[0].nd == 0 and rest[0] is not t.NONE:
                out.append(rest.pop(0))
            if rest and all(x.op == "slice" and x.args[0] is t.NONE and x.args[1] is t.NONE and x.args[2] is t.NONE for x in rest):
                rest = []
            if len(rest) == 1:
                out.append(rest[0])
            elif len(rest) == 2 and rest[1].op == "slice" and all(x is t.NONE for x in rest[1].args):
                out.append(rest[0])
            elif rest:
                out.append(t.call("tupidx", *rest, nd=None))
            return out
        return [i]

    def elem(self, st, b, iv, node):
        b = self.prune(st, b)
        i = self.content(st, iv) if not isinstance(iv, t.T) else iv
        if isinstance(b, PhiV):
            return joinv(b.c, self.elem(st, b.a, iv, node), self.elem(st, b.b, iv, node))
        if isinstance(b, Bot):
            return b
        if isinstance(b, Tup):
            if t.is_const(i) and isinstance(t.cval(i), int) and -len(b.items) <= t.cval(i) < len(b.items):
                return b.items[t.cval(i)]
            if i.op == "slice" and all(t.is_const(x) for x in i.args):
                return Tup(b.items[slice(*[t.cval(x) for x in i.args])])
            return self.choose(b.items, i)
        if isinstance(b, S):
            if b.t is t.NONE:
                return BOT
            c = b.t
            if t.is_const(c) and isinstance(t.cval(c), str):
                ks = [t.cval(x) for x in i.args] if i.op == "slice" and all(t.is_const(x) for x in i.args) else t.cval(i) if t.is_const(i) else None
                try:
                    if ks is not None:
                        return S(t.const(t.cval(c)[slice(*ks) if isinstance(ks, list) else ks]))
                except (IndexError, TypeError):
                    pass
                return S(t.sym("char%s" % (self.key(node),), nd=None))
            for k in self.norm_idx(i):
                c = t.row(c, k)
            return S(c)
        if isinstance(b, View):
            base = self.content(st, b)
            ks = self.norm_idx(i)
            return self._elem_of(st, b.oid, b.idx, base, ks, node)
        if isinstance(b, Ref):
            r = st.heap.get(b.oid)
            if isinstance(r, Dct):
                return self.dict_get(st, b, i, None, node, strict=True)
            if isinstance(r, Obj):
                fi = r.ci.find("__getitem__") if isinstance(r.ci, ClassInfo) else None
                if fi:
                    return self.call_fn(st, fi, [b, S(i)], {}, node)
                return self.topv("getitem on object", node)
            if isinstance(r, Lst) and r.items is not None:
                if t.is_const(i) and isinstance(t.cval(i), int):
                    if -len(r.items) <= t.cval(i) < len(r.items):
                        return r.items[t.cval(i)]
                    self.ev("index_error", node, n=len(r.items), i=t.cval(i))
                    return BOT
                if i.op == "slice" and all(t.is_const(x) for x in i.args):
                    return self.alloc(st, Lst(r.items[slice(*[t.cval(x) for x in i.args])], None, None, None, None, ()), self.key(node, "slice"))
                if not r.items:
                    return BOT
                ks = {self.elkind(st, x)[0] for x in r.items}
                if ks <= {"val"} or any(isinstance(x, (Fn, BM, Cls, Ext, Tup)) for x in r.items):
                    return self.choose(r.items, i)
                if len(r.items) <= 4 and not (ks <= {"scalar"}) and i.nd == 0:
                    return self.choose(r.items, i)
            if isinstance(r, (Arr, Lst)):
                return self._elem_of(st, b.oid, (), self.content(st, b), self.norm_idx(i), node)
        if isinstance(b, (Ext, ModV)):
            return Ext(vname(b) + "[]")
        return self.topv("subscript of " + type(b).__name__, node)

    def choose(self, items, i):
        v = items[-1]
        for k in range(len(items) - 2, -1, -1):
            v = joinv(t.cmp("==", i, t.const(k)), items[k], v)
        return v

    def _elem_of(self, st, oid, path, base, ks, node):
        r = st.heap[oid]
        c = base
        n = len(ks)
        for j, k in enumerate(ks):
            if isinstance(r, Lst) and not path and j == 0 and r.ek == "val" and k.nd in (0, None) and k.op != "slice":
                return r.elem if r.elem is not None else self.topv("element of heterogeneous list", node)
            isobj = r.ek == "obj" or c.nd == "o1"
            nc = t.row(c, k)
            if isobj and not path and (k.nd in (0,) or k.nd is None and k.op not in ("slice", "call")):
                # focus
                f = self.focus(st, oid, k, nc, r.ocls)
                if j == n - 1:
                    return f
                return self.elem(st, f, ks[j + 1], node)
            view = (k.nd in (0,) or k.op == "slice")
            if nc.nd == 0 and view and k.op != "slice":
                return S(nc)
            if not view or isobj or isinstance(r, Lst) and not path and k.op == "slice":
                # fancy indexing copies
                rest = ks[j + 1:]
                for q in rest:
                    nc = t.row(nc, q)
                if isinstance(r, Lst) and k.op == "slice":
                    return self.alloc(st, Lst(None, nc, r.ek, r.ocls, r.elem, ()), self.key(node, "fancy"))
                if isobj:
                    return self.alloc(st, arr(nc, "obj", r.ocls), self.key(node, "fancy"))
                return S(nc) if nc.nd not in (1, 2) else self.alloc(st, arr(nc), self.key(node, "fancy"))
            path = path + (k,)
            c = nc
        if isinstance(r, Lst) and c.nd == 0:
            return S(c)
        return View(oid, path)

    def focus(self, st, oid, k, term, ocls):
        if term is t.NONE:
            return S(t.NONE)
        fo = ("f", oid, k)
        old = st.heap.get(fo)
        if isinstance(old, Obj) and self.content(st, Ref(fo)) is term:
            return Ref(fo)
        st.heap[fo] = Obj(ocls if ocls is not None else self.indiv_cls, {}, term, ((oid, k),))
        # drop stale minted attribute storage
        for n in ("x",):
            st.heap.pop(("a", fo, n), None)
        return Ref(fo)

    def store(self, st, b, i, v, node):
        b = self.prune(st, b)
        if st.dead or isinstance(b, Bot):
            return
        if isinstance(b, PhiV):
            vt = None
            for g, l in gated(b):
                if isinstance(l, S) or isinstance(l, Bot):
                    continue
                if isinstance(l, Ref) and isinstance(st.heap.get(l.oid), Dct):
                    self.store(st, l, i, v, node)
                    continue
                old = self.content(st, l)
                new = old
                ks = self.norm_idx(i)
                vt = self.content(st, v) if vt is None else vt
                new = self._upd_path(old, tuple(ks), vt)
                self.set_whole(st, l, gphi(g, new, old), node)
            return
        if isinstance(b, Ref):
            r = st.heap.get(b.oid)
            if isinstance(r, Dct):
                d = dict(r.entries)
                if t.is_const(i):
                    d[t.cval(i)] = v
                    st.heap[b.oid] = Dct(tuple(d.items()), r.maybe - {t.cval(i)}, r.open)
                    self.ev("dict_set", node, oid=b.oid, key=t.cval(i))
                else:
                    st.heap[b.oid] = r._replace(open=True)
                    self.ev("dict_set", node, oid=b.oid, key=None)
                return
            if isinstance(r, Obj):
                fi = r.ci.find("__setitem__") if isinstance(r.ci, ClassInfo) else None
                if fi:
                    self.call_fn(st, fi, [b, S(i), v], {}, node)
                else:
                    self.note("setitem on object", node)
                return
            if isinstance(r, Lst) and r.items is not None and t.is_const(i) and isinstance(t.cval(i), int) and -len(r.items) <= t.cval(i) < len(r.items):
                its = list(r.items)
                its[t.cval(i)] = v
                st.heap[b.oid] = r._replace(items=tuple(its))
                self.ev("mutate", node, oid=b.oid, how="setitem")
                return
            if isinstance(r, Lst) and r.items is not None:
                r = self.summ(st, r)
                st.heap[b.oid] = r
            if isinstance(r, (Arr, Lst)):
                self._store_path(st, b.oid, (), i, v, node)
                return
        if isinstance(b, View):
            self._store_path(st, b.oid, b.idx, i, v, node)
            return
        self.note("store into " + type(b).__name__, node)

    def _store_path(self, st, oid, path, i, v, node):
        r = st.heap[oid]
        c = self.content(st, Ref(oid))
        ks = tuple(self.norm_idx(i))
        full = path + ks
        vt = self.content(st, v)
        if len(full) == 1 and (isinstance(r, Lst) or r.ek == "obj" or self._is_indiv_val(st, v)):
            k, oc = self.elkind(st, v)
            if isinstance(r, Arr) and k == "obj":
                st.heap[oid] = r = r._replace(ek="obj", ocls=r.ocls or oc)
            elif isinstance(r, Lst):
                st.heap[oid] = r = r._replace(ek=k if r.ek in (None, k) else "val", ocls=r.ocls or oc,
                                              elem=v if r.elem is None else joinv(t.sym("elem?", nd=0), r.elem, v))
        if r.ek == "obj" and len(full) == 2:
            # individual element write:  pop[i][d] = v
            f = self.focus(st, oid, full[0], t.row(c, full[0]), r.ocls)
            self.store(st, f, full[1], v, node)
            return
        self.set_term(st, oid, self._upd_path(c, full, vt), node)
        if len(full) == 1 and isinstance(v, Ref) and full[0].nd == 0:
            rv = st.heap.get(v.oid)
            stores_ref = isinstance(r, Lst) or r.ek == "obj"
            if stores_ref and isinstance(rv, (Obj, Arr)) and (oid, full[0]) not in rv.esc:
                st.heap[v.oid] = rv._replace(esc=rv.esc + ((oid, full[0]),))

    def _is_indiv_val(self, st, v):
        return self.elkind(st, v)[0] == "obj"

    # ---- dicts --------------------------------------------------------------------------------------
    def dict_get(self, st, d, keyt, default, node, strict):
        r = st.heap[d.oid]
        if not t.is_const(keyt):
            if r.entries:
                vals = [v for _, v in r.entries]
                return self.choose(vals, keyt)
            return self.topv("dict key", node)
        k = t.cval(keyt)
        e = dict(r.entries)
        if k in e:
            if k in r.maybe:
                has = t.sym("has:%s" % k, nd=0)
                if (has, True) in st.pc:
                    return e[k]
                self.ev("key_maybe" if strict else "key_soft", node, key=k, fn=None, guarded=bool(self.guards))
                if strict:
                    pass
                elif default is not None:
                    return joinv(t.sym("has:%s" % k, nd=0), e[k], default)
            return e[k]
        if strict:
            if not r.open:
                self.ev("key_missing", node, key=k, guarded=bool(self.guards))
                return S(t.top("missing key " + str(k)))
            return self.topv("open dict key", node)
        if r.open:
            return self.topv("open dict key", node)
        return default if default is not None else S(t.NONE)

    def dict_pop(self, st, d, keyt, default, node):
        v = self.dict_get(st, d, keyt, default, node, strict=default is None)
        r = st.heap[d.oid]
        if t.is_const(keyt):
            st.heap[d.oid] = Dct(tuple((k, x) for k, x in r.entries if k != t.cval(keyt)), r.maybe - {t.cval(keyt)}, r.open)
        return v

    def new_dict(self, st, entries, key, maybe=frozenset(), open_=False):
        return self.alloc(st, Dct(tuple(entries), frozenset(maybe), open_), key)

    # ---- lists ----------------------------------------------------------------------------------------
    def list_append(self, st, l, v, node):
        r = st.heap[l.oid]
        self.ev("mutate", node, oid=l.oid, how="append")
        v = self.mat(st, v, self.key(node, "app"))
        if r.items is not None and not self.inloop:
            st.heap[l.oid] = r._replace(items=r.items + (v,))
            return
        old = self.content(st, l)
        r = self.summ(st, r)
        k, oc = self.elkind(st, v)
        vt = self.content(st, v)
        term = t.cat(r.term, t.listc(vt))
        st.heap[l.oid] = Lst(None, term, k if r.ek in (None, k) else "val", r.ocls or oc,
                             v if r.elem is None else joinv(t.sym("elem?", nd=0), r.elem, v), r.esc)
        if isinstance(v, Ref) and k in ("obj", "arr"):
            rv = st.heap[v.oid]
            e = (l.oid, t.sym("anyidx", nd=0))
            if e not in rv.esc:
                st.heap[v.oid] = rv._replace(esc=rv.esc + (e,))

    def list_extend(self, st, l, o, node):
        r = st.heap[l.oid]
        self.ev("mutate", node, oid=l.oid, how="extend")
        items = self.exact_items(st, o)
        if r.items is not None and items is not None and not self.inloop:
            st.heap[l.oid] = r._replace(items=r.items + tuple(items))
            return
        r = self.summ(st, r)
        s2 = self.as_summary(st, o)
        st.heap[l.oid] = Lst(None, t.cat(r.term, s2.term), r.ek if s2.ek in (None, r.ek) else s2.ek if r.ek is None else "val",
                             r.ocls or s2.ocls, r.elem if s2.elem is None else s2.elem if r.elem is None else joinv(t.sym("elem?", nd=0), r.elem, s2.elem), r.esc)

    inloop = 0

    def exact_items(self, st, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            r = st.heap.get(v.oid)
            if isinstance(r, Lst) and r.items is not None:
                return list(r.items)
        return None

    def as_summary(self, st, v):
        """any iterable as a list summary record"""
        if isinstance(v, Tup):
            return self.summ(st, Lst(tuple(v.items), None, None, None, None, ()))
        if isinstance(v, Ref):
            r = st.heap.get(v.oid)
            if isinstance(r, Lst):
                return self.summ(st, r)
            if isinstance(r, Arr):
                return Lst(None, r.term, {2: "arr", 1: "scalar", "o1": "obj"}.get(r.term.nd, "obj" if r.ek == "obj" else None), r.ocls, None, ())
        c = self.content(st, v)
        return Lst(None, c, {2: "arr", 1: "scalar", "o1": "obj"}.get(c.nd), None, None, ())

    # ---- attributes -----------------------------------------------------------------------------------
    def get_attr(self, st, o, name, node):
        o = self.prune(st, o)
        if isinstance(o, PhiV):
            return joinv(o.c, self.get_attr(st, o.a, name, node), self.get_attr(st, o.b, name, node))
        if isinstance(o, Bot):
            return o
        if isinstance(o, Ref):
            r = st.heap.get(o.oid)
            if isinstance(r, Obj):
                if name in r.attrs:
                    self.ev_attr_read(st, o, name, node)
                    if (o.oid, name) in self.volatile:
                        return S(t.sym("%s%s" % (name, self.key(node)), nd=self.volatile[o.oid, name]))
                    return self.prune(st, r.attrs[name])
                if isinstance(r.ci, ClassInfo):
                    fi = r.ci.find(name)
                    if fi is not None and not (r.src is not None and name in ("x", "f")):
                        if fi.kind == "property":
                            return self.call_fn(st, fi, [o], {}, node)
                        return Fn(fi, None) if fi.kind == "static" else BM(Cls(r.ci) if fi.kind == "classmethod" else o, fi)
                    ca = r.ci.find_attr(name)
                    if ca is not None and r.src is None:
                        return self.class_attr(ca[0], name, ca[1])
                if r.src is not None:
                    return self._mint_attr(st, o.oid, r.src, name)
                if isinstance(r.ci, str) and name in self.methmodels:
                    return BExt(o, name)
                if name == "__class__":
                    return Cls(r.ci) if isinstance(r.ci, ClassInfo) else Ext(str(r.ci))
                if name == "__dict__":
                    return self.topv("__dict__", node)
                if self.attr_assigned(r.ci, name):
                    self.note("attribute possibly unset " + name, node)
                    return S(t._new("fld", (self.content(st, o), name), feas="U", nd=None, top=True))
                self.ev("no_attr", node, cls=getattr(r.ci, "name", str(r.ci)), name=name, oid=o.oid)
                return S(t.top("attribute " + name))
            return self.arr_attr(st, o, name, node)
        if name == "__class__" and isinstance(o, S) and t.is_const(o.t) and o.t is not t.NONE:
            return Ext(type(t.cval(o.t)).__name__)
        if isinstance(o, (View, S, Tup, RngV, BExt)):
            return self.arr_attr(st, o, name, node)
        if isinstance(o, Cls):
            fi = o.ci.find(name)
            if fi is not None:
                return BM(o, fi) if fi.kind == "classmethod" else Fn(fi, None)
            ca = o.ci.find_attr(name)
            if ca is not None:
                if any("Enum" in b for b in o.ci.ext_bases()):
                    return S(t.call("enum", t.const(name), self.content(st, self.class_attr(ca[0], name, ca[1])), nd=None))
                return self.class_attr(ca[0], name, ca[1])
            if name in ("__name__", "__qualname__"):
                return S(t.const(o.ci.name))
            return self.topv("class attribute " + name, node)
        if isinstance(o, SuperV):
            fi = None
            ci = self.cls_of(st, o.obj)
            if ci is not None:
                fi = ci.find(name, after=o.ci)
            if fi is None:
                return BExt(o, name)
            if fi.kind == "static":
                return Fn(fi, None)
            return BM(o.obj, fi)
        if isinstance(o, ModV):
            r = self.prog.lookup_from(o.name, name)
            v = self.from_lookup(r, name, node)
            return v if v is not None else Ext(o.name + "." + name)
        if isinstance(o, Ext):
            n = o.name + "." + name
            from . import models
            if name in ("__name__", "__qualname__") and o.name in ("str", "int", "float", "list", "dict", "tuple", "bool"):
                return S(t.const(o.name))
            if n in models.CONSTS:
                return S(t.const(models.CONSTS[n]))
            return Ext(n)
        if isinstance(o, (Fn, BM, Part)):
            if name == "__name__" and isinstance(o, (Fn, BM)):
                return S(t.const(o.fi.name))
            return BExt(o, name)
        return self.topv("attribute of " + type(o).__name__, node)

    _stored = None

    def attr_assigned(self, ci, name):
        """is the attribute assigned anywhere in the program (own class methods, or through another reference)?"""
        if Interp._stored is None or Interp._stored[0] is not self.prog:
            own, any_ = {}, set()
            for m in self.prog.modules.values():
                def walk(n, cls):
                    for ch in ast.iter_child_nodes(n):
                        c2 = ch.name if isinstance(ch, ast.ClassDef) else cls
                        if isinstance(ch, ast.Attribute) and isinstance(ch.ctx, ast.Store):
                            if isinstance(ch.value, ast.Name) and ch.value.id == "self":
                                own.setdefault(cls, set()).add(ch.attr)
                            else:
                                any_.add(ch.attr)
                        walk(ch, c2)
                walk(m.tree, None)
            Interp._stored = (self.prog, own, any_)
        _, own, any_ = Interp._stored
        if name in any_:
            return True
        return isinstance(ci, ClassInfo) and any(name in own.get(c.name, ()) for c in ci.mro())

    def ev_attr_read(self, st, o, name, node):
        h = self.attr_read_hook
        if h:
            h(st, o, name, node)

    attr_read_hook = None
    own_read_hook = None
    volatile = {}

    def class_attr(self, ci, name, node):
        return self.global_expr(ci.module, node, ci.name + "." + name)

    def cls_of(self, st, v):
        if isinstance(v, Ref):
            r = st.heap.get(v.oid)
            if isinstance(r, Obj) and isinstance(r.ci, ClassInfo):
                return r.ci
        if isinstance(v, Cls):
            return v.ci
        if isinstance(v, PhiV):
            return self.cls_of(st, v.a) or self.cls_of(st, v.b)
        return None

    def arr_attr(self, st, o, name, node):
        if name in ("shape", "size", "T", "ndim", "dtype", "real", "flat"):
            c = self.content(st, o)
            if name == "shape":
                n = t.length(c) or t.call("len", c, nd=0)
                if c.nd == 1 or c.nd == "o1":
                    return Tup((S(n),))
                if c.nd == 2:
                    return Tup((S(n), S(t.call("len1", c, nd=0))))
                return S(t.call("shape", c, nd=1))
            if name in ("size", "ndim"):
                return S(t.call(name, c, nd=0))
            if name == "T":
                return S(t.call("T", c, nd=c.nd, feas=c.feas))
            if name == "dtype":
                return Ext("dtype")
            return S(c)
        if isinstance(o, S) and name == "value":
            if o.t.op == "call" and o.t.args[0] == "enum":
                return S(o.t.args[2])
            if o.t.op == "sym":
                return S(t.sym(o.t.args[0] + ".value", nd=0))
        if isinstance(o, S) and o.t is t.NONE:
            return BOT
        if isinstance(o, S) and o.t.op == "sym" and str(o.t.args[0]).startswith("env:"):
            return S(t.sym("%s.%s" % (o.t.args[0], name), nd=0))
        if isinstance(o, S) and o.t.nd == "o0" or isinstance(o, S) and name in ("x", "f"):
            return S(t.fld(o.t, name))
        return BExt(o, name)

    def set_attr(self, st, o, name, v, node):
        o = self.prune(st, o)
        if isinstance(o, PhiV):
            for g, l in gated(o):
                if isinstance(l, Ref) and isinstance(st.heap.get(l.oid), Obj):
                    old = self.get_attr(st, l, name, node)
                    self.set_attr(st, l, name, gjoin(g, v, old), node)
            return
        if isinstance(o, Ref):
            r = st.heap.get(o.oid)
            if isinstance(r, Obj):
                fi = r.ci.find(name + "=") if isinstance(r.ci, ClassInfo) else None
                if fi:
                    self.call_fn(st, fi, [o, v], {}, node)
                    return
                self.ev("attr_write", node, oid=o.oid, cls=getattr(r.ci, "name", str(r.ci)), name=name, val=v)
                src = r.src
                if src is not None:
                    self._fill_focus(st, o.oid, src)
                    r = st.heap[o.oid]
                old = self.content(st, o)
                at = dict(r.attrs)
                at[name] = v
                st.heap[o.oid] = r._replace(attrs=at, src=None)
                if r.esc:
                    self.obj_changed(st, o.oid, node, old)
                return
            self.ev("ext_attr_write", node, name=name)
            return
        if isinstance(o, Cls):
            self.ev("class_attr_write", node, cls=o.ci.name, name=name)
            return
        if isinstance(o, (ModV, Ext)):
            self.ev("module_attr_write", node, mod=vname(o), name=name)
            return
        self.note("attribute store on " + type(o).__name__, node)

    # ---- expressions ------------------------------------------------------------------------------------
    def expr(self, st, fr, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.topv("expression " + type(e).__name__, e)
        if st.dead:
            return BOT
        return m(st, fr, e)

    def e_Constant(self, st, fr, e):
        return S(t.const(e.value))

    def e_Name(self, st, fr, e):
        return self.lookup(st, fr, e.id, e)

    def e_NamedExpr(self, st, fr, e):
        v = self.mat(st, self.expr(st, fr, e.value), self.key(e, "walrus"))
        self.assign(st, fr, e.target, v, e)
        return v

    def e_Attribute(self, st, fr, e):
        o = self.expr(st, fr, e.value)
        return self.get_attr(st, o, e.attr, e)

    def e_Subscript(self, st, fr, e):
        b = self.expr(st, fr, e.value)
        i = self.index(st, fr, e.slice)
        return self.elem(st, b, S(i), e)

    def e_Tuple(self, st, fr, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(st, fr, x.value)
                its = self.exact_items(st, v)
                if its is None:
                    return self.topv("starred tuple", e)
                out += its
            else:
                v = self.expr(st, fr, x)
                out.append(self.mat(st, v, self.key(x, "tup")))
        return Tup(tuple(out))

    def e_List(self, st, fr, e):
        v = self.e_Tuple(st, fr, e)
        if isinstance(v, Tup):
            return self.alloc(st, Lst(v.items, None, None, None, None, ()), self.key(e, "list"))
        return v

    def e_Set(self, st, fr, e):
        for x in e.elts:
            self.expr(st, fr, x)
        return S(t.sym("set%s" % (self.key(e),), nd=None))

    def e_Dict(self, st, fr, e):
        ents, maybe, op = {}, set(), False
        for k, v in zip(e.keys, e.values):
            vv = self.expr(st, fr, v)
            if k is None:
                for l in vleaves(vv):
                    r = st.heap.get(l.oid) if isinstance(l, Ref) else None
                    if isinstance(r, Dct):
                        ents.update(dict(r.entries))
                        maybe |= r.maybe
                        op |= r.open
                    else:
                        op = True
            else:
                kk = self.content(st, self.expr(st, fr, k))
                if t.is_const(kk):
                    ents[t.cval(kk)] = self.mat(st, vv, self.key(v, "dv"))
                else:
                    op = True
        return self.new_dict(st, ents.items(), self.key(e, "dict"), maybe, op)

    def e_JoinedStr(self, st, fr, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.expr(st, fr, v.value)
        return S(t.sym("fstr%s" % (self.key(e),), nd=None))

    def e_Lambda(self, st, fr, e):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e.body)], decorator_list=[], returns=None)
        ast.copy_location(node, e)
        k = id(e)
        fi = self.lambdas.get(k)
        if fi is None:
            fi = self.lambdas[k] = FuncInfo("<lambda>", node, fr.fi.module, None, "function", fr.fi.qual + ".<lambda>")
        return Fn(fi, fr.fid)

    lambdas = {}

    def e_IfExp(self, st, fr, e):
        c = self.truth(st, self.expr(st, fr, e.test), e.test)
        if c is t.TRUE:
            return self.expr(st, fr, e.body)
        if c is t.FALSE:
            return self.expr(st, fr, e.orelse)
        a, b = st.copy(), st.copy()
        self.assume(a, c, True)
        va = self.expr(a, fr, e.body) if not a.dead else BOT
        self.assume(b, c, False)
        vb = self.expr(b, fr, e.orelse) if not b.dead else BOT
        if isinstance(va, S) and isinstance(vb, S):
            pass
        else:
            va = self.mat(a, va, self.key(e.body, "ife"))
            vb = self.mat(b, vb, self.key(e.orelse, "ife"))
        if isinstance(va, Bot):
            a.dead = True
        if isinstance(vb, Bot):
            b.dead = True
        st.become(self.join([a, b], self.key(e)))
        return joinv(c, va, vb)

    @staticmethod
    def boolish(v):
        """a value that is itself a truth value"""
        return isinstance(v, S) and (v.t.op in ("cmp", "and", "or", "not") or v.t is t.TRUE or v.t is t.FALSE or
                                     v.t.op == "sym" and v.t.args[0].startswith("stop") or
                                     v.t.op == "call" and v.t.args[0] in ("isinstance", "callable", "any", "all", "bool", "truth"))

    def in_test(self, fr, e):
        """is e evaluated for its truth only"""
        m = fr.fi.module
        ids = self.testpos.get(m.name)
        if ids is None:
            ids = self.testpos[m.name] = set()

            def mark(x):
                ids.add(id(x))
                if isinstance(x, ast.BoolOp):
                    for y in x.values:
                        mark(y)
                elif isinstance(x, ast.UnaryOp):
                    mark(x.operand)
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
                    mark(n.test)
                elif isinstance(n, ast.comprehension):
                    for y in n.ifs:
                        mark(y)
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                    mark(n.operand)
        return id(e) in ids

    def e_BoolOp(self, st, fr, e):
        val = self.expr(st, fr, e.values[0])
        acc = self.truth(st, val, e.values[0])
        isand = isinstance(e.op, ast.And)
        plain = self.in_test(fr, e)
        for x in e.values[1:]:
            if (isand and acc is t.FALSE) or (not isand and acc is t.TRUE):
                return S(acc) if plain or self.boolish(val) else val
            a, b = st.copy(), st.copy()
            self.assume(a, acc, isand)
            nv = self.expr(a, fr, x) if not a.dead else None
            v = self.truth(a, nv, x) if not a.dead else (t.TRUE if isand else t.FALSE)
            self.assume(b, acc, not isand)
            if nv is not None and not a.dead and not isinstance(nv, Bot):
                if plain or self.boolish(val) and self.boolish(nv):
                    pass
                elif acc is t.TRUE or acc is t.FALSE:
                    val = nv
                else:
                    val, nv = self.mat(b, val, self.key(x, "bo0")), self.mat(a, nv, self.key(x, "bo1"))
                    val = joinv(acc, nv, val) if isand else joinv(acc, val, nv)
            st.become(self.join([a, b], self.key(x)))
            acc = t.and_(acc, v) if isand else t.or_(acc, v)
            if self.boolish(val):
                val = S(acc)
        return S(acc) if plain or self.boolish(val) else val

    def e_UnaryOp(self, st, fr, e):
        v = self.expr(st, fr, e.operand)
        if isinstance(e.op, ast.Not):
            return S(t.not_(self.truth(st, v, e)))
        c = self.content(st, v)
        if isinstance(e.op, ast.USub):
            return S(t.un("-", c))
        if isinstance(e.op, ast.Invert):
            return S(t.not_(c)) if c.op in ("cmp", "and", "or", "not") or True else S(t.un("~", c))
        return S(c)

    def e_BinOp(self, st, fr, e):
        a = self.expr(st, fr, e.left)
        b = self.expr(st, fr, e.right)
        op = BINOPS[type(e.op)]
        if isinstance(a, Bot) or isinstance(b, Bot):
            return BOT
        if op == "%" and isinstance(a, S) and t.is_const(a.t) and isinstance(t.cval(a.t), str):
            return S(t.sym("str%s" % (self.key(e),), nd=None))
        if op == "+" and (isinstance(a, Tup) and isinstance(b, Tup)):
            return Tup(a.items + b.items)
        if self.is_list(st, a) or self.is_list(st, b):
            if op == "+" and self.is_list(st, a) and self.is_list(st, b):
                l = self.alloc(st, st.heap[a.oid]._replace(esc=()), self.key(e, "lcat"))
                self.list_extend(st, l, b, e)
                return l
            if op == "*":
                lst, n = (a, b) if self.is_list(st, a) else (b, a)
                r = st.heap[lst.oid]
                if r.items is not None and len(r.items) == 1:
                    c = self.content(st, r.items[0])
                    k, oc = self.elkind(st, r.items[0])
                    term = t._new("fill", (c, self.key(e)), feas=c.feas if c.feas != "B" else "P", nd={0: 1, 1: 2, "o0": "o1"}.get(c.nd), unit=c.unit)
                    if k == "val":
                        return self.alloc(st, Lst(None, term, k, oc, r.items[0], ()), self.key(e, "lmul"))
                    return self.alloc(st, Lst(None, term, None if c is t.NONE else k, oc, None, ()), self.key(e, "lmul"))
        ca, cb = self.content(st, a), self.content(st, b)
        if op in ("&", "|") and (ca.op in ("cmp", "and", "or", "not", "call") and cb.op in ("cmp", "and", "or", "not", "call")):
            return S(t.and_(ca, cb) if op == "&" else t.or_(ca, cb))
        return S(t.bin_(op, ca, cb))

    def e_Compare(self, st, fr, e):
        left = self.expr(st, fr, e.left)
        acc = t.TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(st, fr, r)
            acc = t.and_(acc, self.compare(st, CMPOPS[type(op)], left, right))
            left = right
        return S(acc)

    def compare(self, st, op, a, b):
        a, b = self.prune(st, a), self.prune(st, b)
        if op in ("is", "isnot", "==", "!="):
            for x, y in ((a, b), (b, a)):
                if y == S(t.NONE):
                    r = self.is_none(st, x)
                    if r is not None:
                        return r if op in ("is", "==") else t.not_(r)
            if isinstance(a, (Fn, Cls, BM, Ext)) and isinstance(b, (Fn, Cls, BM, Ext)):
                return t.boolc((a == b) == (op in ("is", "==")))
        if op in ("in", "notin") and isinstance(b, Ref) and isinstance(st.heap.get(b.oid), Dct) and isinstance(a, S) and t.is_const(a.t):
            r, k = st.heap[b.oid], t.cval(a.t)
            e = dict(r.entries)
            if not r.open or k in e:
                c = t.FALSE if k not in e else t.sym("has:%s" % k, nd=0) if k in r.maybe else t.TRUE
                return c if op == "in" else t.not_(c)
        if isinstance(a, PhiV):
            return t.phi(a.c, self.compare(st, op, a.a, b), self.compare(st, op, a.b, b))
        if isinstance(b, PhiV):
            return t.phi(b.c, self.compare(st, op, a, b.a), self.compare(st, op, a, b.b))
        return t.cmp(op, self.content(st, a), self.content(st, b))

    def is_none(self, st, v):
        if isinstance(v, S):
            if v.t is t.NONE:
                return t.TRUE
            if v.t.op == "phi":
                a, b = self.is_none(st, S(v.t.args[1])), self.is_none(st, S(v.t.args[2]))
                if a is not None and b is not None:
                    return t.phi(v.t.args[0], a, b)
                return None
            if t.is_const(v.t) or v.t.nd in (0, 1, 2, "o1", "o0") and v.t.op != "sym":
                return t.FALSE
            if v.t.op == "sym" and v.t.args[0].startswith("req."):
                return t.FALSE
            if v.t.op == "sym" and v.t.args[0].startswith("cfg."):
                return t.FALSE if v.t.args[0] not in self.maybe_none else None
            return None
        if isinstance(v, PhiV):
            a, b = self.is_none(st, v.a), self.is_none(st, v.b)
            if a is not None and b is not None:
                return t.phi(v.c, a, b)
            return None
        if isinstance(v, Bot):
            return None
        return t.FALSE

    maybe_none = frozenset()

    def truth(self, st, v, node):
        v = self.prune(st, v)
        if isinstance(v, S):
            x = v.t
            if t.is_const(x):
                try:
                    return t.boolc(bool(t.cval(x)))
                except Exception:
                    return x
            for (c, b) in st.pc:
                if c is x:
                    return t.boolc(b)
                if x.op == "not" and x.args[0] is c:
                    return t.boolc(not b)
            return x
        if isinstance(v, PhiV):
            return t.phi(v.c, self.truth(st, v.a, node), self.truth(st, v.b, node))
        if isinstance(v, Ref):
            r = st.heap.get(v.oid)
            if isinstance(r, Lst) and r.items is not None:
                return t.boolc(bool(r.items))
            if isinstance(r, Obj):
                return t.TRUE
            if isinstance(r, Dct) and not r.open and not r.maybe:
                return t.boolc(bool(r.entries))
            return t.cmp("<", t.const(0), t.length(self.content(st, v)) or t.call("len", self.content(st, v), nd=0))
        if isinstance(v, Tup):
            return t.boolc(bool(v.items))
        if isinstance(v, (Fn, BM, Cls, Ext, ModV, RngV)):
            return t.TRUE
        return t.call("truth", self.content(st, v), nd=0)

    def e_Starred(self, st, fr, e):
        return self.expr(st, fr, e.value)

    # ---- comprehensions ----------------------------------------------------------------------------------
    def e_ListComp(self, st, fr, e):
        return self.comp(st, fr, e, [e.elt], "list")

    def e_GeneratorExp(self, st, fr, e):
        return self.comp(st, fr, e, [e.elt], "list")

    def e_SetComp(self, st, fr, e):
        self.comp(st, fr, e, [e.elt], "list")
        return S(t.sym("setcomp%s" % (self.key(e),), nd=None))

    def e_DictComp(self, st, fr, e):
        return self.comp(st, fr, e, [e.key, e.value], "dict")

    def comp(self, st, fr, e, elts, kind):
        # desugar to nested for loops filling a hidden list or dictionary
        if kind == "dict":
            lst = self.new_dict(st, (), self.key(e, "dc"))
        else:
            lst = self.alloc(st, Lst((), None, None, None, None, ()), self.key(e, "comp"))
        fid = fr.fid
        hidden = "#comp%d_%d" % (e.lineno, e.col_offset)
        st.frames[fid][hidden] = lst
        saved = {}

        def gen(k, s):
            if k == len(e.generators):
                vals = [self.expr(s, fr, x) for x in elts]
                if s.dead:
                    return
                l = s.frames[fid][hidden]
                if kind == "dict":
                    self.store(s, l, self.content(s, vals[0]), vals[1], e)
                else:
                    self.list_append(s, l, vals[-1], e)
                return
            g = e.generators[k]
            it = self.expr(s, fr, g.iter)

            def body(b):
                for cnd in g.ifs:
                    c = self.truth(b, self.expr(b, fr, cnd), cnd)
                    no = b.copy()
                    self.assume(no, c, False)
                    if not no.dead:
                        fr.loops[-1][1].append(no)
                    self.assume(b, c, True)
                    if b.dead:
                        return
                gen(k + 1, b)
            self.for_loop(s, fr, g, it, g.target, body, None, ("comp", k))
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    saved[n.id] = st.frames[fid].get(n.id)
        gen(0, st)
        if st.dead:
            return BOT
        v = st.frames[fid].pop(hidden, lst)
        for n, o in saved.items():
            if o is None:
                st.frames[fid].pop(n, None)
            else:
                st.frames[fid][n] = o
        return v

    # ---- loops ------------------------------------------------------------------------------------------
    def s_While(self, st, fr, s):
        base = st.pc

        def iteration(h):
            c = self.truth(h, self.expr(h, fr, s.test), s.test)
            ex = h.copy()
            self.assume(ex, c, False)
            self.assume(h, c, True)
            fr.loops.append(([], []))
            if not h.dead:
                self.block(h, fr, s.body)
            br, co = fr.loops.pop()
            back = self.join(co + [h], self.key(s, "back"))
            return back, br, ex, None
        self.loop(st, fr, s, iteration, s.orelse)

    def s_For(self, st, fr, s):
        it = self.expr(st, fr, s.iter)
        if st.dead:
            return
        self.for_loop(st, fr, s, it, s.target, lambda b: self.block(b, fr, s.body), s.orelse, "for")

    s_AsyncFor = s_For

    def iter_shape(self, st, it, node):
        """-> (count term or None, getter(st, ivar term)->Val, exact list or None)"""
        it = self.prune(st, it)
        if isinstance(it, S) and t.is_const(it.t) and isinstance(t.cval(it.t), str):
            chars = [S(t.const(x)) for x in t.cval(it.t)]
            return t.const(len(chars)), (lambda s2, i: S(t.sym("char%s" % (self.key(node),), nd=None))), chars
        if isinstance(it, BExt) and isinstance(it.obj, Tup) and it.name in ("#range", "#enum", "#zip", "#items", "#values", "#rev", "#rangelist"):
            args = it.obj.items
            if it.name == "#range":
                cs = [self.content(st, a) for a in args]
                lo, hi, stp = (t.const(0), cs[0], t.const(1)) if len(cs) == 1 else (cs[0], cs[1], cs[2] if len(cs) > 2 else t.const(1))
                exact = None
                if all(t.is_const(x) and isinstance(t.cval(x), int) for x in (lo, hi, stp)) and t.cval(stp) != 0:
                    rg = range(t.cval(lo), t.cval(hi), t.cval(stp))
                    if len(rg) <= (5 if self.UNROLL <= 6 else 64):
                        exact = [S(t.const(k)) for k in rg]
                full = lo is t.const(0) and stp is t.const(1)
                return (hi if full else None), (lambda s2, i: S(i)), exact
            if it.name == "#enum":
                n, g, ex = self.iter_shape(st, args[0], node)
                off = self.content(st, args[1]) if len(args) > 1 else t.const(0)
                exact = None if ex is None else [Tup((S(t.bin_("+", t.const(k), off)), x)) for k, x in enumerate(ex)]
                return n, (lambda s2, i: Tup((S(t.bin_("+", i, off)), g(s2, i)))), exact
            if it.name == "#zip":
                parts = [self.iter_shape(st, a, node) for a in args]
                exact = None
                if parts and all(p[2] is not None for p in parts):
                    exact = [Tup(tuple(x)) for x in zip(*[p[2] for p in parts])]
                n = parts[0][0] if parts else None
                return n, (lambda s2, i: Tup(tuple(p[1](s2, i) for p in parts))), exact
            if it.name == "#rev":
                n, g, ex = self.iter_shape(st, args[0], node)
                return n, (lambda s2, i: g(s2, i)), (list(reversed(ex)) if ex is not None else None)
        if isinstance(it, Tup):
            return None, None, list(it.items)
        if isinstance(it, Ref):
            r = st.heap.get(it.oid)
            if isinstance(r, Lst) and r.items is not None:
                return None, (lambda s2, i: self.elem(s2, it, S(i), node)), list(r.items)
            if isinstance(r, Dct):
                if not r.open:
                    return None, None, [S(t.const(k)) for k, _ in r.entries]
            if isinstance(r, Obj):
                fi = r.ci.find("__iter__") if isinstance(r.ci, ClassInfo) else None
                return None, (lambda s2, i: self.elem(s2, it, S(i), node)), None
        if isinstance(it, PhiV):
            pa, pb = self.iter_shape(st, it.a, node), self.iter_shape(st, it.b, node)
            if pa[1] and pb[1]:
                return (pa[0] if pa[0] is pb[0] else None), (lambda s2, i: joinv(it.c, pa[1](s2, i), pb[1](s2, i))), None
        c = self.content(st, it)
        n = t.length(c) or t.call("len", c, nd=0)
        return n, (lambda s2, i: self.elem(s2, it, S(i), node)), None

    UNROLL = 6

    def for_loop(self, st, fr, node, it, target, body, orelse, tag):
        anchor = node if hasattr(node, "lineno") else target
        n, getter, exact = self.iter_shape(st, it, anchor)
        if exact is not None and len(exact) <= self.UNROLL:
            # unroll
            saved = self.ctx
            breaks = []
            for k, v in enumerate(exact):
                if st.dead:
                    break
                self.ctx = saved + (("u", anchor.lineno, anchor.col_offset, k),)
                self.assign(st, fr, target, v, anchor)
                fr.loops.append(([], []))
                body(st)
                br, co = fr.loops.pop()
                st.become(self.join(co + [st.copy()], self.key(anchor, "u")))
                breaks += br
            self.ctx = saved
            if orelse and not st.dead:
                self.block(st, fr, orelse)
            if breaks:
                st.become(self.join(breaks + [st.copy()], self.key(anchor, "ub")))
            return
        if exact is not None and getter is None:
            l = self.alloc(st, self.summ(st, Lst(tuple(exact), None, None, None, None, ())), self.key(anchor, "itl"))
            n, getter, _ = self.iter_shape(st, l, anchor)
        loopid = self.key(anchor, tag)
        ivar = t._new("sym", ("i:%s" % (loopid,),), nd=0)
        if isinstance(it, BExt) and it.name == "#range" and n is not None:
            pass

        def iteration(h):
            ex = h.copy()
            v = getter(h, ivar)
            self.assign(h, fr, target, v, anchor)
            fr.loops.append(([], []))
            if not h.dead:
                body(h)
            br, co = fr.loops.pop()
            back = self.join(co + [h], self.key(anchor, "back"))
            return back, br, ex, (ivar, n)
        self.loop(st, fr, anchor, iteration, orelse, loopid)

    loop_hook = None

    def loop(self, st, fr, node, iteration, orelse, loopid=None):
        loopid = loopid or self.key(node, "while")
        s0 = st.copy()
        basepc = st.pc
        mark = len(self.events)
        L = Lifter(self, loopid, s0)
        self.inloop += 1
        t.LOOPS.append(loopid)
        back = br = ex = info = None
        gh = s0.gh
        for rnd in range(25):
            del self.events[mark:]
            h = L.head()
            h.pc = basepc
            h.gh = gh
            h0 = h.copy()
            nret = len(fr.returns)
            if self.loop_hook is not None:
                self.loop_hook("start", loopid)
            back, br, ex, info = iteration(h)
            going = back.pc
            back.pc = basepc
            more = L.update(h0, back, rnd)
            if not back.dead and not back.gh <= gh:
                gh |= back.gh
                continue
            if not more:
                break
        else:
            self.note("loop did not stabilise", node)
        self.inloop -= 1
        t.LOOPS.pop()
        if self.loop_hook is not None:
            self.loop_hook("end", loopid, node=node, fr=fr, base=basepc, back=back, going=going, exhausted=ex, breaks=br, returns=[r[0] for r in fr.returns[nret:]],
                           events=self.events[mark:], counted=info is not None)
        if info is not None and not back.dead:
            self.map_exit(L, h0, back, ex, info, bool(br), node)
        if not back.dead and not ex.dead:
            self.leak(L, fr, node, back, ex)
        brk = t.sym("brk:%s" % (loopid,), nd=0)
        outs = []
        if not ex.dead:
            ex.pc = basepc + ((brk, False),) if br else basepc
            if orelse:
                self.block(ex, fr, orelse)
            outs.append(ex)
        for b in br:
            b.pc = basepc + ((brk, True),) + b.pc[len(basepc):]
        # several breaks: join them first
        if br:
            bj = self.join(br, self.key(node, "brk"))
            if not bj.dead:
                bj.pc = basepc + ((brk, True),)
                outs.append(bj)
        st.become(self.join(outs, self.key(node, "exit")))
        if not st.dead:
            st.pc = basepc

    def leak(self, L, fr, node, back, ex):
        """names first bound inside a loop and read after it hold what the last pass left"""
        fn = getattr(fr.fi, "node", None)
        end = getattr(node, "end_lineno", None)
        if fn is None or end is None or not isinstance(node, (ast.For, ast.While)):
            return
        fb, fe = back.frames.get(fr.fid), ex.frames.get(fr.fid)
        if fb is None or fe is None:
            return
        later = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.lineno > end}
        names = [n for n in fb if n not in fe and n in later]
        if not names:
            return
        L.var = {("leak", fr.fid, n): (S(t.top("undefined " + n)), fb[n], back) for n in names}
        for mode in ("collect", "build"):
            L.mode = mode
            L.H = ex
            L.pending, L.moved = [], {}
            if mode == "collect":
                L.tinfo = {}
            else:
                for p in L.tinfo:
                    L.cls[p] = ("leak", p)
                L.links = {}
            for slot, (e, b, bst) in L.var.items():
                v = L.lift(slot, e, b, bst)
                if mode == "build":
                    fe[slot[2]] = v
            L.share()

    def map_exit(self, L, h0, back, ex, info, has_break, node):
        """for-loops: arrays whose row i is replaced in iteration i become map(...)"""
        ivar, n = info
        # in iteration i, row i of an array whose rows are only replaced in their own iteration still has its entry value
        first = []
        for oid, r in ex.heap.items():
            rb = back.heap.get(oid)
            if rb is not None and type(rb) is type(r) and isinstance(r, (Arr, Lst)) and r.term is not None and rb.term is not None \
                    and rb.term.op == "upd" and rb.term.args[0] is r.term and rb.term.args[1] is ivar and L.entry_of(r.term) is not None:
                first.append((t.row(r.term, ivar), t.row(L.entry_of(r.term), ivar)))
        for oid, r in list(ex.heap.items()):
            rb = back.heap.get(oid)
            if rb is None or type(rb) is not type(r) or not isinstance(r, (Arr, Lst)) or (isinstance(r, Lst) and r.items is not None):
                continue
            if rb.term is r.term or r.term is None:
                continue
            e = L.entry_of(r.term)
            if e is None:
                continue
            b = rb.term
            if isinstance(r, Lst) or True:
                # append pattern
                if b.op == "cat" and b.args[0] is r.term and len(b.args) == 2 and b.args[1].op == "list" and len(b.args[1].args) == 1:
                    bodyt = b.args[1].args[0]
                    if not t.contains(bodyt, r.term):
                        m = t.mk_map(ivar, bodyt)
                        if n is not None and m.org is None and m.op in ("map", "rept"):
                            m.org = n
                        new = m if (e.op == "list" and not e.args) else t.cat(e, m)
                        ex.heap[oid] = r._replace(term=new, **({"ek": rb.ek, "ocls": rb.ocls, "elem": rb.elem} if isinstance(r, Lst) else {}))
                        if not has_break:
                            L.subst_links(ex, r.term, new)
                        continue
            if b.op == "upd" and b.args[0] is r.term and b.args[1] is ivar:
                v = b.args[2]
                own = t.row(r.term, ivar)
                v2 = t.subst(v, own, t.row(e, ivar)) if t.contains(v, r.term) else v
                for a_, b_ in first:
                    if a_.op == "row":
                        v2 = t.subst(v2, a_, b_)
                ln = t.length(e)
                covers = n is not None and not has_break and (ln is n or ln is None and (n.op == "call" and n.args[0] == "len" and self.same_len(n.args[1], e)) or e.op == "fill" and ln is None)
                if covers and not t.contains(v2, r.term):
                    m = t.mk_map(ivar, v2)
                    if m.op in ("map", "rept") and m.org is None:
                        m.org = n
                    new = m
                elif covers:
                    new = t._new("mapx", (L.loopid, v2), feas=v.feas, nd=r.term.nd, unit=v.unit)
                else:
                    continue
                ex.heap[oid] = r._replace(term=new, **({"ek": rb.ek, "ocls": rb.ocls} if True else {}))
                L.subst_links(ex, r.term, new)

    def same_len(self, a, b):
        def root(x):
            while True:
                if x.op in ("upd", "chk", "rep"):
                    x = x.args[0]
                elif x.op == "lphi":
                    x = x.args[2]
                elif x.op == "E" and x.args[0] == 2:
                    x = x.args[1]
                elif x.op == "col":
                    x = x.args[0]
                else:
                    return x
        return root(a) is root(b)

    # ---- calls -------------------------------------------------------------------------------------------
    def e_Call(self, st, fr, e):
        f = self.expr(st, fr, e.func)
        if isinstance(f, Ext) and f.name == "super":
            if e.args:
                c = self.expr(st, fr, e.args[0])
                o = self.expr(st, fr, e.args[1])
                return SuperV(c.ci, o) if isinstance(c, Cls) else self.topv("super", e)
            a = fr.fi.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            return SuperV(fr.fi.cls, st.frames[fr.fid][names[0]])
        args, kw = [], {}
        maybe, op = set(), False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(st, fr, a.value)
                its = self.exact_items(st, v)
                if its is None:
                    op = True
                    if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Arr):
                        self.note("starred array", e)
                else:
                    args += its
            else:
                v = self.expr(st, fr, a)
                args.append(v)
        for k in e.keywords:
            v = self.expr(st, fr, k.value)
            if k.arg is None:
                for l in vleaves(v):
                    r = st.heap.get(l.oid) if isinstance(l, Ref) else None
                    if isinstance(r, Dct):
                        for kk, vv in r.entries:
                            if kk in kw and not isinstance(v, PhiV):
                                self.ev("dup_kw", e, name=kk)
                            kw[kk] = vv
                            if kk in r.maybe:
                                maybe.add(kk)
                        op |= r.open
                    else:
                        op = True
            else:
                if k.arg in kw:
                    self.ev("dup_kw", e, name=k.arg)
                kw[k.arg] = v
        if st.dead:
            return BOT
        return self.call(st, f, args, kw, e, maybe, op)

    def call(self, st, f, args, kw, node, maybe=frozenset(), open_=False):
        if st.dead:
            return BOT
        f = self.prune(st, f)
        if isinstance(f, Bot):
            return BOT
        if isinstance(f, PhiV):
            a, b = st.copy(), st.copy()
            saved = self.ctx
            self.assume(a, f.c, True)
            self.ctx = saved + (("ft",),)
            va = self.call(a, f.a, args, kw, node, maybe, open_) if not a.dead else BOT
            self.assume(b, f.c, False)
            self.ctx = saved + (("ff",),)
            vb = self.call(b, f.b, args, kw, node, maybe, open_) if not b.dead else BOT
            self.ctx = saved
            if isinstance(va, S):
                va = self.mat(a, va, self.key(node, "fa"))
            if isinstance(vb, S):
                vb = self.mat(b, vb, self.key(node, "fb"))
            st.become(self.join([a, b], self.key(node, "fork")))
            return joinv(f.c, va, vb)
        if isinstance(f, Fn):
            return self.call_fn(st, f.fi, args, kw, node, f.fid, maybe, open_)
        if isinstance(f, BM):
            return self.call_fn(st, f.fi, [f.obj] + list(args), kw, node, None, maybe, open_)
        if isinstance(f, Cls):
            return self.instantiate(st, f.ci, args, kw, node, maybe, open_)
        if isinstance(f, Part):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(st, f.f, list(f.args) + list(args), k2, node)
        if isinstance(f, Ext):
            m = self.models.get(f.name)
            if m is None:
                short = f.name
                for p in ("numpy.", "math.", "builtins."):
                    if short.startswith(p):
                        short = short[len(p):]
                m = self.models.get(short)
            if m is not None:
                return m(self, st, args, kw, node)
            self.ev("ext_unknown", node, name=f.name)
            self.note("unmodelled call " + f.name, node)
            return S(t.top("call " + f.name))
        if isinstance(f, BExt):
            if isinstance(f.obj, Ref) and isinstance(st.heap.get(f.obj.oid), Obj) and f.name in self.methmodels and isinstance(st.heap[f.obj.oid].ci, str):
                return self.methmodels[f.name](self, st, f.obj, args, kw, node)
            return self.call_method(st, f.obj, f.name, args, kw, node)
        if isinstance(f, Ref):
            r = st.heap.get(f.oid)
            if isinstance(r, Obj) and isinstance(r.ci, ClassInfo):
                fi = r.ci.find("__call__")
                if fi:
                    return self.call_fn(st, fi, [f] + list(args), kw, node, None, maybe, open_)
        if isinstance(f, S) and f.t.op == "sym":
            self.ev("call_unknown", node, name=f.t.args[0], args=args)
            # user supplied callable: numeric result
            for a in args:
                if isinstance(a, (Ref, View)) and isinstance(st.heap.get(a.oid), Arr):
                    pass
            return S(t.draw(self.key(node, "ucall"), "usercall", None))
        return self.topv("call of " + type(f).__name__, node)

    def call_method(self, st, o, name, args, kw, node):
        o = self.prune(st, o)
        if isinstance(o, PhiV):
            return self.call(st, PhiV(o.c, BExt(o.a, name), BExt(o.b, name)), args, kw, node)
        if isinstance(o, Bot) or o == S(t.NONE):
            return BOT
        m = self.methmodels.get(name)
        if isinstance(o, RngV):
            from . import models
            return models.rng_call(self, st, o, name, args, kw, node)
        if isinstance(o, Ref):
            r = st.heap.get(o.oid)
            if isinstance(r, Obj):
                v = self.get_attr(st, o, name, node)
                if not (isinstance(v, S) and v.t.top):
                    return self.call(st, v, args, kw, node)
        if isinstance(o, SuperV):
            if name in ("__init__", "__setattr__", "__init_subclass__"):
                return S(t.NONE)
            self.ev("no_attr", node, cls="super", name=name)
            return self.topv("super()." + name, node)
        if m is not None:
            return m(self, st, o, args, kw, node)
        self.note("unmodelled method " + name, node)
        return S(t.top("method " + name))

    def instantiate(self, st, ci, args, kw, node, maybe=frozenset(), open_=False):
        for b in ci.ext_bases():
            if "Enum" in b:
                return S(t.sym("enum:%s" % ci.name, nd=None))
            if "Exception" in b:
                return S(t.sym("exc", nd=None))
        oid = ("o",) + self.key(node, "new:" + ci.name)
        st.heap[oid] = Obj(ci, {}, None, ())
        fi = ci.find("__init__")
        if fi is not None:
            self.call_fn(st, fi, [Ref(oid)] + list(args), kw, node, None, maybe, open_)
        if st.dead:
            return BOT
        return Ref(oid)

    # primitives: qualname -> handler(interp, st, args(list incl self), kw, node)
    prims = {}
    post = {}

    def call_fn(self, st, fi, args, kw, node, fid=None, maybe=frozenset(), open_=False):
        h = self.prims.get((fi.module.name, fi.qual))
        if h is None and fi.module.name == "niapy.util.repair":
            h = self.prims.get(("niapy.util.repair", "*"))
        if h is not None:
            bound = self.bind(st, fi, args, kw, node, maybe, open_, quiet=False)
            if fi.module.name == "niapy.util.repair":
                return h(self, st, bound, node, fi)
            return h(self, st, bound, node)
        depth = sum(1 for f, _ in self.stack if f is fi)
        if depth >= 2 or len(self.stack) > self.MAXDEPTH:
            self.cut += 1
            self.ev("recursion", node, fn=fi.qual)
            st.dead = False
            return BOT
        self.nfn.add(fi)
        pos = (fi.path, fi.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        saved = self.ctx
        self.ctx = saved + (pos,)
        nf = ("fr", self.ctxid())
        tail, self.tail = self.tail, None
        self.parents[nf] = fid
        bound = self.bind(st, fi, args, kw, node, maybe, open_)
        st.frames[nf] = {k: (self.mat(st, v, self.key(node, "arg:" + k)) if isinstance(v, S) else v) for k, v in bound.items()}
        fr = Frame(fi, nf)
        self.stack.append((fi, node))
        basepc = st.pc
        pre = None
        hook = self.pre_hook
        if hook:
            hook(self, st, fi, bound, node)
        saveloop, self.inloop = self.inloop, 0
        for k, v in list(st.frames[nf].items()):
            pass
        self.inloop = saveloop
        self.block(st, fr, fi.node.body)
        if not st.dead:
            fr.returns.append((st.copy(), S(t.NONE)))
        outs = fr.returns
        if not outs:
            st.dead = True
            self.stack.pop()
            self.ctx = saved
            return BOT
        if self.ret_hook is not None:
            self.ret_hook(self, fi, outs)
            if tail is not None and tail[0] is node and tail[1] == saved:
                for s2, v in outs:
                    s2 = s2.copy()
                    s2.frames.pop(nf, None)
                    tail[2].append((s2, v))
        # join return values through a pseudo variable so that gating is shared
        for s2, v in outs:
            s2.frames[nf] = {"#ret": v if len(outs) == 1 else self.mat(s2, v, self.key(node, "ret"))}
        j = self.join([s2 for s2, _ in outs], self.key(node, "retj"))
        if j.dead:
            st.dead = True
            self.stack.pop()
            self.ctx = saved
            return BOT
        rv = j.frames[nf]["#ret"]
        if not any(isinstance(x, Fn) and x.fid == nf for x in vleaves(rv)):
            j.frames.pop(nf, None)
        j.pc = basepc
        st.become(j)
        ph = self.post_hook
        if ph:
            rv = ph(self, st, fi, bound, rv, node) or rv
        self.stack.pop()
        self.ctx = saved
        return rv

    pre_hook = None
    post_hook = None
    ret_hook = None

    def bind(self, st, fi, args, kw, node, maybe=frozenset(), open_=False, quiet=False):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = dict(kw)
        args = list(args)
        for n in pos:
            if args:
                if n in kw and n not in [x.arg for x in a.posonlyargs]:
                    self.ev("dup_arg", node, fn=fi.qual, name=n)
                    kw.pop(n)
                out[n] = args.pop(0)
        if args:
            if a.vararg:
                out[a.vararg.arg] = Tup(tuple(args))
            else:
                self.ev("too_many_args", node, fn=fi.qual, n=len(args))
        elif a.vararg:
            out[a.vararg.arg] = Tup(())
        dm = {}
        defs = a.defaults
        for n, d in zip(pos[len(pos) - len(defs):], defs):
            dm[n] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dm[x.arg] = d
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n in out:
                continue
            if n in kw:
                v = kw.pop(n)
                if n in maybe:
                    self.ev("key_soft" if n in dm else "key_maybe", node, key=n, fn=fi.qual, guarded=bool(self.guards))
                    if n in dm:
                        v = joinv(t.sym("has:%s" % n, nd=0), v, self.default(fi, dm[n]))
                out[n] = v
            elif n in dm:
                out[n] = self.topv("open call", node) if open_ and False else self.default(fi, dm[n])
            else:
                if not open_:
                    self.ev("missing_arg", node, fn=fi.qual, name=n)
                out[n] = S(t.top("missing argument " + n))
        if a.kwarg:
            out[a.kwarg.arg] = self.new_dict(st, kw.items(), self.key(node, "kw:" + fi.qual), maybe & set(kw), open_)
        elif kw:
            for n in kw:
                self.ev("unexpected_kw", node, fn=fi.qual, name=n)
        return out

    def default(self, fi, node):
        if isinstance(node, ast.Constant):
            return S(t.const(node.value))
        v = self.global_expr(fi.module, node, "default")
        if isinstance(v, S) and v.t.op == "sym" and v.t.args[0].endswith(".default"):
            # e.g. np.pi, -1.0 handled by literal_eval; anything else by a dummy evaluation
            try:
                s = State()
                f = Frame(fi, ("dflt",))
                s.frames[f.fid] = {}
                v = self.expr(s, f, node)
                if isinstance(v, Ref):
                    return S(t.sym("default:%s" % ast.unparse(node), nd=None))
            except Exception:
                pass
        return v


class Lifter:
    """loop-head state construction: which slots vary, with congruence classes and E-links"""

    def __init__(self, I, loopid, s0):
        self.I, self.loopid, self.s0 = I, loopid, s0
        self.var = {}        # slot -> (entry Val/rec, back Val/rec, back state)
        self.cls = {}        # term path -> class id
        self.tinfo = {}      # term path -> (entry, back)
        self.links = {}      # path -> (g, partner path)
        self.banned = set()
        self.built = {}      # lphi term -> entry
        self.sig = None
        self.mode = "build"
        self.H = s0

    def entry_of(self, term):
        return self.built.get(term)

    def subst_links(self, st, old, new):
        """replace old (a loop phi) inside E-linked companions"""
        for oid, r in list(st.heap.items()):
            if isinstance(r, (Arr, Lst)) and r.term is not None and r.term is not new and r.term is not old and r.term.op in ("E", "col"):
                if t.contains(r.term, old) and not t.contains(new, old):
                    st.heap[oid] = r._replace(term=t.subst(r.term, old, new))

    # -- building -------------------------------------------------------------------------------------
    def head(self):
        if not self.var:
            return self.s0.copy()
        I = self.I
        # phase 1: collect
        self.mode = "collect"
        old = self.tinfo
        self.tinfo = {}
        self._build()
        # phase 2: classes and links
        self._classify(old)
        # phase 3
        self.mode = "build"
        return self._build()

    def _build(self):
        h = self.s0.copy()
        self.H = h
        self.pending, self.moved = [], {}
        for slot, (e, b, bst) in sorted(self.var.items(), key=lambda kv: repr(kv[0])):
            if slot[0] == "v":
                _, fid, n = slot
                h.frames[fid][n] = self.lift(slot, e, b, bst)
            else:
                oid = slot[1]
                h.heap[oid] = self.lift_rec(slot, e, b, bst)
        self.share()
        return h

    def share(self):
        """what the storage of the loop-carried arrays may be shared with, in terms of the loop head"""
        for oid, al in self.pending:
            out = []
            for (o, i, org) in al:
                for o2 in (o, self.moved.get(o)):
                    if o2 is not None and o2 != oid and o2 in self.H.heap and (o2, i, org) not in out:
                        out.append((o2, i, org))
            if out and isinstance(self.H.heap.get(oid), Arr):
                self.H.heap[oid] = self.H.heap[oid]._replace(alias=tuple(out))

    def _classify(self, old):
        # congruence classes: refine by (previous class, back term)
        newcls = {}
        groups = {}
        for p, (e, b) in self.tinfo.items():
            prev = self.cls.get(p)
            if prev is None:
                prev = ("e", e)
            groups.setdefault((prev, e, b), []).append(p)
        seen = {}
        for (prev, e, b), ps in groups.items():
            seen.setdefault((prev, e), []).append((b, ps))
        for (prev, e), lst in seen.items():
            if len(lst) == 1:
                for p in lst[0][1]:
                    newcls[p] = prev
            else:
                lst.sort(key=lambda x: repr(sorted(map(repr, x[1]))))
                for k, (b, ps) in enumerate(lst):
                    for p in ps:
                        newcls[p] = (prev, repr(sorted(map(repr, ps))[0]))
        self.cls = newcls
        # E-links
        links = {}
        byE = {}
        for p, (e, b) in self.tinfo.items():
            if e.nd in (1, 2, None, "o1") and not t.is_const(e):
                for g in (1, 2):
                    if (g == 1 and e.nd in (1, None)) or (g == 2 and e.nd in (2, None)):
                        byE.setdefault(t.E(g, e), []).append((g, p))
                if e.nd in ("o1", None) and (e.op in ("map", "cat", "list", "upd", "lphi", "phi", "row") or e.nd == "o1"):
                    byE.setdefault(t.col(e, "f"), []).append(("f", p))
            if e is t.NONE:
                byE.setdefault(t.INF, []).append((1, p))
        for p, (e, b) in sorted(self.tinfo.items(), key=lambda kv: repr(kv[0])):
            for g, q in byE.get(e, ()):
                if q == p or (p, q) in self.banned:
                    continue
                if q in links:
                    continue
                eb = self.tinfo[q][1]
                want = t.col(eb, "f") if g == "f" else t.E(g, eb)
                if not t.same(want, b):
                    if p in self.links and self.links[p][1] == q or p in self.everlinked:
                        self.banned.add((p, q))
                        continue
                    if self.rounds > 1:
                        self.banned.add((p, q))
                        continue
                links[p] = (g, q)
                break
        self.links = links

    everlinked = frozenset()
    rounds = 0

    def term(self, path, e, b):
        if self.mode == "collect":
            self.tinfo[path] = (e, b)
            return e
        lk = self.links.get(path)
        if lk is not None:
            g, q = lk
            base = self._lphi(q)
            r = t.col(base, "f") if g == "f" else t.E(g, base)
            self.built.setdefault(r, e)
            return r
        return self._lphi(path)

    def _lphi(self, path):
        e, b = self.tinfo[path]
        c = self.cls[path]
        mem = [p for p in self.tinfo if self.cls[p] == c and self.tinfo[p][0] is e]
        feas = t.meet(*[t.meet(e.feas if e is not t.NONE else "P", self.tinfo[p][1].feas if self.tinfo[p][1] is not t.NONE else "P") for p in mem])
        rep = min(mem, key=repr)
        nd = e.nd if e.nd == b.nd else (b.nd if e is t.NONE or (e.op == "list" and not e.args) else e.nd if b is t.NONE else None)
        unit = all(self.tinfo[p][0].unit and (self.tinfo[p][1].unit) for p in mem)
        topf = False
        pr = (e.nd == "o1" or b.nd == "o1" or e.nd == "o0") and t.paired(e) and t.paired(b)
        l = t.lphi(self.loopid, rep, e, feas, nd, unit, topf, 0, pr)
        le, lb = t.length(e), t.length(b)
        rb = b
        while rb.op in ("upd", "chk", "rep"):
            rb = rb.args[0]
        if le is not None and l.org is None and (le is lb or lb is None and rb.op == "lphi" and (rb is b or rb.args[0] == self.loopid and rb.args[1] == rep)):
            l.org = le
        elif l.org is not None and lb is not None and lb is not l.org:
            l.org = None
        t.DEFS[l] = [e, b]
        self.built[l] = e
        return l

    def lift(self, path, e, b, bst):
        I, s0 = self.I, self.s0
        if e == b and not isinstance(e, (Ref, View, PhiV)):
            return e
        if isinstance(e, Ref) and e == b and ("h", e.oid) not in self.var and e.oid in s0.heap and bst.heap.get(e.oid) == s0.heap[e.oid]:
            return e
        if isinstance(e, Bot):
            return b if isinstance(b, S) else e
        if isinstance(b, Bot):
            return e
        if isinstance(e, S) and isinstance(b, S):
            return S(self.term(path, e.t, b.t))
        if path[0] == "leak" and e == S(e.t) and e.t.op == "top":
            k = self.kind(bst, b)
            if isinstance(b, Tup):
                return Tup(tuple(self.lift(path + (k,), e, y, bst) for k, y in enumerate(b.items)))
            if k in ("arr", "obj", "list") and not isinstance(b, PhiV):
                return self.lift_obj(path, e, b, bst, k)
            if k in ("arr", "scalar"):
                return S(self.term(path, e.t, I.content(bst, b)))
            return b if self.mode == "build" and not isinstance(b, (Ref, View, PhiV)) else e
        ke, kb = self.kind(s0, e), self.kind(bst, b)
        if isinstance(e, Tup) and isinstance(b, Tup) and len(e.items) == len(b.items):
            return Tup(tuple(self.lift(path + (k,), x, y, bst) for k, (x, y) in enumerate(zip(e.items, b.items))))
        if ke == "none" and kb in ("arr", "obj", "list"):
            q = t.sym("none?%s%s" % (self.loopid, path), nd=0)
            # optional value: keep pairing by lifting content with NONE entry
            v = self.lift_obj(path, e, b, bst, kb)
            return PhiV(q, e, v)
        if kb == "none" and ke in ("arr", "obj", "list"):
            q = t.sym("none?%s%s" % (self.loopid, path), nd=0)
            return PhiV(q, b, self.lift_obj(path, e, e, s0, ke))
        if ke == kb and ke in ("arr", "obj", "list", "dict"):
            return self.lift_obj(path, e, b, bst, ke)
        if {ke, kb} <= {"arr", "list", "scalar", "num"} and (isinstance(e, S) or isinstance(b, S) or ke != kb):
            return S(self.term(path, I.content(s0, e), I.content(bst, b)))
        if isinstance(e, PhiV) and ke is None or isinstance(b, PhiV) and kb is None:
            es, bs = vleaves(e), vleaves(b)
            # optional arrays / objects
            en = [x for x in es if x != S(t.NONE)]
            bn = [x for x in bs if x != S(t.NONE)]
            kk = {self.kind(s0, x) for x in en} | {self.kind(bst, x) for x in bn}
            if len(kk) == 1 and list(kk)[0] in ("arr", "obj", "list"):
                k = list(kk)[0]
                q = t.sym("none?%s%s" % (self.loopid, path), nd=0)
                if bn:
                    y = prune_none(b)
                    x = en[0] if en else S(t.NONE)
                    return PhiV(q, S(t.NONE), self.lift_obj(path, x if not isinstance(x, PhiV) else x, y, bst, k))
        kk = {self.kind(s0, x) for x in vleaves(e)} | {self.kind(bst, x) for x in vleaves(b)}
        if kk <= {"arr", "scalar", "list", "num", "none"} and not any(isinstance(x, Tup) for x in vleaves(e) + vleaves(b)):
            return S(self.term(path, I.content(s0, e), I.content(bst, b)))
        if self.mode == "collect":
            return e
        if isinstance(e, (Fn, Cls, Ext, BM)) and isinstance(b, (Fn, Cls, Ext, BM)):
            return PhiV(t.sym("fn?%s%s" % (self.loopid, path), nd=0), e, b)
        if isinstance(e, RngV) and isinstance(b, RngV):
            return joinv(t.TRUE, e, b) if e == b else (b if b.tag == "unseeded" else e)
        I.note("loop-carried value of mixed kind %s/%s at %s" % (type(e).__name__, type(b).__name__, t.pathname(path)))
        return S(t.top("mixed loop value"))

    def kind(self, st, v):
        if isinstance(v, S):
            return "none" if v.t is t.NONE else "arr" if v.t.nd in (1, 2) and v.t.op != "slice" else "scalar"
        if isinstance(v, View):
            return "arr"
        if isinstance(v, Ref):
            r = st.heap.get(v.oid)
            return {Arr: "arr", Lst: "list", Dct: "dict", Obj: "obj"}.get(type(r))
        if isinstance(v, PhiV):
            ks = {self.kind(st, x) for x in vleaves(v)}
            return ks.pop() if len(ks) == 1 else None
        return None

    def aliases(self, st, v, path):
        """storage of v that something else in st also refers to"""
        out = []
        for l in vleaves(v):
            if isinstance(l, View):
                out.append((l.oid, l.idx, None))
            elif isinstance(l, Ref):
                n = 0
                for fid, fr in st.frames.items():
                    for k, x in fr.items():
                        for y in vleaves(x):
                            if isinstance(y, (Ref, View)) and y.oid == l.oid:
                                n += 1
                for o, r in st.heap.items():
                    if isinstance(r, Obj):
                        for x in r.attrs.values():
                            for y in vleaves(x):
                                if isinstance(y, (Ref, View)) and y.oid == l.oid:
                                    n += 1
                    elif isinstance(r, Lst) and r.items:
                        n += sum(1 for x in r.items if isinstance(x, (Ref, View)) and x.oid == l.oid)
                    elif isinstance(r, Dct):
                        n += sum(1 for _, x in r.entries for y in vleaves(x) if isinstance(y, (Ref, View)) and y.oid == l.oid)
                r = st.heap.get(l.oid)
                if isinstance(r, Arr):
                    out.extend(r.alias)
                if n > 1:
                    out.append((l.oid, (), None))
        return out

    def lift_obj(self, path, e, b, bst, kind):
        I, s0 = self.I, self.s0
        oid = ("L", self.loopid, path)
        gone = path[0] == "leak"
        enone = e == S(t.NONE) or gone
        if kind == "arr":
            te = e.t if gone and isinstance(e, S) else t.NONE if enone else I.content(s0, e)
            tb = I.content(bst, b)
            term = self.term(path + ("c",), te, tb)
            if self.mode == "collect":
                return e
            fix = lambda i: tuple(x if not self.stale(x) else t.sym("anyidx", nd=0) for x in i)
            al, inherited = [], set()
            for (o, i, org) in [] if enone else self.aliases(s0, e, path):
                inherited.add((o, fix(i), org))
                al.append((o, fix(i), org or oid))
            for (o, i, org) in self.aliases(bst, b, path):
                if o != oid:
                    # sharing established inside this loop is sharing across its passes
                    al.append((o, fix(i), org if (o, fix(i), org) in inherited else oid))
            self.pending.append((oid, tuple(dict.fromkeys(al))))
            if isinstance(e, Ref):
                self.moved.setdefault(e.oid, oid)
            if isinstance(b, Ref):
                self.moved.setdefault(b.oid, oid)
            ek, oc = "num", None
            for st_, v in ((s0, e), (bst, b)):
                for l in vleaves(v):
                    if isinstance(l, Ref) and isinstance(st_.heap.get(l.oid), Arr):
                        r = st_.heap[l.oid]
                        if r.ek == "obj":
                            ek, oc = "obj", r.ocls
            self.H.heap[oid] = arr(term, ek, oc, (), ())
            return Ref(oid)
        if kind == "list":
            rb = self.list_rec(bst, b)
            re = rb if enone else self.list_rec(s0, e)
            if re.items is not None and rb.items is not None and len(re.items) == len(rb.items) and not enone and all(
                    isinstance(x, S) or self.kind(s0, x) == self.kind(bst, y) for x, y in zip(re.items, rb.items)):
                its = tuple(self.lift(path + (k,), x, y, bst) for k, (x, y) in enumerate(zip(re.items, rb.items)))
                if self.mode == "collect":
                    return e
                self.H.heap[oid] = Lst(its, None, None, None, None, ())
                return Ref(oid)
            se, sb = I.summ(s0, re), I.summ(bst, rb)
            term = self.term(path + ("c",), e.t if gone else t.NONE if enone else se.term, sb.term)
            if self.mode == "collect":
                return e
            ek = se.ek if sb.ek in (None, se.ek) else sb.ek if se.ek is None else "val"
            elem = None
            if ek == "val":
                elem = se.elem if sb.elem is None else sb.elem if se.elem is None or se.elem == sb.elem else self.lift(path + ("e",), se.elem, sb.elem, bst)
                if self.I_has_dangling(elem):
                    elem = S(t.top("list element"))
            if isinstance(e, Ref):
                self.moved.setdefault(e.oid, oid)
            if isinstance(b, Ref):
                self.moved.setdefault(b.oid, oid)
            self.H.heap[oid] = Lst(None, term, ek, se.ocls or sb.ocls, elem, ())
            return Ref(oid)
        if kind == "dict":
            rb = self.rec1(bst, b)
            re = self.rec1(s0, e)
            de, db = dict(re.entries), dict(rb.entries)
            ents, maybe = [], set(re.maybe) | set(rb.maybe)
            for k in list(de) + [k for k in db if k not in de]:
                if k in de and k in db:
                    ents.append((k, self.lift(path + (k,), de[k], db[k], bst)))
                elif k in de:
                    maybe.add(k)
                    ents.append((k, de[k]))
                else:
                    maybe.add(k)
                    ents.append((k, self.lift(path + (k,), db[k], db[k], bst) if not isinstance(db[k], S) else db[k]))
            if self.mode == "collect":
                return e
            self.H.heap[oid] = Dct(tuple(ents), frozenset(maybe), re.open or rb.open)
            return Ref(oid)
        if kind == "obj":
            robs = [bst.heap[l.oid] for l in vleaves(b) if isinstance(l, Ref)]
            roes = [] if enone else [s0.heap[l.oid] for l in vleaves(e) if isinstance(l, Ref)]
            ci = robs[0].ci
            names = []
            for st_, r in [(s0, r) for r in roes] + [(bst, r) for r in robs]:
                names += [n for n in r.attrs if n not in names]
            if any(r.src is not None for r in robs + roes):
                names += [n for n in ("x", "f") if n not in names]
            at = {}
            for n in names:
                vb = self.attr_val(bst, b, n)
                ve = e if gone else S(t.NONE if n == "x" else t.INF if n == "f" else t.NONE) if enone else self.attr_val(s0, e, n)
                if vb is None or ve is None:
                    continue
                at[n] = self.lift(path + (n,), ve, vb, bst) if gone or not enone else self.lift_none(path + (n,), ve, vb, bst)
            if self.mode == "collect":
                return e
            esc = []
            for r in roes + robs:
                for (c, i) in r.esc:
                    if c in self.H.heap:
                        esc.append((c, t.sym("anyidx", nd=0)))
            self.H.heap[oid] = Obj(ci, at, None, tuple(dict.fromkeys(esc)))
            return Ref(oid)
        return S(t.top("lift"))

    def lift_none(self, path, ve, vb, bst):
        k = self.kind(bst, vb)
        if k == "arr":
            return self.lift_obj(path, S(t.NONE), vb, bst, "arr")
        if isinstance(vb, S):
            return S(self.term(path, ve.t, vb.t))
        return self.lift(path, vb, vb, bst)

    def I_has_dangling(self, v):
        return any(isinstance(l, (Ref, View)) and l.oid not in self.H.heap for l in vleaves(v)) if v is not None else False

    def stale(self, idx):
        return not (t.is_const(idx) or idx.op == "slice")

    def attr_val(self, st, v, n):
        vals = []
        for l in vleaves(v):
            if not isinstance(l, Ref):
                continue
            r = st.heap[l.oid]
            if n in r.attrs:
                vals.append(r.attrs[n])
            elif r.src is not None:
                vals.append(S(t.fld(r.src, n)))
            else:
                return None
        if not vals:
            return None
        if len(vals) == 1:
            return vals[0]
        if isinstance(v, PhiV):
            def go(x):
                if isinstance(x, PhiV):
                    return joinv(x.c, go(x.a), go(x.b))
                if not isinstance(x, Ref):
                    return S(t.NONE)
                r = st.heap[x.oid]
                return r.attrs[n] if n in r.attrs else S(t.fld(r.src, n))
            return go(v)
        return vals[0]

    def rec1(self, st, v):
        rs = [st.heap[l.oid] for l in vleaves(v) if isinstance(l, Ref)]
        r = rs[0]
        for r2 in rs[1:]:
            r = self.I.join_rec(t.sym("rec?", nd=0), r, r2, st, st)
        return r

    def list_rec(self, st, v):
        return self.rec1(st, v)

    def lift_rec(self, slot, e, b, bst):
        """heap record of a pre-existing object changed in the loop"""
        I, s0 = self.I, self.s0
        oid = slot[1]
        if isinstance(e, Arr):
            term = self.term(slot + ("c",), e.term, b.term)
            return Arr(term, b.ek if e.ek != "obj" else e.ek, e.ocls or b.ocls,
                       tuple(x for x in e.esc), e.alias)
        if isinstance(e, Lst):
            if e.items is not None and b.items is not None and len(e.items) == len(b.items):
                its = tuple(x if x == y and not self.changed_ref(x, bst) else self.lift(slot + (k,), x, y, bst) for k, (x, y) in enumerate(zip(e.items, b.items)))
                return Lst(its, None, None, None, None, e.esc)
            se, sb = I.summ(s0, e), I.summ(bst, b)
            ek = se.ek if sb.ek in (None, se.ek) else sb.ek if se.ek is None else "val"
            term = self.term(slot + ("c",), se.term, sb.term)
            elem = None
            if ek == "val":
                elem = se.elem if sb.elem is None else sb.elem if se.elem is None or se.elem == sb.elem else self.lift(slot + ("e",), se.elem, sb.elem, bst)
                if se.elem is None and sb.elem is not None:
                    elem = self.lift(slot + ("e",), sb.elem, sb.elem, bst) if not isinstance(sb.elem, S) else sb.elem
                if self.mode == "build" and self.I_has_dangling(elem):
                    elem = S(t.top("list element"))
            return Lst(None, term, ek, se.ocls or sb.ocls, elem, e.esc)
        if isinstance(e, Dct):
            de, db = dict(e.entries), dict(b.entries)
            ents, maybe = [], set(e.maybe) | set(b.maybe)
            for k in list(de) + [k for k in db if k not in de]:
                if k in de and k in db:
                    ents.append((k, self.lift(slot + (k,), de[k], db[k], bst)))
                elif k in de:
                    maybe.add(k)
                    ents.append((k, de[k]))
                else:
                    maybe.add(k)
                    ents.append((k, self.lift(slot + (k,), db[k], db[k], bst) if not isinstance(db[k], S) else db[k]))
            return Dct(tuple(ents), frozenset(maybe), e.open or b.open)
        if isinstance(e, Obj):
            at = {}
            for n in list(e.attrs) + [n for n in b.attrs if n not in e.attrs]:
                if n in e.attrs and n in b.attrs:
                    at[n] = e.attrs[n] if e.attrs[n] == b.attrs[n] else self.lift(slot + (n,), e.attrs[n], b.attrs[n], bst)
                elif n in e.attrs:
                    at[n] = e.attrs[n]
                else:
                    x = b.attrs[n]
                    at[n] = self.lift(slot + (n,), x, x, bst) if not isinstance(x, S) else x
            src = e.src
            if e.src is not b.src:
                if e.src is not None and b.src is not None:
                    src = self.term(slot + ("src",), e.src, b.src)
                    at = {}
                else:
                    src = None
            return Obj(e.ci, at, src, e.esc)
        return e

    def changed_ref(self, x, bst):
        return False

    # -- update -----------------------------------------------------------------------------------------
    def update(self, h, back, rnd):
        """record varying slots; True when another round is needed"""
        self.rounds = rnd
        if back.dead:
            return False
        changed = False
        for fid, fr in h.frames.items():
            fb = back.frames.get(fid)
            if fb is None:
                continue
            for n, hv in fr.items():
                bv = fb.get(n)
                if bv is None:
                    continue
                slot = ("v", fid, n)
                if slot in self.var or bv != hv:
                    if n not in self.s0.frames.get(fid, {}):
                        continue
                    e = self.s0.frames[fid][n]
                    if slot not in self.var:
                        changed = True
                    self.var[slot] = (e, bv, back)
        for oid, r0 in self.s0.heap.items():
            rb = back.heap.get(oid)
            rh = h.heap.get(oid)
            slot = ("h", oid)
            if rb is None:
                continue
            if slot in self.var or rb != rh:
                if isinstance(r0, Obj) and oid[0] == "f":
                    continue
                if type(rb) is not type(r0):
                    continue
                if slot not in self.var:
                    changed = True
                self.var[slot] = (r0, rb, back)
        # focus objects are re-minted on demand
        for oid in [o for o in self.s0.heap if o[0] == "f"]:
            rb = back.heap.get(oid)
            if rb is not None and rb != self.s0.heap[oid] and not self.referenced(self.s0, oid):
                del self.s0.heap[oid]
                changed = True
        if not self.var:
            return changed
        # would the head change?
        links0 = dict(self.links)
        orgs0 = {l: l.org for l in self.built}
        h2 = self.head()
        if rnd < 12 and any(l.op == "lphi" and l.org is not None and orgs0.get(l, l.org) is None for l in self.built):
            changed = True
        if self.links != links0:
            changed = True
        if changed:
            return True
        return not self.same_state(h, h2)

    def referenced(self, st, oid):
        for fr in st.frames.values():
            for x in fr.values():
                for y in vleaves(x):
                    if isinstance(y, Ref) and y.oid == oid:
                        return True
        return False

    def same_state(self, a, b):
        for fid in a.frames:
            if a.frames[fid] != b.frames.get(fid):
                return False
        for o, r in b.heap.items():
            if a.heap.get(o) != r:
                return False
        return True


def vname(v):
    if isinstance(v, (Fn, BM)):
        return v.fi.module.name + "." + v.fi.qual
    if isinstance(v, Cls):
        return v.ci.name
    if isinstance(v, (Ext, ModV)):
        return v.name
    if isinstance(v, RngV):
        return "rng:" + v.tag
    if isinstance(v, BExt):
        return v.name
    return type(v).__name__


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "isnot",
          ast.In: "in", ast.NotIn: "notin"}
import builtins as _b
BUILTINS = set(dir(_b))
