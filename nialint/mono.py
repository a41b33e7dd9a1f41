"""Decides whether a reported best fitness can be worse than the incumbent: F <= B by case split and loop induction.

Verdicts: T proved, F refuted (some path reports a newly evaluated value that nothing relates to the incumbent), U undecided.
"""
from . import terms as t
from .pairing import Stuck, assume, first_min, fresh, lphis, msubst, spine, undefined, worst

LIMIT = 3000
SIZE = 150000


def literal(c, val):
    """(a, b) with a <= b known from c being val; None when c is no simple ordering"""
    while c.op == "not":
        c, val = c.args[0], not val
    if c.op != "cmp":
        return None
    o, a, b = c.args
    for x, y, sw in ((a, b, False), (b, a, True)):
        # a - b < 0
        if t.is_const(y) and t.cval(y) == 0 and x.op == "bin" and x.args[0] == "-" and x.nd in (0, None):
            a, b = (x.args[2], x.args[1]) if sw else (x.args[1], x.args[2])
            break
    if o in ("<", "<="):
        return [(a, b)] if val else [(b, a)]
    if o in (">", ">="):
        return [(b, a)] if val else [(a, b)]
    if o == "==" and val or o == "!=" and not val:
        return [(a, b), (b, a)]
    return []


def t_subterms(x):
    """subterms, without looking into what is evaluated"""
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        todo.extend(z for z in y.args if isinstance(z, t.T))
    return seen


def infinite(c):
    """asks only whether values are infinite: the others are as free as before"""
    if c.op in ("and", "or", "not"):
        return all(infinite(a) for a in c.args)
    if c.op == "row":
        return infinite(c.args[0])
    if c.op == "call" and c.args[0] in ("any", "all"):
        return len(c.args) == 2 and infinite(c.args[1])
    return c.op == "call" and c.args[0] in ("isinf", "isfinite")


class Mono:
    def __init__(self, o, B, best_x=None):
        self.o, self.B, self.bx = o, B, best_x
        self.n = 0
        self.size0 = len(t._tab)
        self.best = {}
        self.stuck, self.trace, self.why = [], [], None
        self.lid = B.args[0] if B.op == "lphi" else None
        if self.lid is None:
            ls = {l.args[0] for l in lphis(B) if o.lphi(l)}
            self.lid = next(iter(ls)) if len(ls) == 1 else None

    def u(self, why, F):
        if len(self.stuck) < 3:
            self.stuck.append((why, F))
        return "U"

    # facts: tuple of (a, b) meaning a <= b; odd: conditions that are no simple orderings
    def le(self, F, facts=(), odd=(), hyp=(), depth=0, chain=()):
        self.n += 1
        if self.n > LIMIT or depth > 100 or len(t._tab) - self.size0 > SIZE:
            return self.u("budget", F)
        F = t.strip(F)
        if t.same(F, self.B) or F in hyp:
            return "T"
        if undefined(F):
            return "T"
        if F.op == "top" or F.nd not in (0, None):
            return self.u("unmodelled value", F)
        if F is t.INF or F is t.NONE:
            return self.u("constant", F)
        if F.op == "phi":
            return self.gate(F, F.args[0], facts, odd, hyp, depth, chain)
        if F.op == "E" and F.args[0] == 1 and self.bx is not None and t.same(F.args[1], self.bx):
            return "T"
        # what the path knows about F
        for a, b in facts:
            if t.same(a, F) and b not in chain:
                n0 = len(self.stuck)
                r = self.le(b, facts, odd, hyp, depth + 1, chain + (F,))
                if r == "T":
                    return "T"
                del self.stuck[n0:], self.trace[:]
        m = self.minimum(F, facts, odd, hyp, depth, chain)
        if m is not None:
            return m
        if F.op == "lphi" and not self.o.lphi(F):
            return self.unfold(F, facts, hyp, depth, chain)
        if not chain and self.free(F, facts, odd):
            self.why = F
            return "F"
        return self.u("no relation to the incumbent found", F)

    def gate(self, F, c, facts, odd, hyp, depth, chain):
        if c.op == "not":
            return self.gate2(F, c, c.args[0], True, facts, odd, hyp, depth, chain)
        return self.gate2(F, c, c, False, facts, odd, hyp, depth, chain)

    def gate2(self, F, c, base, neg, facts, odd, hyp, depth, chain):
        if base.op in ("and", "or"):
            # split the condition itself
            a = base.args[0]
            r = []
            for val in (True, False):
                if self.excluded(a, val, facts):
                    continue
                f2, o2 = self.learn(a, val, facts, odd)
                G = assume(F, a, val)
                if t.same(G, F):
                    return self.u("condition", F)
                r.append(self.le(G, f2, o2, hyp, depth + 1, chain))
                if r[-1] == "F":
                    self.trace.append((a, val))
                    return "F"
            return worst(*r) if r else "T"
        r = []
        for val in (True, False):
            v = val if not neg else not val
            if self.excluded(base, v, facts):
                continue
            f2, o2 = self.learn(base, v, facts, odd)
            r.append(self.le(assume(F, base, v), f2, o2, hyp, depth + 1, chain))
            if r[-1] == "F":
                self.trace.append((base, v))
                return "F"
        return worst(*r) if r else "T"

    def learn(self, c, val, facts, odd):
        facts = tuple((assume(a, c, val), assume(b, c, val)) for a, b in facts)
        odd = tuple((assume(d, c, val), v) for d, v in odd)
        l = literal(c, val)
        if l is None:
            return facts, odd if infinite(c) and not t.contains(c, self.B) else odd + ((c, val),)
        return facts + tuple(l), odd

    def excluded(self, c, val, facts):
        """c == val contradicts what is known (strict part only)"""
        while c.op == "not":
            c, val = c.args[0], not val
        if c.op != "cmp":
            return False
        o, a, b = c.args
        lo = (a, b, o == "<") if o in ("<", "<=") else (b, a, o == ">") if o in (">", ">=") else None
        if lo is None:
            return False
        x, y, strict = lo
        if not val:
            x, y, strict = y, x, not strict
        # x < y is impossible when y <= x is known
        return strict and any(t.same(p, y) and t.same(q, x) for p, q in facts)

    # -- minima ----------------------------------------------------------------------------------------
    def minimum(self, F, facts, odd, hyp, depth, chain):
        go = lambda x: self.le(x, facts, odd, hyp, depth + 1, chain + ((F,) if F not in chain else ()))
        arr = None
        if F.op == "call" and F.args[0] in ("min", "amin", "minimum", "fmin", "nanmin"):
            xs = [a for a in F.args[1:] if isinstance(a, t.T)]
            if len(xs) == 1:
                arr = xs[0]
            else:
                n0 = len(self.stuck)
                rs = []
                for x in xs:
                    rs.append(go(x))
                    if rs[-1] == "T":
                        del self.stuck[n0:]
                        return "T"
                return "F" if not chain and all(self.free(x, facts, odd) for x in xs) else "U"
        elif F.op == "call" and F.args[0] in ("max", "amax", "maximum"):
            xs = [a for a in F.args[1:] if isinstance(a, t.T)]
            if len(xs) > 1:
                return worst(*[go(x) for x in xs])
        elif F.op == "row" and F.args[1].nd in (0, None):
            f = first_min(F.args[1])
            if f is not None and t.same(f, F.args[0]):
                arr = f
            elif t.is_const(F.args[1]) and t.cval(F.args[1]) == 0 and F.args[0].op == "row" and F.args[0].args[1].op == "call" and F.args[0].args[1].args[0] == "argsort" \
                    and t.same(F.args[0].args[1].args[1], F.args[0].args[0]):
                arr = F.args[0].args[0]
        if arr is None:
            return None
        if arr.op == "phi" and arr.args[0].nd in (0, None):
            return self.gate(F, arr.args[0], facts, odd, hyp, depth, chain)
        n0 = len(self.stuck)
        for x in self.members(arr):
            if go(x) == "T":
                del self.stuck[n0:]
                return "T"
        del self.stuck[n0:]
        if not chain and self.allnew(arr) and all(self.unbound(F, x, facts, odd) for x in self.bases(arr)):
            self.why = F
            return "F"
        return self.u("minimum over values of unknown relation", F)

    def members(self, a, d=0):
        """some members of an array of fitness values"""
        if d > 6:
            return
        if a.op == "cat":
            for x in a.args:
                if x.nd == 0:
                    yield x
                else:
                    yield t.call("min", x, nd=0)
        elif a.op == "list":
            yield from a.args
        elif a.op == "upd" and a.args[2].nd == 0:
            yield a.args[2]

    # -- refutation ------------------------------------------------------------------------------------
    # Witness: the objective may take any value at a point that was never evaluated before, so a freshly drawn point can have any fitness the
    # facts of the path allow.
    def free(self, F, facts, odd, seen=()):
        """F is a value evaluated in this very iteration that the path leaves unbounded from above"""
        if not self.new(F):
            return False
        return self.unbound(F, F, facts, odd, seen)

    def unbound(self, F, key, facts, odd, seen=()):
        """the facts about F (whose evaluations are those of key) do not tie it to the incumbent"""
        if F in seen:
            return False
        for a, b in facts:
            if t.same(a, F):
                if not self.high(b, facts, odd, seen + (F,)):
                    return False
            elif t.same(b, F):
                continue
            elif (self.depends(a, key) or self.depends(b, key)) and not self.chance(a, b):
                return False
        return not any(self.depends(c, key) for c, v in odd)

    def depends(self, x, key):
        """key occurs in x; other attributes of an object that also holds key do not count"""
        seen, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y is key or t.same(y, key):
                return True
            if y in seen:
                continue
            seen.add(y)
            if y.op == "fld" and y.args[0].op == "ind":
                continue
            todo.extend(z for z in y.args if isinstance(z, t.T))
        return False

    def chance(self, a, b):
        """a comparison decided by a random number of its own"""
        return any(x.op == "draw" and x.nd in (0, None) for x in (a, b))

    def drawn(self, x):
        """x depends on draws of this iteration, also through the loops inside the iteration"""
        out, seen, todo = False, set(), [x]
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            if y.op == "draw" and self.lid in t.DRAWL.get(y, ()):
                return True
            if y.op == "lphi":
                if y.args[0] != self.lid and not self.o.lphi(y) and y in t.DEFS:
                    todo.append(t.DEFS[y][1])
                continue
            todo.extend(z for z in y.args if isinstance(z, t.T))
        return False

    def renewed(self, c, d=0, seen=(), hyp=()):
        """a point that differs from every earlier one, whatever the state was (for one choice of the random numbers)"""
        if d > 40 or c.top or self.lid is None:
            return False
        go = lambda x: self.renewed(x, d + 1, seen, hyp)
        o, a = c.op, [z for z in c.args if isinstance(z, t.T)]
        if o == "draw":
            return self.lid in t.DRAWL.get(c, ())
        if o == "phi":
            return (go(a[1]) or go(a[2])) if self.drawn(a[0]) and not t.contains_op(a[0], "E") else go(a[1]) and go(a[2])
        if o in ("rep", "map", "fill"):
            return any(go(z) for z in a[-1:])  if o == "map" else any(go(z) for z in a)
        if o == "bin" and c.args[0] in ("+", "-"):
            return go(a[0]) or go(a[1])
        if o == "bin" and c.args[0] in ("*", "/", "**"):
            return any((go(x) or self.step(x)) and not self.vanishing(y) and not self.vanishing(x) for x, y in (a, a[::-1]))
        if o == "un":
            return any(go(z) for z in a)
        if o == "row":
            return go(a[0])
        if o == "col" and a[0].op == "lphi" and a[0].args[0] != self.lid and not self.o.lphi(a[0]) and a[0] in t.DEFS and c not in seen:
            return self.renewed(t.col(t.DEFS[a[0]][1], c.args[1]), d + 1, seen + (c,), hyp)
        if o == "upd":
            if c.nd != 2:
                return go(a[2]) or go(a[0])
            base = a[0]
            while base.op == "upd":
                base = base.args[0]
            # rows of an array: a loop that renews the rows it visits, or all of them are new
            return go(a[2]) and (base in seen or go(a[0]))
        if o == "lphi":
            if c in hyp:
                return True
            if c.args[0] == self.lid or self.o.lphi(c) or c not in t.DEFS or c in seen:
                return False
            e, b = t.DEFS[c]
            return go(e) and self.renewed(b, d + 1, seen, hyp + (c,)) or self.renewed(b, d + 1, seen + (c,), hyp)
        if o == "call" and c.args[0] in ("abs", "clip", "sin", "cos", "exp", "sqrt", "power", "square", "sum", "mean", "copy", "minimum", "maximum", "where"):
            return any(go(z) for z in a)
        return False

    def step(self, x):
        """the difference of two points of which one is chosen at random"""
        return x.op == "bin" and x.args[0] == "-" and any(z.op == "row" and self.drawn(z.args[1]) for z in x.args[1:])

    def vanishing(self, y):
        """y holds a difference to the best point, which is zero for that point itself"""
        return any(z.op == "bin" and z.args[0] == "-" and any(self.bestlike(w) for w in t_subterms(z)) for z in t_subterms(y))

    def bestlike(self, w, d=0):
        """a point selected for its fitness"""
        w = t.strip(w)
        if d > 12:
            return True
        if w.op == "row":
            return any(z.op == "call" and z.args[0] in ("argmin", "argsort", "argmax", "min", "nonzero") for z in t_subterms(w.args[1]))
        if w.op == "phi":
            return self.bestlike(w.args[1], d + 1) or self.bestlike(w.args[2], d + 1)
        if w.op == "rep":
            return self.bestlike(w.args[0], d + 1)
        if w.op == "lphi" and w in t.DEFS:
            if w not in self.best:
                self.best[w] = False
                self.best[w] = self.bestlike(t.DEFS[w][0], d + 1) or self.bestlike(t.DEFS[w][1], d + 1)
            return self.best[w]
        return False

    def new(self, F, d=0):
        """one value, evaluated at a renewed point on some path that only random numbers decide"""
        if d > 20 or F.top:
            return False
        if F.op == "E" and F.args[0] == 1:
            return self.renewed(F.args[1])
        if F.op == "row" and F.args[1].nd in (0, None):
            return self.allnew(F.args[0], d + 1)
        return False

    def allnew(self, a, d=0):
        """every value of the array may be new at once"""
        if d > 20 or a.top:
            return False
        if a.op == "E" and a.args[0] == 2:
            return self.renewed(a.args[1])
        if a.op == "map":
            return self.elem(a.args[1], d + 1)
        if a.op in ("cat", "list"):
            return bool(a.args) and all((self.elem if x.nd == 0 else self.allnew)(x, d + 1) for x in a.args)
        if a.op == "row" and a.args[1].nd == 1:
            return self.allnew(a.args[0], d + 1)
        if a.op == "phi":
            return self.allnew(a.args[1], d + 1) and self.allnew(a.args[2], d + 1)
        if a.op == "upd" and a.args[2].nd == 0:
            return self.allnew(a.args[0], d + 1) and self.elem(a.args[2], d + 1)
        if a.op == "upd" and a.args[2].nd == 1:
            return self.allnew(a.args[0], d + 1) and self.allnew(a.args[2], d + 1)
        return False

    def bases(self, a):
        if a.op in ("cat", "list"):
            return [y for x in a.args for y in self.bases(x)]
        if a.op == "row" or a.op == "upd":
            return self.bases(a.args[0])
        if a.op == "phi":
            return self.bases(a.args[1]) + self.bases(a.args[2])
        return [a]

    def elem(self, x, d=0):
        if d > 20 or x.top:
            return False
        if x.op == "phi":
            c = x.args[0]
            if self.drawn(c) and not t.contains_op(c, "E"):
                return self.elem(x.args[1], d + 1) or self.elem(x.args[2], d + 1)
            return self.elem(x.args[1], d + 1) and self.elem(x.args[2], d + 1)
        return self.new(x, d + 1)

    def initial(self, x):
        """x in the first pass of every loop"""
        for _ in range(12):
            ls = [l for l in lphis(x)]
            if not ls:
                return x
            if any(l not in t.DEFS for l in ls):
                return None
            try:
                x = msubst(x, {l: t.DEFS[l][0] for l in ls})
            except Stuck:
                return None
        return None

    def high(self, b, facts, odd, seen=()):
        """b may exceed the incumbent"""
        b = t.strip(b)
        if b is t.INF:
            return True
        if b.op == "phi":
            # whichever alternative the path takes; the one that random numbers or the progress of the run select
            c = b.args[0]
            alts = any if not t.contains_op(c, "E") and (self.drawn(c) or any(z.op == "sym" and str(z.args[0]).startswith(("iters(", "evals(")) for z in t_subterms(c))) else all
            return alts(any(t.same(x, y) for y in seen) or self.high(x, facts, odd, seen) for x in b.args[1:])
        if b in seen:
            return True
        if self.new(b):
            return self.free(b, facts, odd, seen)
        if b.op == "call" and b.args[0] in ("max", "amax", "mean", "median", "sum", "average", "nanmax"):
            xs = [z for z in b.args[1:] if isinstance(z, t.T)]
            if len(xs) == 1 and self.allnew(xs[0]):
                return not any(t.contains(c, xs[0]) for c, v in odd)
        if self.B.op != "lphi" or self.B not in t.DEFS:
            return False
        B0, b0 = self.initial(t.DEFS[self.B][0]), self.initial(b)
        if B0 is None or b0 is None:
            return False
        B0, b0 = t.strip(B0), t.strip(b0)
        if not (B0.op == "row" and B0.args[1].nd == 0 and first_min(B0.args[1]) is not None):
            return False
        P = B0.args[0]
        if b0.op == "call" and b0.args[0] in ("max", "amax", "mean", "median", "average", "nanmax"):
            zs = [z for z in b0.args[1:] if isinstance(z, t.T)]
            while zs and zs[0].op == "upd":
                zs[0] = zs[0].args[0]
            return any(t.same(z, P) for z in zs)
        if b0.op == "row" and t.same(b0.args[0], P) and b0.args[1].nd == 0 and first_min(b0.args[1]) is None:
            # some member that is not chosen for being the best
            return not t.contains(b0.args[1], P)
        if b0.op == "bin" and b0.args[0] == "+":
            return any(self.high(x, facts, odd, seen) and not t.contains_op(y, "E") for x, y in (b0.args[1:], b0.args[:0:-1]))
        return False

    # -- loops -----------------------------------------------------------------------------------------
    def unfold(self, F, facts, hyp, depth, chain):
        if F not in t.DEFS:
            return self.u("loop header without definition", F)
        lost = bool(facts)
        out = []
        for k in (0, 1):
            d = t.DEFS[F][k]
            n = len(self.trace)
            r = self.le(d, (), (), hyp + ((F,) if k else ()), depth + 1, chain)
            if r == "F":
                self.trace.append(("loop", F.args[0], k))
                if lost and any(t.contains(z, F) for f in facts for z in f):
                    del self.trace[n:]
                    self.why = None
                    r = self.u("conditions after the loop", F)
                else:
                    return "F"
            out.append(r)
        return worst(*out)


def decide(R):
    """[(F, verdict, Mono)] for what one iteration of the algorithm reports"""
    from .bestpair import Outer, returns
    from .interp import State, Tup, vleaves
    I = R.I
    o = Outer(I)
    out = []
    e = returns(R).get("run_iteration")
    if e is None:
        return out
    names = list(e.data["bound"])
    b = e.data["bound"]
    # (self, task, population, fitness, best x, best fitness, **params)
    vals = [b[n] for n in names]
    st = State()
    st.heap = e.data["heap"]
    if len(vals) < 6:
        return out
    B = t.strip(I.content(st, vals[5]))
    bx = None
    for l in vleaves(e.data["rv"]):
        if isinstance(l, Tup) and len(l.items) >= 4:
            F = I.content(st, l.items[3])
            M = Mono(o, B, bx)
            try:
                v = M.le(F)
            except RecursionError:
                v = M.u("recursion limit", F)
            out.append((F, v, M))
    return out
