"""Decides `F == objective(X)` for value-number terms: inductive over loops, case split on gates.

Verdicts: T proved, F refuted (the two are computed from different points on some path), U undecided.
"""
from . import linear
from . import terms as t

LIMIT = 4000
SIZE = 200000


def _ops(c):
    """conjuncts of a condition that is known true"""
    if c.op == "and":
        return _ops(c.args[0]) + _ops(c.args[1])
    if c.op == "not" and c.args[0].op == "or":
        return _ops(t.not_(c.args[0].args[0])) + _ops(t.not_(c.args[0].args[1]))
    return [c]


def assume(x, c, val):
    """x knowing that c is val"""
    lits = _ops(c if val else t.not_(c))
    for l in lits:
        pos = True
        while l.op == "not":
            l, pos = l.args[0], not pos
        if t.is_const(l):
            continue
        x = t.subst(x, l, t.boolc(pos))
    if not val and c.op == "and":
        x = t.subst(x, c, t.FALSE)
    if val and c.op == "or":
        x = t.subst(x, c, t.TRUE)
    return x


def msubst(x, m, memo=None):
    """simultaneous substitution; None when another loop's header would have to be rewritten"""
    memo = {} if memo is None else memo
    if x in m:
        return m[x]
    if x in memo:
        return memo[x]
    if x.op == "lphi":
        for k in m:
            if t.contains(x, k):
                raise Stuck()
        return x
    ch, na = False, []
    for a in x.args:
        if isinstance(a, t.T):
            b = msubst(a, m, memo)
            ch |= b is not a
            na.append(b)
        else:
            na.append(a)
    r = t.rebuild(x, na) if ch else x
    memo[x] = r
    return r


class Stuck(Exception):
    pass


def lphis(*xs):
    out, seen, stack = [], set(), list(xs)
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "lphi":
            out.append(x)
            continue
        stack.extend(a for a in x.args if isinstance(a, t.T))
    return out


def atoms(x):
    out, seen, stack = set(), set(), [x]
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op in ("draw", "lphi", "lower", "upper", "bv") or y.op == "sym":
            out.add(y)
            if y.op in ("lphi",):
                continue
        stack.extend(a for a in y.args if isinstance(a, t.T))
    return out


def fresh(x, lid):
    """draws of x made anew by every pass of loop lid"""
    out, seen, stack = set(), set(), [x]
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "lphi":
            continue
        if y.op == "draw" and lid in t.DRAWL.get(y, ()):
            out.add(y)
        stack.extend(a for a in y.args if isinstance(a, t.T))
    return out


def earlier(x, lid):
    """x with the draws of loop lid marked as those of an earlier pass"""
    for d in fresh(x, lid):
        r = t._new("draw", ((d.args[0], "earlier"),) + d.args[1:], feas=d.feas, nd=d.nd, unit=d.unit, draw=True)
        t.DRAWL[r] = t.DRAWL[d]
        x = t.subst(x, d, r)
    return x


def worst(*vs):
    return "F" if "F" in vs else "U" if "U" in vs else "T"


def first_min(i):
    """f if i selects a minimum of f"""
    if i.op == "call" and i.args[0] == "argmin":
        return i.args[1]
    if i.op == "row" and i.args[0].op == "call" and i.args[0].args[0] == "argsort" and t.is_const(i.args[1]) and t.cval(i.args[1]) == 0:
        return i.args[0].args[1]
    if i.op == "row" and i.args[1].nd == 0 and i.args[0].op == "call" and i.args[0].args[0] in ("nonzero", "argwhere", "flatnonzero"):
        return attains_min(i.args[0].args[1])
    if i.op == "row" and i.args[1].nd == 0 and i.args[0].op == "row" and t.is_const(i.args[0].args[1]):
        return first_min(t.row(i.args[0].args[0], i.args[1]))
    return None


def attains_min(c):
    if c.op == "cmp" and c.args[0] in ("==", "<="):
        for f, m in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if m.op == "call" and m.args[0] in ("min", "amin") and t.same(m.args[1], f):
                return f
    return None


def norm_idx(i):
    f = first_min(i)
    return t.call("argmin", f, nd=0) if f is not None else i


def has_row(c):
    return c.op == "row" or c.op in ("cmp", "and", "or", "not") and any(has_row(a) for a in c.args if isinstance(a, t.T))


def undefined(x):
    while x.op in ("row", "col", "fld", "chk", "E"):
        x = x.args[1] if x.op == "E" else x.args[0]
    return x.op == "top" and str(x.args[0]).startswith("undefined ")


def spine(x):
    """the loop header x is a part of"""
    while x.op in ("row", "col", "fld", "chk", "E"):
        x = x.args[1] if x.op == "E" else x.args[0]
    return x if x.op == "lphi" else None


def selectable(F):
    """an entry just written to the array F takes its minimum from"""
    if F.op != "row" or F.args[1].nd not in (0, None):
        return None
    A, i = F.args
    by_value = False
    while A.op == "row" and A.args[1].nd == 1 and A.args[1].op == "call" and A.args[1].args[0] == "argsort":
        by_value = True
        A = A.args[0]
    if A.op == "upd" and (by_value or t.contains(i, A) and first_min(i) is not None) and A.args[2].op == "E":
        return A.args[2].args[1]
    return None


def blocks(x):
    """('tile' | 'repeat', array, times) of arrays made of repeated rows"""
    if x.op == "call" and x.args[0] == "tile":
        n = x.args[2]
        if n.op == "tuplec" and len(n.args) == 2:
            if not (t.is_const(n.args[1]) and t.cval(n.args[1]) == 1):
                return None
            n = n.args[0]
        return "tile", x.args[1], n
    if x.op == "row" and x.args[1].op == "call" and x.args[1].args[0] == "repidx":
        return "repeat", x.args[0], x.args[1].args[1]
    return None


def elementwise(x):
    return any(a.op == "sym" and str(a.args[0]).startswith("k!") for a in atoms(x))


def rank(i):
    """(array, place in its ascending order) an index selects by"""
    g = first_min(i)
    if g is not None:
        return g, 0
    if i.op == "call" and i.args[0] == "argmax" and len(i.args) == 2:
        return i.args[1], -1
    if i.op == "row" and i.args[0].op == "call" and i.args[0].args[0] == "argsort" and len(i.args[0].args) == 2 and t.is_const(i.args[1]) and isinstance(t.cval(i.args[1]), int):
        return i.args[0].args[1], t.cval(i.args[1])
    return None


def apart(i, j, f=None):
    """indices that certainly select different elements (in general)"""
    a, b = rank(i), rank(j)
    if a and b and a[1] != b[1] and not a[0].top and t.same(a[0], b[0]):
        return True
    if i.nd == 0 and j.nd == 0:
        d = linear.diff(i, j)
        if not d[0]:
            return d[1] != 0
    if i.op == j.op == "slice":
        z = lambda a: a is t.NONE or t.is_const(a) and t.cval(a) == 0
        return z(i.args[0]) != z(j.args[0])
    for a, b in ((i, j), (j, i)):
        g = first_min(a)
        if g is not None and t.is_const(b) and f is not None and t.same(g, f) and (f.op == "map" and f.args[1].op == "E" or f.op == "E") and t.contains_op(f, "draw"):
            return True     # the minimum of freshly evaluated, unsorted values need not be at a fixed place
        if a.op == "row" and a.args[0] is b and a.args[1].op == "slice" and b.op == "call" and b.args[0] == "argsort":
            s = a.args[1].args[2]
            if t.is_const(s) and t.cval(s) == -1:
                return True
    return False


def inst(x, k):
    """row k, also of comprehensions over draws (one draw per k)"""
    if x.op == "map":
        return t.subst(x.args[1], x.args[0], k)
    if x.op == "mapx":
        return x.args[1]
    if x.op == "phi" and (x.nd == 2 and x.args[0].nd == 1 or x.args[0].nd in (0, None)):
        return t.phi(t.row(x.args[0], k) if x.args[0].nd == 1 else x.args[0], inst(x.args[1], k), inst(x.args[2], k))
    if x.op == "E" and x.args[0] == 2:
        return t.E(1, inst(x.args[1], k))
    return t.row(x, k)


def element(x):
    """entry k of a comprehension, for the k that stands for any entry"""
    if x.op == "row" and x.args[0].op == "map" and x.args[1].op == "sym" and str(x.args[1].args[0]).startswith("k!"):
        return inst(*x.args)
    return x


def bare(x):
    if x.op in ("col", "fld"):
        return bare(x.args[0])
    if x.op == "E":
        return bare(x.args[1])
    return x.op == "lphi"


def solid(x):
    """draws that enter every coordinate of x by arithmetic"""
    while x.op in ("rep", "chk"):
        x = x.args[0]
    if x.op != "bin" or x.args[0] not in ("+", "-"):
        return set()
    out, stack = set(), [x]
    while stack:
        y = stack.pop()
        if y.op == "draw" and y.args[1] != "permutation":
            out.add(y)
        elif y.op == "bin" and y.args[0] in ("+", "-", "*"):
            stack.extend(y.args[1:])
        elif y.op == "call" and y.args[0] in ("badrepair", "clip"):
            stack.append(y.args[1])
    return out


def reorders(i):
    """an index that puts all rows in another order"""
    return i.op == "call" and i.args[0] in ("argsort", "permutation") or i.op == "draw" and i.args[1] == "permutation" and i.nd == 1


class Pairing:
    def __init__(self, outer=lambda l: False, inf_ok=False, alias=lambda c: False):
        self.alias = alias
        self.outer, self.inf_ok = outer, inf_ok
        self.n = 0
        self.size0 = len(t._tab)
        self.why = None
        self.trace = []
        self.stuck = []
        self.tried = set()

    def pair(self, X, F, level, hyp=(), depth=0, conds=(), ins=()):
        self.n += 1
        if self.n > LIMIT or depth > 120 or len(t._tab) - self.size0 > SIZE:
            return self.u("budget", X, F)
        X, F = t.strip(X), t.strip(F)
        if X.nd == "o1":
            X, level = t.col(X, "x"), 2
        elif X.nd == "o0":
            X, level = t.fld(X, "x"), 1
        if level == 1:
            X, F = element(X), element(F)
        if (X, F) in hyp:
            return "T"
        if t.same(t.E(level, X), F):
            return "T"
        if self.inf_ok and (F is t.INF or F.op == "fill" and F.args[0] is t.INF):
            return "T"
        if X is t.NONE:
            # no point has been found yet: nothing is claimed about it
            return "T" if F is t.INF or F is t.NONE else self.u("no point", X, F)
        if undefined(X) or undefined(F):
            return "T"      # this path raises before anything is reported
        if X.op == "top" or F.op == "top":
            return self.u("unmodelled value", X, F)
        p = lambda a, b, l=level, h=hyp: self.pair(a, b, l, h, depth + 1, conds, ins)
        if level == 1 and F.op == "call" and F.args[0] in ("min", "amin") and len(F.args) == 2 and F.args[1].nd in (1, 2, None):
            F = t.row(F.args[1], t.call("argmin", F.args[1], nd=0))
        # gates
        for y in (F, X):
            if y.op == "phi" and y.args[0].op == "sym" and str(y.args[0].args[0]).startswith("none?"):
                # an optional value: only the case where it exists is of interest
                return p(assume(X, y.args[0], False), assume(F, y.args[0], False))
            if y.op == "phi" and (y.args[0].nd in (0, None) or level == 1):
                c = y.args[0]
                r = []
                for val in (True, False):
                    r.append(self.pair(assume(X, c, val), assume(F, c, val), level, hyp, depth + 1, conds + ((c,) if c.op in ("row", "cmp", "and", "or", "not") and level == 1 and has_row(c) else ()), ins))
                    if r[-1] == "F" and val and c.op == "sym" and str(c.args[0]).startswith("alias?") and not self.alias(c):
                        # whether the two still share storage at that moment is not known
                        r[-1] = self.u("may share storage", X, F)
                        del self.trace[:]
                        self.why = None
                    if r[-1] == "F":
                        self.trace.append((c, val))
                        return "F"
                return worst(*r)
        if level == 2 and X.op == "phi" and F.op == "phi" and t.same(X.args[0], F.args[0]):
            return worst(p(X.args[1], F.args[1]), p(X.args[2], F.args[2]))
        if (bare(X) or bare(F)) and "map" in (X.op, F.op):
            n0 = len(self.stuck)
            r = self.unfold(X, F, level, lphis(X, F), hyp, depth, ins)
            if r == "T":
                return r
            del self.stuck[n0:], self.trace[:]
        # structure
        if X.op == "row" and F.op == "row":
            i, j = X.args[1], F.args[1]
            if t.same(norm_idx(i), norm_idx(j)):
                l2 = 2
                a, b = X.args[0], F.args[0]
                if level == 1 and i.nd == 0 or level == 2:
                    n0, w0 = len(self.stuck), self.why
                    r = self.pair(a, b, l2, hyp, depth + 1, (), ins)
                    if r == "T" or r == "F" and not conds:
                        return r
                    if r == "F":
                        self.why = w0
                        del self.trace[:]
        if X.op == "row" and F.op == "row" and apart(X.args[1], F.args[1], F.args[0]) and not self.relates(conds, X, F) and \
                (X.args[1].op != "slice" or level == 2) and self.pair(X.args[0], F.args[0], 2, hyp, depth + 1, conds, ins) == "T":
            self.why = (X, t.row(X.args[0], F.args[1]))
            return "F"
        if level == 2 and X.op == F.op == "call" and X.args[0] == F.args[0] == "tile" and X.args[2].op == "tuplec" and len(X.args[2].args) == 2:
            a, b = X.args[2].args
            if t.same(a, F.args[2]) and t.is_const(b) and t.cval(b) == 1:
                return p(X.args[1], F.args[1])
        if level == 2:
            a, b = blocks(X), blocks(F)
            if a and b and a[0] != b[0] and t.same(a[2], b[2]) and not (t.is_const(a[2]) and t.cval(a[2]) == 1) and p(a[1], b[1]) == "T":
                self.why = (X, t.call(b[0], a[1], b[2], nd=2))      # order of blocks against order of elements
                return "F"
        if level == 2 and X.op == F.op:
            if X.op == "upd" and t.same(X.args[1], F.args[1]):
                a = p(X.args[0], F.args[0])
                v, w = X.args[2], F.args[2]
                return worst(a, self.pair(v, w, 1 if v.nd == 1 or w.nd == 0 else 2, hyp, depth + 1, (), ins))
            if X.op in ("cat",) and len(X.args) == len(F.args):
                return worst(*[p(a, b) for a, b in zip(X.args, F.args)])
            if X.op == "list" and len(X.args) == len(F.args):
                return worst(*[self.pair(a, b, 1, hyp, depth + 1, (), ins) for a, b in zip(X.args, F.args)])
            if X.op == "map" and X.args[0] is F.args[0]:
                return self.pair(X.args[1], F.args[1], 1, hyp, depth + 1, (), ins)
        if level == 2 and "upd" in (X.op, F.op) and not (X.op == F.op and t.same(X.args[1], F.args[1])) and (level, X, F) not in self.tried:
            # written in one of them only: compare at that position
            self.tried.add((level, X, F))
            for a in (X, F):
                if a.op == "upd" and (a.args[1].nd == 0 or a.args[1].op == "slice"):
                    i = a.args[1]
                    n0, t0, w0 = len(self.stuck), len(self.trace), self.why
                    r = self.pair(t.row(X, i), t.row(F, i), 1 if i.nd == 0 else 2, hyp, depth + 1, conds, ins)
                    if r == "F":
                        return "F"
                    del self.stuck[n0:], self.trace[t0:]
                    self.why = w0
        if level == 2 and ("mapx" in (X.op, F.op) or "map" in (X.op, F.op) or any(y.op == "phi" and y.args[0].nd == 1 for y in (X, F))):
            k = [t.sym("i:%s" % (y.args[0],), nd=0) for y in (X, F) if y.op == "mapx"]
            k = k[0] if k else t.sym("k!%d" % depth, nd=0)
            if not (X.op == "mapx" and F.op == "mapx" and X.args[0] != F.args[0]):
                return self.pair(inst(X, k), inst(F, k), 1, hyp, depth + 1, (), ins)
        # loops: induction over the header of the innermost loop involved
        ls = lphis(X, F)
        if ls and (bare(X) or bare(F)):
            r = self.unfold(X, F, level, ls, hyp, depth, ins)
            if r is not None:
                return r
        n0 = len(self.stuck)
        r = self.compare(X, F, level, ins)
        if r == "U" and self.n < LIMIT // 2 and not X.top:
            sp = [l for l in (spine(X), spine(F)) if l is not None and l in t.DEFS and (l, X, F) not in self.tried]
            if sp:
                top = max(sp, key=lambda l: l.depth)
                if top.args[0] in ins and self.outer(top):
                    return r        # once round the main loop is enough
                self.tried.add((top, X, F))
                t0, w0 = len(self.trace), self.why
                r2 = self.unfold(X, F, level, [l for l in lphis(X, F) if l.args[0] == top.args[0]], hyp, depth, ins)
                if r2 == "F" and not (self.outer(top) or len(sp) == 2 and sp[0].args[0] == sp[1].args[0]) and (any(t.contains_op(z, o) for z in (X, F) for o in ("map", "mapx")) or elementwise(X) or elementwise(F)) and not self.settled(F):
                    # the two sides advance in different loops: one pass of one of them proves nothing
                    del self.trace[t0:]
                    self.why = w0
                    return "U"
                if r2 != "U":
                    del self.stuck[n0:]
                return r2
        return r

    def unfold(self, X, F, level, ls, hyp, depth, ins):
        if any(l not in t.DEFS for l in ls):
            return self.u("loop header without definition", X, F)
        top = max(ls, key=lambda l: l.depth)
        lid = top.args[0]
        group = [l for l in ls if l.args[0] == lid]
        h2 = hyp + ((X, F),)
        out = []
        for k in (0, 1):
            m = {l: t.DEFS[l][k] for l in group}
            if k and lid in ins and (fresh(X, lid) or fresh(F, lid)):
                m = {l: earlier(x, lid) for l, x in m.items()}
            try:
                a, b = msubst(X, m), msubst(F, m)
            except Stuck:
                return self.u("nested loop header", X, F)
            r = self.pair(a, b, level, h2 if k else hyp, depth + 1, (), (ins if lid in ins else ins + (lid,)) if k else tuple(x for x in ins if x != lid))
            out.append(r)
            if r == "F":
                self.trace.append(("loop", lid, k))
                return "F"
        return worst(*out)

    def relates(self, conds, X, F):
        """a condition on this path may force the two indices to coincide"""
        if any(i.op == "slice" for i in (X.args[1], F.args[1])) or not t.contains_op(F.args[0], "E"):
            return bool(conds)
        for i in (X.args[1], F.args[1]):
            if first_min(i) is None and any(t.contains(c, t.row(F.args[0], i)) or t.contains(c, t.row(X.args[0], i)) or not t.is_const(i) and t.contains(c, i) for c in conds):
                return True
        return not any(first_min(i) is not None for i in (X.args[1], F.args[1])) and bool(conds)

    def u(self, why, X, F):
        if len(self.stuck) < 3:
            self.stuck.append((why, X, F))
        return "U"

    def settled(self, F):
        """the objective of a point that was there before any loop of the iteration"""
        return F.op == "E" and not any(t.contains_op(F, o) for o in ("map", "mapx", "upd")) and not lphis(F, F)

    def enters(self, x):
        """draws anything x is made of depends on; what exists when an iteration begins depends on none of its draws"""
        out, seen, stack = set(), set(), [x]
        while stack:
            y = stack.pop()
            if y in seen:
                continue
            seen.add(y)
            if y.op == "lphi":
                if not self.outer(y):
                    stack.extend(t.DEFS.get(y, ()))
                continue
            if y.op == "draw":
                out.add(y)
            stack.extend(a for a in y.args if isinstance(a, t.T))
        return out

    def known(self, x):
        """what x is made of is known, not only that a loop computes it"""
        while x.op in ("row", "chk", "col", "fld", "upd"):
            x = x.args[0]
        return x.op != "lphi" or self.outer(x)

    def compare(self, X, F, level, ins):
        """X and F are not decomposable any further"""
        Y = None
        if level == 2:
            # one of them reordered, the other left in the order it had
            for a, b in ((X, F), (F, X)):
                if a.op == "row" and reorders(a.args[1]) and not a.top and a.args[0].op in ("upd", "cat", "map", "mapx") and t.same(
                        t.E(2, a.args[0]) if a is X else a.args[0], b if a is X else t.E(2, b)):
                    self.why = (X, F)
                    return "F"
        if F.op == "E":
            Y = F.args[1]
        elif F.op == "row" and F.args[0].op == "E":
            Y = t.row(F.args[0].args[1], F.args[1])
        if F.op == "row" and F.args[0].op == "map" and F.args[0].args[1].op == "E" and t.same(F.args[0].args[1].args[1], X) and t.is_const(F.args[1]):
            # X is what the last pass of a loop computed, F belongs to a fixed pass of it
            k = t.cval(F.args[1])
            if k == -1:
                return "T"
            if isinstance(k, int) and k >= 0 and t.contains_op(X, "draw"):
                self.why = (X, t.row(t._new("map", (F.args[0].args[0], X), nd=2), F.args[1]))
                return "F"
        if level == 1 and not X.top and not F.top:
            n = solid(X)
            if n and not n & self.enters(F):
                # the point is made of a draw that nothing the fitness is made of depends on
                self.why = (X, F)
                return "F"
        if Y is None:
            Z = selectable(F)
            for lid in ins:
                if Z is not None and not X.top and fresh(Z, lid) and not fresh(X, lid) and self.known(X):
                    self.why = (X, Z)
                    return "F"
            return self.u("fitness of unknown origin", X, F)
        if X.top or Y.top:
            return self.u("unmodelled value", X, F)
        for lid in ins:
            # a value that exists when a pass begins cannot depend on what is drawn during that pass
            if fresh(X, lid) != fresh(Y, lid):
                self.why = (X, Y)
                return "F"
        if not (self.known(X) and self.known(Y)):
            return self.u("value from an inner loop", X, F)
        a, b = atoms(X), atoms(Y)
        if a != b:
            self.why = (X, Y)
            return "F"
        if t.contains(X, Y) or t.contains(Y, X):
            self.why = (X, Y)
            return "F"
        return self.u("cannot compare", X, F)
