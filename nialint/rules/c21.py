"""C21 every loop and every recursion inside init_population and run_iteration ends."""
import ast

from .. import terms as t
from ..base import run_classes
from ..driver import Driver
from ..interp import BOT, Bot, S

RULE = ("Abstract interpretation of run() of every exported algorithm. For every loop reached from init_population or run_iteration the conditions of all its exits (loop test, "
        "break, return, raise) are collected as terms over the loop-carried values, together with the value each of them has after one more pass. A loop is a violation when every "
        "exit is blocked: its condition depends only on values that a pass does not change, moves away from its bound, or is false because evaluations return infinity once the "
        "budget is used up. Redrawing an index until it differs from another is a violation when a range of one element is not excluded. A function that calls itself with "
        "the same arguments under a condition that nothing between the two calls can change is a violation, and so is walking a list that every pass extends.")
ASSUMPTIONS = ["the objective itself returns", "a draw that can end the loop eventually does", "a collection given to a for loop is finite",
               "values of unmodelled calls may change from pass to pass (never an alarm)"]
STEPS = ("init_population", "run_iteration")
BIG = "inf!"
LOW = "low!"
WORLDS = (None, BIG, LOW)
SITUATION = {None: "", BIG: " once the evaluation budget is used up", LOW: " when all points found in it are better than before and equal"}
PURE = {"len", "min", "max", "abs", "absolute", "sum", "sqrt", "exp", "log", "int", "float", "ceil", "floor", "round", "argmin", "argmax", "mean", "std", "any", "all",
        "minimum", "maximum", "amin", "amax", "prod", "bool", "argsort", "sort", "copy", "asarray", "array", "full", "zeros", "ones", "where", "norm", "isinf", "isnan", "isfinite",
        "square", "power", "pow", "dot", "tile", "log2", "log10", "sin", "cos", "tan", "tanh", "arctan", "clip", "sign", "unique", "nonzero", "argwhere", "count_nonzero", "cumsum",
        "append", "delete", "vstack", "hstack", "concatenate", "repeat", "reshape", "isclose", "array_equal", "median", "var", "fmin", "fmax", "outer", "flip", "diff", "inner"}
FIXED = ("cfg.", "max_evals", "max_iters", "opt", "prev.")


class LoopDriver(Driver):
    def prims(self):
        p = super().prims()
        self.sites = {}

        def p_eval(I, st, b, node):
            x = b.get("x")
            if x is None or isinstance(x, Bot):
                return BOT
            k = (I.ctxid(), getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
            n = self.sites.setdefault(k, len(self.sites))
            I.ev("eval", node, site=n)
            return S(t.E(1, t.sym("site:%d" % n, nd=1)))
        p[("niapy.task", "Task.eval")] = p_eval
        return p

    def world(self):
        I, st, task = super().world()
        self.drawn, self.found, self.calls, self.starts = [], {}, [], {}
        I.loop_hook = lambda what, lid, **k: self.loop(I, what, lid, **k)
        I.pre_hook = self.entering
        self.recs = {}
        return I, st, task

    def entering(self, I, st, fi, bound, node):
        d = len(I.stack)
        while self.calls and (self.calls[-1][0] >= d or I.stack[self.calls[-1][0] - 1][0] is not self.calls[-1][1]):
            self.calls.pop()
        for e in reversed(self.calls):
            if e[1] is fi:
                args = {k: I.content(st, v) for k, v in bound.items()}
                self.recs.setdefault((fi.path, fi.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)), []).append(
                    (fi, node, e, args, st.pc, self.drawn[e[4]:], I.events[e[5]:], tuple((f.qual, getattr(n, "lineno", 0)) for f, n in I.stack), list(t.LOOPS)))
                break
        self.calls.append((d, fi, {k: I.content(st, v) for k, v in bound.items()}, st.pc, len(self.drawn), len(I.events)))
        return None

    def loop(self, I, what, lid, **k):
        if what == "start":
            self.starts[lid] = len(self.drawn)
            return
        names = [f.qual.split(".")[-1] for f, _ in I.stack]
        if not any(n in STEPS for n in names):
            return
        k["drawn"] = self.drawn[self.starts.get(lid, 0):]
        k["outer"] = list(t.LOOPS)
        k["stack"] = tuple((f.qual, getattr(n, "lineno", 0)) for f, n in I.stack)
        k["fi"] = I.stack[-1][0]
        ex = k["exhausted"]
        k["out"] = [("the loop test", ex.pc)] if not ex.dead else []
        k["out"] += [("break", b.pc) for b in k.pop("breaks")] + [("return", b.pc) for b in k.pop("returns")]
        k["idle"] = k.pop("back").dead
        self.found[lid] = Loop(lid, k)


class Values:
    """what changes from one pass to the next"""

    def __init__(self, lid, drawn, sites, outer, world):
        self.lid, self.drawn, self.sites, self.world = lid, set(drawn), sites, world
        self.ivars = {"i:%s" % (l,) for l in outer}
        self.outer = set(outer)
        self.env, self.count = {}, {}
        self.memo, self.vm = {}, {}
        self.moving = set()

    # ---- terms in a world where all evaluations of this loop return infinity (or one low value)
    def spec(self, y):
        r = self.memo.get(y)
        if r is None:
            r = self.memo[y] = self._spec(y)
        return r

    def big(self):
        return t.sym(self.world or BIG, nd=None)

    def _spec(self, y):
        if y in self.env:
            return self.env[y]
        if y.op == "sym" and str(y.args[0]).startswith("stop"):
            return t.boolc(self.world == BIG)
        if y.op == "E" and self.world and any(z.op == "sym" and z in self.sites for z in t.leaves(y, lambda l: False)):
            return self.big()
        if not any(isinstance(a, t.T) for a in y.args) or y.op == "lphi":
            return y
        if y.op == "phi":
            c = self.spec(y.args[0])
            if c is t.TRUE or c is t.FALSE:
                return self.spec(y.args[1] if c is t.TRUE else y.args[2])
        a = [self.spec(z) if isinstance(z, t.T) else z for z in y.args]
        b = self.big()
        if y.op == "cmp":
            op, l, r = a
            o = r if l is b else l
            if (l is b or r is b) and (o is b or not self.varies(o) or op == "<" and (l is b) == (self.world == BIG)):
                if op == "==":
                    return t.boolc(l is r)
                if op == "<":
                    return t.boolc(l is not r and (r is b) == (self.world == BIG))
                if op == "<=":
                    return t.boolc(l is r or (r is b) == (self.world == BIG))
            return t.cmp(op, l, r)
        if y.op == "bin" and (a[1] is b or a[2] is b):
            if a[0] == "+" or a[0] == "-" and a[2] is not b:
                return b
        if y.op in ("map", "mapx", "fill", "row", "copy", "chk", "rept") and any(z is b for z in a):
            if a[0] is b or y.op != "row" and a[-1] is b:
                return b
        if y.op in ("list", "cat") and all(z is b for z in a if isinstance(z, t.T)):
            return b
        if y.op == "call" and y.args[0] in ("min", "amin", "minimum", "max", "amax", "maximum", "mean", "sum", "float", "asarray", "array", "copy", "sort", "abs") and \
                all(z is b for z in a[1:] if isinstance(z, t.T)):
            return b
        if y.op == "call" and str(y.args[0]) in (("min", "amin", "minimum") if self.world == LOW else ("max", "amax", "maximum")) and any(z is b for z in a[1:]):
            return b
        if y.op == "not":
            return t.not_(a[0])
        if y.op == "and":
            return t.and_(a[0], a[1])
        if y.op == "or":
            return t.or_(a[0], a[1])
        if y.op == "bin":
            return t.bin_(*a)
        if y.op == "phi":
            return t.phi(*a)
        if all(x is z for x, z in zip(a, y.args)):
            return y
        try:
            return t.rebuild(y, a)
        except Exception:
            return t.top("spec")

    # ---- may change between passes
    def varies(self, y):
        if y in self.vm:
            return self.vm[y]
        self.vm[y] = False
        r = self.vm[y] = self._varies(y)
        return r

    def _varies(self, y):
        if y.top or y.op == "draw":
            return y.op != "draw" or y in self.drawn
        if y.op == "sym":
            n = str(y.args[0])
            if n.startswith("site:"):
                return y in self.sites
            return not (n in (BIG, LOW) or n.startswith(FIXED) or n == "D" or n in self.ivars) and y not in (t.LOWER, t.UPPER)
        if y.op == "lphi":
            if y.args[0] == self.lid:
                return y in self.moving
            if y.args[0] in self.outer:
                return False
            return y not in t.DEFS or any(self.varies(z) for z in t.DEFS[y])
        if y.op == "E":
            return any(z in self.sites for z in y.args if isinstance(z, t.T)) or any(self.varies(z) for z in y.args if isinstance(z, t.T) and str(z.args[0])[:5] != "site:")
        if y.op == "call" and str(y.args[0]).rstrip("-0123456789") not in PURE and str(y.args[0]) not in PURE:
            return True
        return any(self.varies(z) for z in y.args if isinstance(z, t.T))

    def settle(self, roots):
        """loop-carried values reached from the exits: kept, settled after a pass, counting, or moving"""
        todo, mine = list(roots), {}
        seen = set()
        while todo:
            y = todo.pop()
            for z in t.leaves(y, lambda l: l.args[0] != self.lid and l.args[0] not in self.outer):
                if z.op == "lphi" and z.args[0] == self.lid and z not in seen:
                    seen.add(z)
                    if z in t.DEFS:
                        mine[z] = t.DEFS[z]
                        todo.append(t.DEFS[z][1])
                    else:
                        self.moving.add(z)
        self.count = {}
        for rnd in range(8):
            changed = False
            env, self.env = self.env, {}
            self.memo, self.vm = {}, {}
            kept = {l for l, (e, b) in mine.items() if l not in self.moving and t.strip(self.spec(b)) is l}
            self.env = env
            self.memo, self.vm = {}, {}
            for l, (e, b) in mine.items():
                if l in self.moving:
                    continue
                s = t.strip(self.spec(b))
                if s is l:
                    continue
                if l in self.env and s is self.env[l]:
                    continue
                d = step(s, l)
                if d is not None:
                    self.count[l] = d
                    self.moving.add(l)
                    changed = True
                    continue
                if any(z.op == "lphi" and z.args[0] == self.lid and z not in kept for z in t.leaves(s, lambda q: False)) or self.varies(s) or l in self.env:
                    self.moving.add(l)
                    self.env.pop(l, None)
                    changed = True
                else:
                    self.env[l] = s
                    changed = True
            if not changed:
                break
        self.memo, self.vm = {}, {}
        # a counter whose step was derived under an assumption that no longer holds
        for l in list(self.count):
            if step(t.strip(self.spec(mine[l][1])), l) != self.count[l]:
                del self.count[l]

    def literal(self, c, val):
        """'T' holds for good, 'F' never holds, 'stuck' one of the two for good, 'comes' sooner or later, 'may'"""
        s = self.spec(c)
        if s is t.TRUE or s is t.FALSE:
            return "T" if (s is t.TRUE) == val else "F"
        if s.op == "not":
            return self.literal(s.args[0], not val)
        if s.op == "and" and not val or s.op == "or" and val:
            r = [self.literal(z, val) for z in s.args]
            return "T" if "T" in r else "comes" if "comes" in r else "may" if "may" in r else "F" if r == ["F", "F"] else "stuck"
        if s.op in ("and", "or"):
            r = [self.literal(z, val) for z in s.args]
            return "F" if "F" in r else "stuck" if "stuck" in r else "may" if "may" in r else "comes" if "comes" in r else "T"
        if not self.varies(s):
            return "stuck"
        if s.op == "cmp" and s.args[0] in ("<", "<="):
            l, r = t.strip(s.args[1]), t.strip(s.args[2])
            d = self.drift(l)
            u = self.drift(r)
            if d is not None and u is not None:
                lo, hi = u[0] - d[1], u[1] - d[0]     # > 0: the comparison becomes true
                if not val:
                    lo, hi = -hi, -lo
                if lo > 0:
                    return "comes"
                if hi <= 0:
                    return "away"
        return "may"

    def drift(self, y):
        """how much y changes in a pass: (least, most)"""
        if y in self.count:
            return self.count[y]
        if not self.varies(y):
            return (0, 0)
        if y.op == "bin" and y.args[0] in ("+", "-"):
            a, b = self.drift(t.strip(y.args[1])), self.drift(t.strip(y.args[2]))
            if a is not None and b is not None:
                return (a[0] + b[0], a[1] + b[1]) if y.args[0] == "+" else (a[0] - b[1], a[1] - b[0])
        return None


def step(s, l):
    """s = l + constant on every path: (least, most)"""
    s = t.strip(s)
    if s is l:
        return (0, 0)
    if s.op == "phi":
        a, b = step(s.args[1], l), step(s.args[2], l)
        return (min(a[0], b[0]), max(a[1], b[1])) if a is not None and b is not None else None
    if s.op != "bin" or s.args[0] not in ("+", "-"):
        return None
    x, y = s.args[1], s.args[2]
    if s.args[0] == "+" and num(x) is not None:
        x, y = y, x
    c, a = num(y), step(x, l)
    if c is None or a is None:
        return None
    c = c if s.args[0] == "+" else -c
    return (a[0] + c, a[1] + c)


def num(y):
    y = t.strip(y)
    v = t.cval(y) if t.is_const(y) else None
    return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None


class Loop:
    def __init__(self, lid, k):
        self.lid = lid
        self.__dict__.update(k)

    def suffix(self, pc):
        n = len(self.base)
        if pc[:n] == self.base:
            return list(pc[n:])
        b = set(self.base)
        return [x for x in pc if x not in b]

    def exits(self):
        out = [(w, self.suffix(pc)) for w, pc in self.out]
        for e in self.events:
            if e.kind == "raise" and not e.data.get("caught"):
                out.append(("raise", self.suffix(e.data["pc"])))
        # staying inside implies that exits with one condition were not taken
        inside = set()
        while True:
            n = len(inside)
            for _, ls in out:
                r = [x for x in ls if (x[0], x[1]) not in inside]
                if len(r) == 1:
                    inside.add((r[0][0], not r[0][1]))
            if len(inside) == n:
                break
        return [(w, [x for x in ls if x not in inside or len(ls) == 1]) for w, ls in out]

    def marks(self):
        return {t.sym("site:%d" % e.data["site"], nd=1) for e in self.events if e.kind == "eval"}


def blocked(V, exits):
    """the reasons, or None if some exit may be taken"""
    why, chosen = [], {}
    for w, ls in exits:
        best = None
        for c, val in ls:
            r = V.literal(c, val)
            if r in ("F", "away", "stuck") and (best is None or best[0] == "stuck"):
                if r == "stuck" and chosen.get(c, not val) == val:
                    continue
                best = (r, c, val)
        if best is None:
            return None
        chosen[best[1]] = not best[2]
        why.append((w,) + best)
    return why


WORDS = {"F": "can never hold", "away": "moves away from its bound", "stuck": "does not change"}


def fname(lp):
    return lp.stack[-1][0] if lp.stack else "?"


def test_text(node):
    if isinstance(node, ast.While):
        return "while " + ast.unparse(node.test)
    return "for %s in %s" % (ast.unparse(node.target), ast.unparse(node.iter)) if isinstance(node, ast.For) else type(node).__name__


def check_class(ctx, ci, res):
    d = LoopDriver(ctx.prog)
    saved = t.draw

    def draw(*a, **k):
        r = saved(*a, **k)
        d.drawn.append(r)
        return r
    t.draw = draw
    try:
        R = d.run_class(ci)
    finally:
        t.draw = saved
    if R.final is None:
        res.undec("%s: run() not analysed" % ci.name)
        return
    for lp in d.found.values():
        node = lp.node
        if not isinstance(node, ast.While) and not (isinstance(node, ast.For) and endless(ctx, lp)):
            res.add("walks of a range or collection")
            continue
        res.add("conditional loops checked")
        if lp.idle:
            res.add("left in the first pass")
            continue
        examine(ci, lp, res)
    for k, recs in d.recs.items():
        res.add("recursive calls checked")
        recursion(ci, recs[-1], res)


def endless(ctx, lp):
    c = lp.node.iter
    while isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "enumerate" and c.args:
        c = c.args[0]
    if not isinstance(c, ast.Call):
        return False
    n = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
    return n in ("count", "cycle") or n == "repeat" and len(c.args) == 1 and not c.keywords


def examine(ci, lp, res):
    exits = lp.exits()
    if isinstance(lp.node, ast.For):
        exits = exits[1:] if exits and exits[0][0] == "the loop test" else exits
    sites = lp.marks()
    fn = fname(lp)
    where = "%s:%s" % (lp.fi.path, lp.node.lineno)
    key = "%s:%s" % (fn, test_text(lp.node)[:80])
    verdict = None
    for w in WORLDS if sites else WORLDS[:1]:
        V = Values(lp.lid, lp.drawn, sites, lp.outer, w)
        V.settle([c for _, ls in exits for c, _ in ls])
        why = blocked(V, exits)
        if why is not None:
            txt = "; ".join("%s: %s %s" % (x, t.show(V.spec(c))[:80], WORDS[r]) for x, r, c, _ in why) or "it has no exit"
            res.fail("endless", key, "%s: %s never ends%s: %s" % (fn, test_text(lp.node)[:80], SITUATION[w], txt), where, lp.stack)
            return
        comes = any(ls and all(V.literal(c, v) in ("T", "comes") for c, v in ls) for _, ls in exits)
        verdict = "comes" if comes else verdict
        if not w:
            n = redraw(V, lp, exits)
            if n is not None:
                res.fail("redraw", key, "%s: %s never ends when %s is 1" % (fn, test_text(lp.node)[:80], t.show(n)[:60]), where, lp.stack)
                return
    res.add("proved to be left" if verdict else "an exit can be taken")


def redraw(V, lp, exits):
    """the only way out is a draw from 0..n-1 that differs from a value in that range; n may be 1"""
    open_ = [(w, ls) for w, ls in exits if blocked(V, [(w, ls)]) is None]
    if len(open_) != 1 or len(open_[0][1]) != 1:
        return None
    c, val = open_[0][1][0]
    if c.op == "not":
        c, val = c.args[0], not val
    if c.op != "cmp" or c.args[0] != "==" or val:
        return None
    for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
        if V.varies(b):
            continue
        n = size(V, t.strip(a))
        if n is None or V.varies(n) or t.is_const(n) and t.cval(n) != 1:
            continue
        if not all(z.op != "sym" or str(z.args[0]).startswith("cfg.") or z.args[0] == "D" for z in t.leaves(n)) or any(z.op in ("call", "draw", "E", "lphi", "phi") for z in t.leaves(n)):
            continue
        if any(c2.op == "cmp" and any(t.is_const(z) for z in c2.args[1:]) and any(t.contains(z, n) for z in c2.args[1:]) for c2, _ in lp.base):
            continue
        return n
    return None


def size(V, y, depth=0):
    if y.op == "lphi" and y.args[0] == V.lid and y in t.DEFS and depth < 3:
        return size(V, t.strip(t.DEFS[y][1]), depth + 1)
    if y.op == "call" and y.args[0] in ("int", "floor") and len(y.args) == 2:
        return size(V, t.strip(y.args[1]), depth + 1)
    if y.op == "bin" and y.args[0] == "*":
        for a, b in ((y.args[1], y.args[2]), (y.args[2], y.args[1])):
            if a.op == "draw" and a.args[1] == "random" and a in V.drawn:
                return t.strip(b)
    if y.op == "draw" and y in V.drawn and y.args[1] in ("integers", "choice"):
        p = [z for z in y.args[2:] if isinstance(z, t.T) and z is not t.NONE]
        if len(p) == 1:
            return t.strip(p[0])
        if len(p) == 2 and t.is_const(p[0]) and t.cval(p[0]) == 0:
            return t.strip(p[1])
    return None


def recursion(ci, rec, res):
    fi, node, outer, args, pc, drawn, events, stack, loops = rec
    base = outer[3]
    names = [q.split(".")[-1] for q, _ in stack]
    if not any(n in STEPS for n in names):
        return
    if set(args) != set(outer[2]):
        return
    n = len(base)
    ls = list(pc[n:]) if pc[:n] == base else [x for x in pc if x not in set(base)]
    diff = {k for k in args if t.strip(args[k]) is not t.strip(outer[2][k])}
    if any(e.kind == "attr_write" for e in events):
        return
    sites = {t.sym("site:%d" % e.data["site"], nd=1) for e in events if e.kind == "eval"}
    for w in WORLDS if sites else WORLDS[:1]:
        V = Values(("rec",), drawn, sites, loops, w)
        r = [V.literal(c, v) for c, v in ls]
        if all(x == "T" for x in r) or not diff and all(x in ("T", "stuck") for x in r):
            res.fail("recursion", "%s:%s" % (fi.qual, ast.unparse(node)[:80]), "%s calls itself again under a condition nothing changes%s" % (
                fi.qual, SITUATION[w]), "%s:%s" % (fi.path, getattr(node, "lineno", 0)), stack)
            return


GROW = ("append", "extend", "insert", "appendleft")


def growing(ctx, res):
    """for x in L: ... L.append(..) on every pass, without a way out"""
    for m in ctx.prog.modules.values():
        if not m.name.startswith(("niapy.algorithms", "niapy.util", "niapy.task", "niapy.runner")):
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.For):
                continue
            it = n.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args:
                it = it.args[0]
            if not isinstance(it, (ast.Name, ast.Attribute)):
                continue
            res.add("walks of a named collection checked for growth")
            src = ast.unparse(it)
            if any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for b in n.body for x in ast.walk(b)):
                continue
            for s in n.body:
                c = s.value if isinstance(s, ast.Expr) else None
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in GROW and ast.unparse(c.func.value) == src:
                    res.fail("growing", "%s:%s" % (m.name, test_text(n)[:80]), "every pass over %s extends it" % src, "%s:%s" % (m.path, n.lineno))


def check(ctx, res):
    run_classes(ctx, "c21", res)
    growing(ctx, res)
