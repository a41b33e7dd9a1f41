"""Would the reported best be the result of one given evaluation if that were better than every other value?

Abstract values of a term: K it is (an array: contains) that result, N it surely is not, P it is on some paths and is not on others although the
evaluation was made, U not decided. P comes with the condition that decides.
"""
from . import terms as t
from .pairing import first_min


class Heard:
    def __init__(self, o, k, pc, chance):
        self.o, self.k, self.site = o, k, t.sym("site:%d" % k, nd=1)
        self.pc = list(pc)
        self.chance = chance
        self.memo, self.cmemo, self.stack = {}, {}, []
        self.n = 0
        self.why = None

    # ---- where the mark occurs
    def has(self, y):
        r = self.cmemo.get(y)
        if r is None:
            r = self.cmemo[y] = self._search(y, None)
        return r

    def _search(self, y, loop):
        """the mark occurs in y; with loop: without going through the headers of that loop"""
        seen, todo = set(), [y]
        while todo:
            z = todo.pop()
            if z in seen:
                continue
            seen.add(z)
            if z is self.site:
                return True
            if z.op != "lphi":
                todo.extend(a for a in z.args if isinstance(a, t.T))
            elif z in t.DEFS and not self.o.lphi(z) and (loop is None or z.args[0] != loop):
                todo.extend(t.DEFS[z])
        return False

    # ---- values
    def val(self, y, env=()):
        y = t.strip(y)
        if y is self.site:
            return "N" if dict(env).get("mode") == "other" else "K"
        if any(y is z for z in dict(env).get("ov", ())):
            return "K"
        if not self.has(y):
            return "U" if y.top and False else "N"
        key = (y, env)
        if key in self.memo:
            return self.memo[key] or "U"
        self.n += 1
        if self.n > 20000 or len(self.stack) > 150:
            return "U"
        self.memo[key] = None
        self.stack.append(y)
        r = self._val(y, env)
        self.stack.pop()
        self.memo[key] = r
        return r

    def _val(self, y, env):
        o, a = y.op, [z for z in y.args if isinstance(z, t.T)]
        if o == "E":
            return self.val(a[-1], env) if y.args[0] == 1 or True else "U"
        if o == "phi":
            c = self.cond(y.args[0], env)
            if c is True:
                return self.val(y.args[1], env)
            if c is False:
                return self.val(y.args[2], env)
            x, z = self.val(y.args[1], env), self.val(y.args[2], env)
            if x == z:
                return x
            if c == "free" and "U" not in (x, z):
                if {x, z} == {"K", "N"}:
                    self.why = self.why or y.args[0]
                return "P"
            return "U"
        if o == "lphi":
            return self.loopval(y, y, lambda z: z, env)
        if o in ("col", "fld") and a[0].op == "lphi":
            w = t.col if o == "col" else t.fld
            return self.loopval(y, a[0], lambda z: w(z, y.args[1]), env)
        if o == "row":
            return self.rowval(y, env)
        if o == "upd":
            A, i, v = y.args[0], y.args[1], y.args[2]
            rv = self.val(v, env)
            if rv == "K":
                return "K"
            ra = self.val(A, env)
            if ra == "N":
                return rv
            if rv == "N" and i.op == "bv":
                return ra       # other entries of the same walk
            if ra in ("K", "P") and self.walked(A, i, env):
                return ra
            if ra in ("K", "P"):
                # the entry itself may be the one: it has to stay
                cell = t.row(A, i)
                e = dict(env)
                e["ov"] = e.get("ov", ()) + (cell,)
                if self.val(v, self.env(e)) == "K":
                    return ra
            return "U"
        if o in ("cat", "list"):
            rs = [self.val(z, env) for z in a]
            return "K" if "K" in rs else "U" if "U" in rs else "P" if "P" in rs else "N"
        if o in ("map", "fill", "copy"):
            return self.val(a[-1], env)
        if o == "call" and y.args[0] in ("min", "amin", "minimum", "fmin", "nanmin"):
            rs = [self.val(z, env) for z in a]
            return "K" if "K" in rs else "U" if "U" in rs else "P" if "P" in rs else "N"
        if o == "call" and y.args[0] in ("copy", "asarray", "array", "float", "sort"):
            return self.val(a[0], env) if len(a) == 1 else "U"
        return "U"

    def rowval(self, y, env):
        A, i = y.args[0], y.args[1]
        ra = self.val(A, env)
        f = first_min(i)
        if f is not None and t.same(f, A):
            return ra
        if i.op == "call" and i.args[0] == "argsort" and t.same(i.args[1], A):
            return ra
        if t.is_const(i) and t.cval(i) == 0 and A.op == "row" and A.args[1].op == "call" and A.args[1].args[0] == "argsort" and t.same(A.args[1].args[1], A.args[0]):
            return ra
        if i.op == "slice" and i.args[0] is t.NONE and i.args[2] is t.NONE and A.op == "row" and A.args[1].op == "call" and A.args[1].args[0] == "argsort" \
                and t.same(A.args[1].args[1], A.args[0]) and not (t.is_const(i.args[1]) and t.cval(i.args[1]) == 0):
            return ra
        if ra == "N" or self.walked(A, i, env):
            return "N"
        if A.op == "lphi" and i.nd == 0 and not any(z.op == "lphi" and z.args[0] == A.args[0] for z in t.leaves(i)) \
                and i is not self.index(A.args[0]):
            return self.loopval(y, A, lambda z: t.row(z, i), env)
        if i.op == "bv" and A.op in ("map", "upd"):
            return "U"
        return "U"

    def index(self, lid):
        return t.sym("i:%s" % (lid,), nd=0)

    def walked(self, A, i, env):
        """A is carried by a loop over i that writes the i-th entry only, and the evaluation was made in an earlier pass"""
        while A.op == "upd" and A.args[1] is i:
            A = A.args[0]
        if A.op == "col":
            A = A.args[0]
        if A.op != "lphi" or A not in t.DEFS or i is not self.index(A.args[0]) or dict(env).get(A.args[0]) != "R":
            return False
        todo, seen = [t.DEFS[A][1]], set()
        while todo:
            z = todo.pop()
            if z in seen or z is A:
                continue
            seen.add(z)
            if z.op == "phi":
                todo.extend(z.args[1:])
            elif z.op == "upd" and z.args[1] is i:
                todo.append(z.args[0])
            elif z.op == "lphi" and z in t.DEFS:
                todo.extend(t.DEFS[z])
            else:
                return False
        return True

    def env(self, e):
        return tuple(sorted(e.items(), key=lambda kv: repr(kv[0])))

    def loopval(self, y, l, w, env):
        """y = w(l): the header of a loop, or a field of it"""
        if self.o.lphi(l):
            return "N"
        if l not in t.DEFS:
            return "U"
        lid = l.args[0]
        e = dict(env)
        if lid in e:
            if e[lid] == "N":
                return "N"
            e2 = dict(env)
            if e[lid] == "R":       # as the pass that made the evaluation left it
                e2[lid], e2["mode"] = "N", "this"
                return self.val(w(t.DEFS[l][1]), self.env(e2))
            del e2[lid]             # "E": as it entered the loop
            e2["mode"] = e[lid][1]
            if e2["mode"] is None:
                del e2["mode"]
            return self.val(w(t.DEFS[l][0]), self.env(e2))
        entry, back = (w(z) for z in t.DEFS[l])
        mode = e.get("mode")
        if self._search(back, lid) and mode != "other":
            if self.val(entry, env) != "N":
                return "U"
            e[lid], e["mode"] = "N", "this"
            v1 = self.val(back, self.env(e))
            if v1 in ("N", "U"):
                return v1
            e[lid], e["mode"] = "R", "other"
        else:
            v1 = self.val(entry, env)
            if v1 == "U":
                return v1
            e[lid], e["mode"] = ("E", mode), "other"
            if v1 == "N" and self.val(back, self.env(e)) == "N":
                return "N"
        r = self.val(back, self.env(e))
        return v1 if r == v1 else "P" if v1 == "K" and r in ("P", "N") else "U"

    # ---- conditions: True, False, "free" (either, whatever the evaluation gave), None
    def cond(self, c, env):
        if c.op == "not":
            r = self.cond(c.args[0], env)
            return (not r) if isinstance(r, bool) else r
        if c.op in ("and", "or"):
            rs = [self.cond(z, env) for z in c.args if isinstance(z, t.T)]
            stop = c.op == "or"
            if any(r is stop for r in rs):
                return stop
            if None in rs:
                return None
            return "free" if "free" in rs else not stop
        if t.is_const(c):
            return bool(t.cval(c))
        for p, v in self.pc:
            if t.same(p, c):
                return v
            if t.same(p, t.not_(c)):
                return not v
        if c.op == "row" and first_min(c.args[1]) is not None and self.val(first_min(c.args[1]), env) == "K":
            return self.cond(c.args[0], env)
        if not self.has(c):
            return "free" if self.chance(c) else None
        if c.op == "cmp":
            o, a, b = c.args
            va, vb = self.val(a, env), self.val(b, env)
            if "U" in (va, vb):
                return None
            va, vb = ("K" if v == "P" else v for v in (va, vb))
            if va == vb == "N":
                return "free" if self.chance(c) else None
            if o in (">", ">="):
                o, va, vb = {">": "<", ">=": "<="}[o], vb, va
            if o in ("<", "<="):
                if va == "K" and vb == "N":
                    return True
                if va == "N" and vb == "K":
                    return False
                return o == "<="
            if o in ("==", "!=") and {va, vb} == {"K", "N"}:
                return o == "!="
        return None
