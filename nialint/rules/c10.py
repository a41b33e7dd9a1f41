"""C10 runs of one instance are independent."""
import ast

from .. import terms as t
from ..base import run_classes
from ..interp import S, Ref, Obj, Lst, Dct, Arr, Fn, BM, PhiV, Tup, RngV, Bot, BOT
from .c09 import chain

RULE = ("Abstract interpretation of two consecutive runs of one instance. First run: every attribute of the instance that is assigned, and every object it "
        "holds that is changed, is recorded; configured options (constructor parameters, and attributes holding one) must come out of the run as they "
        "went in. Second run: what the first one left behind is replaced by opaque symbols; no path may read one of them before the run has assigned "
        "the attribute anew (increments whose result is never used and values computed from the configuration alone do not count).")
ASSUMPTIONS = ["the position of the random generator is not state", "callbacks do not edit the instance"]
SKIP = {"rng", "callbacks"}


def prevs(c):
    return {x.args[0][5:] for x in t.leaves(c) if x.op == "sym" and str(x.args[0]).startswith("prev.")} if isinstance(c, t.T) else set()


def atoms(c):
    return [x for x in t.leaves(c) if x.op in ("E", "draw", "lphi") or not any(isinstance(a, t.T) for a in x.args)]


def fixed(c):
    """a condition that has one value for a whole run"""
    return all(t.is_const(x) or x.op == "sym" and str(x.args[0]).startswith(("cfg.", "prev.", "max_", "opt", "D", "inf")) or x.op in ("upper", "lower")
               for x in atoms(c))


def used(I, st, v, name, depth=0):
    """'yes' the value is (computed from) what the last run left under name; 'maybe' on some path; '' no"""
    v = I.prune(st, v)
    if isinstance(v, PhiV):
        a, b = used(I, st, v.a, name), used(I, st, v.b, name)
        if a == b == "yes" or "yes" in (a, b) and fixed(v.c):
            return "yes"
        return "maybe" if a or b else ""
    if isinstance(v, Ref):
        r = st.heap.get(v.oid)
        if isinstance(r, Obj) or isinstance(r, Dct):
            return ""
    if isinstance(v, (Fn, BM, RngV, Bot)):
        return ""
    return used_t(I.content(st, v), name)


def used_t(c, name, depth=0):
    if name not in prevs(c):
        return ""
    if c.op in ("phi", "gphi"):
        a, b = used_t(c.args[1], name), used_t(c.args[2], name)
        if a == b == "yes" or "yes" in (a, b) and fixed(c.args[0]):
            return "yes"
        return "maybe"
    if c.op == "sym":
        return "yes"
    if c.top:
        return "maybe"
    sub = [used_t(x, name) for x in c.args if isinstance(x, t.T)]
    return "yes" if "yes" in sub else "maybe"


def rec(R, st, v):
    """comparable record of what an attribute holds"""
    if isinstance(v, Ref):
        return st.heap.get(v.oid)
    return v


def place(fi, node):
    return "%s:%d (%s)" % (fi.path, getattr(node, "lineno", fi.node.lineno), fi.qual)


def check_class(ctx, ci, res):
    name = ci.name
    d = ctx.driver
    R = d.run_class(ci)
    if R.final is None or R.final[0].dead:
        res.undec("%s: every path of run() was pruned" % name)
        return
    I = R.I
    n0 = len(R.ctor_events)
    writes = {}
    for e in R.events[n0:]:
        if e.kind == "attr_write" and e.data["oid"] == R.alg.oid and e.data["name"] not in SKIP:
            writes.setdefault(e.data["name"], []).append(e)
    before, after = R.st_ctor.heap[R.alg.oid], R.final[0].heap.get(R.alg.oid)
    if not isinstance(after, Obj):
        res.undec("%s: the instance after a run" % name)
        return
    opts = {p for p in chain(ci, "__init__") if p in before.attrs} - SKIP - {"seed"}
    for n, v in before.attrs.items():
        if isinstance(v, S) and v.t.op == "sym" and str(v.t.args[0]).startswith("cfg."):
            opts.add(n)
    opts |= {"population_size", "initialization_function", "individual_type"} & set(before.attrs)
    # --- configuration survives
    changed = {}
    for n, v in before.attrs.items():
        if n in SKIP:
            continue
        w = after.attrs.get(n)
        if n in opts:
            res.add("options followed through a run")
        if w is v:
            if isinstance(v, Ref):
                x, y = R.st_ctor.heap.get(v.oid), R.final[0].heap.get(v.oid)
                if x is not y and isinstance(x, (Lst, Dct, Arr)) and x != y:
                    changed[n] = [e for e in R.events[n0:] if e.kind in ("mutate", "dict_set") and e.data.get("oid") == v.oid]
                    if n in opts:
                        es = changed[n]
                        if es:
                            res.fail("option_changed", "%s.%s" % (name, n), "%s.run() changes the object configured as %s" % (name, n), es[0].where(), es[0].stack)
                        else:
                            res.undec("%s: object configured as %s" % (name, n))
            continue
        if n not in opts or n not in writes:
            continue
        a, b = val(I, R.st_ctor, v), val(I, R.final[0], w)
        if a is not None and b is not None and t.same(a, b) or v == w:
            continue
        es = [e for e in writes[n] if not same_val(I, R.st_ctor, R.final[0], v, e.data["val"])]
        if not es:
            continue
        if isinstance(w, S) and w.t.top and isinstance(es[-1].data["val"], S) and es[-1].data["val"].t.top:
            res.undec("%s: option %s after a run" % (name, n))
            continue
        e = es[0]
        res.fail("option_changed", "%s.%s" % (name, n), "%s.run() assigns %s to the configured option %s" % (name, sh(e.data["val"], I, R.final[0]), n), e.where(), e.stack)
    # --- nothing is kept on the class or the module
    for e in R.events[n0:]:
        oid = e.data.get("oid")
        if e.kind in ("mutate", "dict_set") and isinstance(oid, tuple) and oid and oid[0] == "G":
            res.fail("shared", "%s.%s" % oid[1:3], "a run of %s changes the process-wide object %s.%s" % ((name,) + oid[1:3]), e.where(), e.stack)
        elif e.kind in ("class_attr_write", "module_attr_write"):
            res.fail("shared", "%s.%s" % (e.data.get("cls") or e.data.get("mod"), e.data["name"]), "a run of %s rebinds a class or module attribute" % name, e.where(), e.stack)
    # --- working state is set up anew
    left = {n for n in set(writes) | set(changed) | {"exception"} & set(before.attrs) if n not in opts}
    for n in sorted(left):
        res.sample("%s keeps %s on the instance" % (name, n))
    if not left:
        return
    memo, flag = set(), set()
    for n in left:
        cs = {val(I, R.final[0], e.data["val"]) for e in writes.get(n, ())}
        if len(cs) == 1 and n not in changed:
            c = next(iter(cs))
            if c is not None and not c.top:
                ls = atoms(c)
                if t.is_const(c):
                    flag.add(n)
                elif all(t.is_const(x) or x.op == "sym" and str(x.args[0]).startswith("cfg.") for x in ls):
                    memo.add(n)
    reads = {}

    def prep(R2, st):
        o = st.heap[R2.alg.oid]
        at = dict(o.attrs)
        for n in left:
            at[n] = S(t.sym("prev." + n, nd=None))
        st.heap[R2.alg.oid] = o._replace(attrs=at)
        I2 = R2.I

        def hook(st2, n, node):
            if n in left:
                r = role(I2.stack[-1][0], node, n)
                if r == "reset":
                    o2 = st2.heap[R2.alg.oid]
                    st2.heap[R2.alg.oid] = o2._replace(attrs={**o2.attrs, n: S(t.top("emptied " + n))})
                    return
                u = used(I2, st2, st2.heap[R2.alg.oid].attrs.get(n, BOT), n)
                if u:
                    fi = I2.stack[-1][0]
                    reads.setdefault(n, []).append((u, r, fi, node, tuple((f.qual, f.path, x.lineno) for f, x in I2.stack[1:] if hasattr(x, "lineno"))))
        I2.own_read_hook = hook
    R2 = d.run_class(ci, prep=prep)
    res.add("attributes kept on the instance", len(left))
    hard = {}
    for n, rs in reads.items():
        other = [r for r in rs if r[1] != "inc"]
        if len(other) < len(rs):
            flag.discard(n)
        if not other or n in memo:
            continue
        yes = [r for r in other if r[0] == "yes"]
        if yes:
            hard[n] = yes[0]
        else:
            res.undec("%s: is %s set before it is used" % (name, n))
    if set(hard) <= flag:
        hard = {}
    for n, (u, _, fi, node, stack) in sorted(hard.items()):
        if n in flag and len(hard) > 1 and any(m not in flag for m in hard):
            continue
        res.fail("leftover", "%s.%s" % (name, n), "%s.run() uses the value of %s that an earlier run left on the instance" % (name, n), place(fi, node))
    if R2.final is not None and not R2.final[0].dead:
        o = R2.final[0].heap.get(R2.alg.oid)
        if isinstance(o, Obj) and "exception" in left:
            if used(R2.I, R2.final[0], o.attrs.get("exception", BOT), "exception"):
                res.fail("leftover", "%s.exception" % name, "the exception of an earlier run stays recorded after %s.run()" % name, place(ci.find("run"), ci.find("run").node))


def role(fi, node, name):
    """how a read is used: 'inc' target of an augmented assignment, 'reset' receiver of clear() or of a whole-content store"""
    p = parent(fi.node, node)
    q = node
    while q is not None and not isinstance(q, ast.stmt):
        q = parent(fi.node, q)
    if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Attribute) and q.targets[0].attr == name:
        return "inc"
    if isinstance(p, ast.AugAssign) and p.target is node or isinstance(node, ast.AugAssign):
        return "inc"
    if isinstance(p, ast.Attribute) and p.attr in ("append", "extend", "add", "insert", "update") and isinstance(q, ast.Expr) and isinstance(q.value, ast.Call) and q.value.func is p:
        return "inc"
    if isinstance(p, ast.Attribute) and p.attr in ("clear", "fill"):
        return "reset"
    if isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Store) and isinstance(p.slice, ast.Slice) and p.slice.lower is None and p.slice.upper is None:
        return "reset"
    return ""


def parent(root, node):
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            if c is node:
                return n
    return None


def val(I, st, v):
    if isinstance(v, (Fn, BM)):
        return t.sym("fn:%s.%s" % (v.fi.module.name, v.fi.qual), nd=None)
    if isinstance(v, (RngV, Bot)):
        return None
    return I.content(st, v)


def same_val(I, st0, st1, a, b):
    if a == b:
        return True
    x, y = val(I, st0, a), val(I, st1, b)
    return x is not None and y is not None and t.same(x, y)


def sh(v, I, st):
    c = val(I, st, v)
    return t.show(c)[:60] if isinstance(c, t.T) else str(v)[:60]


def check(ctx, res):
    run_classes(ctx, "c10", res)
