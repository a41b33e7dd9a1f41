"""C09 algorithm parameters are honoured and reported back consistently."""
import ast

from .. import terms as t
from ..base import run_classes
from ..interp import S, Ref, Obj, Lst, Dct, Tup, Fn, BM, PhiV, RngV, vleaves, Bot
from ..probspec import World, compare

RULE = ("Abstract interpretation of every algorithm's constructor, set_parameters and get_parameters with symbolic options. For each option: the constructor "
        "must store the symbol; a default-constructed object after set_parameters(option=symbol) must have the attributes of an object constructed with it, "
        "attribute by attribute (terms compared in a polynomial normal form), which includes the defaults of everything left out; the report must list the "
        "symbol under the option's name or, renamed, under another one.")
ASSUMPTIONS = ["an inherited option that a class removes (pops) or overrides with a constant is not one of its options"]
OUT = {"callbacks", "seed"}
ERR = ("dup_arg", "dup_kw", "unexpected_kw", "missing_arg", "too_many_args")


def chain(ci, meth):
    """explicit parameter names along the method's resolution order -> {name: declaring class}"""
    out = {}
    for c in ci.mro():
        if meth in c.methods:
            pos, kwo, va, kwa = c.methods[meth].params()
            for n in pos[1:] + kwo:
                out.setdefault(n, c)
            if not (va or kwa):
                break
    return out


class Built:
    def __init__(self, ctx, ci, ctor, setter=None):
        w = self.w = World(ctx.driver, reset=False)
        I = self.I = w.I
        self.bound, self.popped = {}, set()
        obind, opop = I.bind, I.dict_pop

        def bind(st, fi, args, kw, node, maybe=frozenset(), open_=False, quiet=False):
            b = obind(st, fi, args, kw, node, maybe, open_, quiet)
            if fi.name == "__init__" and fi.cls is not None:
                self.bound[fi.cls.name] = b
            return b

        def pop(st, d, keyt, default, node):
            if t.is_const(keyt):
                self.popped.add(t.cval(keyt))
            return opop(st, d, keyt, default, node)
        I.bind, I.dict_pop = bind, pop
        n0 = len(I.events)
        r = I.instantiate(w.st, ci, [], syms(ctor), w.node)
        self.ctor_err = [e for e in I.events[n0:] if e.kind in ERR]
        self.set_err = []
        self.popped_ctor = set(self.popped)
        self.ref = r if isinstance(r, Ref) and not w.st.dead else None
        if setter is not None and self.ref is not None:
            n1 = len(I.events)
            I.call_fn(w.st, ci.find("set_parameters"), [r], syms(setter), ast.parse("\n\n\nx()").body[0].value)
            self.set_err = [e for e in I.events[n1:] if e.kind in ERR]
        self.attrs = None
        if self.ref is not None and not w.st.dead:
            rec = w.st.heap[r.oid]
            self.attrs = dict(rec.attrs) if isinstance(rec, Obj) else None

    def val(self, v):
        """comparable content of an attribute value"""
        if isinstance(v, (RngV,)):
            return None
        if isinstance(v, (Fn, BM)):
            return t.sym("fn:%s.%s" % (v.fi.module.name, v.fi.qual), nd=None)
        its = self.I.exact_items(self.w.st, v) if isinstance(v, (Tup, Ref)) else None
        if its is not None and not isinstance(v, Tup):
            v = Tup(tuple(its))
        return self.I.content(self.w.st, v)


def syms(names):
    return {n: S(t.sym("req." + n, nd=0)) for n in names}


def mentions(c, p):
    return isinstance(c, t.T) and any(x.op == "sym" and x.args[0] == "req." + p for x in t.leaves(c))


def same(a, b):
    """True / False / None (not decided)"""
    if a is None or b is None:
        return True if a is b else None
    if t.is_const(a) and t.is_const(b):
        x, y = t.cval(a), t.cval(b)
        return type(x) is bool and x is y or x == y and (isinstance(x, bool) == isinstance(y, bool))
    if t.same(a, b):
        return True
    if a.op == "tuplec" and b.op == "tuplec" and len(a.args) == len(b.args):
        r = [same(x, y) for x, y in zip(a.args, b.args)]
        return False if False in r else None if None in r else True
    for x, y in ((a, b), (b, a)):
        # stored as given on one side, replaced for some values on the other
        if x.op == "sym" and str(x.args[0]).startswith("req.") and y.op == "phi" and all(l.op == "sym" and str(l.args[0]).startswith("req.") or t.is_const(l)
                                                                                       for l in t.leaves(y.args[0])):
            r = [same(x, y.args[1]), same(x, y.args[2])]
            return False if False in r else None if None in r else True
    if a.top or b.top:
        return None
    fa, fb = (x.op == "sym" and str(x.args[0]).startswith("fn:") for x in (a, b))
    if fa or fb:
        return False if (fa or t.is_const(a)) and (fb or t.is_const(b)) or fa and b.op == "sym" or fb and a.op == "sym" else None
    if norm(a) == norm(b):
        return True
    c = compare(a, b)
    if c == "same":
        return True
    if c == "differ":
        return False
    # opaque functions of the same arguments: differ when they mention different options
    la, lb = ({x.args[0] for x in t.leaves(z) if x.op == "sym" and str(x.args[0]).startswith("req.")} for z in (a, b))
    if la != lb:
        return False
    return None


def norm(x):
    """commutative normal form of a term"""
    if not isinstance(x, t.T):
        return repr(x)
    if t.is_const(x):
        return repr(t.cval(x))
    a = [norm(y) for y in x.args]
    if x.op in ("+", "*", "add", "mul") or x.op == "bin" and a and a[0] in ("'+'", "'*'"):
        a = sorted(a)
    return "%s(%s)" % (x.op, ",".join(a))


def show(c):
    return t.show(c)[:60] if isinstance(c, t.T) else str(c)[:60]


def check_class(ctx, ci, res):
    name = ci.name
    init, setp, getp = ci.find("__init__"), ci.find("set_parameters"), ci.find("get_parameters")
    wi, ws, wg = ("%s:%d" % (f.path, f.node.lineno) for f in (init, setp, getp))
    decl = chain(ci, "__init__")
    own = {n for n, c in decl.items() if c is init.cls}
    base = ctx.driver.alg_cls
    opts = []
    t.reset()       # one term table for all worlds that are compared
    plain = Built(ctx, ci, [])
    if plain.attrs is None:
        res.undec("%s: construction" % name)
        return
    # --- what the constructor stores
    for p, c in decl.items():
        if p in OUT:
            continue
        b = Built(ctx, ci, [p])
        res.add("options analysed")
        if b.attrs is None:
            res.undec("%s: construction with %s" % (name, p))
            continue
        if b.ctor_err:
            if p in own:
                e = b.ctor_err[0]
                res.fail("ctor_error", "%s.%s" % (name, p), "%s(%s=...) raises TypeError (%s)" % (name, p, e.kind), e.where())
            continue
        vals = {k: b.val(v) for k, v in b.attrs.items()}
        hold = [k for k, v in vals.items() if mentions(v, p)]
        if hold:
            opts.append((p, b))
            v = vals.get(p)
            if v is not None and not t.same(v, t.sym("req." + p, nd=0)):
                res.add("options stored under their name")
                if mentions(v, p) and not v.top and v.op == "phi" and compare(v, t.sym("req." + p, nd=0)) == "differ":
                    res.fail("altered", "%s.%s" % (name, p), "%s(%s=v) stores %s" % (name, p, show(v)), wi)
                elif mentions(v, p) and (v.top or v.op in ("phi", "gphi")):
                    res.undec("%s.%s is stored as %s" % (name, p, show(v)))
                elif v.top:
                    res.undec("%s.%s is stored as %s" % (name, p, show(v)))
                elif mentions(v, p) or any(str(x.args[0]).startswith("req.") for x in t.leaves(v) if x.op == "sym"):
                    res.fail("altered", "%s.%s" % (name, p), "%s(%s=v) stores %s" % (name, p, show(v)), wi)
            continue
        if p in b.popped_ctor:
            continue            # removed on purpose
        if p in own and p != "population_size":
            if any(v is not None and v.top for k, v in vals.items() if k not in ("callbacks",)):
                res.undec("%s: where option %s goes" % (name, p))
            else:
                res.fail("dropped", "%s.%s" % (name, p), "%s accepts %s but does not store it" % (name, p), wi)
            continue
        bd = b.bound.get(c.name)
        if bd is None or p not in bd:
            continue            # the declaring constructor is not part of the chain
        got = b.val(bd[p])
        if mentions(got, p):
            continue            # handed up and overridden on purpose
        fi = c.methods["__init__"]
        if c is not init.cls and explicit(ctx, ci, init, p):
            continue            # fixed by the class
        d = plain.bound.get(c.name, {}).get(p)
        if d is not None and same(plain.val(d), got) and c is not base or d is not None and same(plain.val(d), got) and p in ("population_size",) and not fixed_size(vals):
            res.fail("lost", "%s.%s" % (name, p), "%s(%s=v): the value does not reach %s, which stores its default" % (name, p, c.name), wi)
    # --- all options together: nothing is mixed up
    names = [p for p, _ in opts]
    allb = Built(ctx, ci, names)
    if allb.attrs is not None and not allb.ctor_err:
        for p in names:
            v = allb.attrs.get(p)
            v = allb.val(v) if v is not None else None
            if v is not None and not v.top and not mentions(v, p) and any(mentions(v, q) for q in names):
                res.fail("swapped", "%s.%s" % (name, p), "%s stores %s as its option %s" % (name, show(v), p), wi)
    # --- the same effect through set_parameters
    errs = set()
    for p, b in [(None, plain)] + opts:
        s = Built(ctx, ci, [], [p] if p else [])
        res.add("parameter settings compared")
        what = "%s.set_parameters(%s)" % (name, p + "=v" if p else "")
        if s.set_err:
            e = s.set_err[0]
            k = "%s:%s" % (name, e.data.get("name"))
            if k not in errs:
                errs.add(k)
                res.fail("set_error", k, "%s raises TypeError (%s %s)" % (what, e.kind, e.data.get("name")), e.where())
            continue
        if s.attrs is None:
            if s.w.st.dead:
                res.undec("%s: every path raises" % what)
            else:
                res.undec(what)
            continue
        for k in sorted(set(b.attrs) | set(s.attrs)):
            if k in ("rng", "callbacks", "exception") or (name, k) in errs:
                continue
            x, y = b.attrs.get(k), s.attrs.get(k)
            if x is None or y is None:
                if k not in plain.attrs and x is None:
                    continue        # set_parameters keeps an extra attribute
                if y is None:
                    res.undec("%s: attribute %s" % (what, k))
                continue
            if x == y and isinstance(x, S):
                continue
            res.add("attributes compared")
            xv, yv = b.val(x), s.val(y)
            r = same(xv, yv)
            if r is None:
                if not (xv is None or yv is None):
                    res.undec("%s: attribute %s is %s / %s" % (what, k, show(xv), show(yv)))
            elif not r:
                if p is None:
                    errs.add((name, k))
                    res.fail("default", "%s.%s" % (name, k), "%s sets %s to %s, the constructor to %s" % (what, k, show(yv), show(xv)), ws)
                else:
                    if mentions(xv, p) or mentions(yv, p):
                        res.fail("set_differs", "%s.%s.%s" % (name, p, k), "%s sets %s to %s, the constructor to %s" % (what, k, show(yv), show(xv)), ws)
                    else:
                        res.fail("set_default", "%s.%s.%s" % (name, p, k), "%s sets %s to %s, the constructor to %s" % (what, k, show(yv), show(xv)), ws)
    # --- the report
    if allb.attrs is None:
        return
    allb.popped.clear()
    n0 = len(allb.I.events)
    rv = allb.I.call_fn(allb.w.st, getp, [allb.ref], {}, ast.parse("\n\n\n\n\ng()").body[0].value)
    d = allb.w.st.heap.get(rv.oid) if isinstance(rv, Ref) else None
    if not isinstance(d, Dct):
        if allb.w.st.dead or isinstance(rv, S) and rv.t is t.NONE:
            res.fail("report_raises", name, "%s.get_parameters() does not return a report" % name, wg)
        else:
            res.undec("%s: report" % name)
        return
    miss = [e for e in allb.I.events[n0:] if e.kind in ("no_attr", "key_missing")]
    if miss:
        res.fail("report_raises", name, "%s.get_parameters() reads %s, which does not exist" % (name, miss[0].data.get("name", miss[0].data.get("key"))), miss[0].where())
        return
    rep = {k: allb.val(v) for k, v in d.entries}
    for p in names:
        res.add("reported options compared")
        v = rep.get(p)
        if v is None:
            if any(mentions(x, p) for x in rep.values()) or p in allb.popped:
                continue
            if d.open or any(x is not None and x.top for x in rep.values()):
                res.undec("%s: is %s reported" % (name, p))
            else:
                res.fail("unreported", "%s.%s" % (name, p), "%s.get_parameters() does not list the option %s" % (name, p), wg)
            continue
        cur = allb.attrs.get(p)
        cur = allb.val(cur) if cur is not None else t.sym("req." + p, nd=0)
        if p in d.maybe:
            res.undec("%s: is %s always reported" % (name, p))
        elif same(v, cur) is False:
            res.fail("misreported", "%s.%s" % (name, p), "%s.get_parameters() reports %s as %s, its value is %s" % (name, p, show(v), show(cur)), wg)
        elif same(v, cur) is None and v is not None and cur is not None and compare(v, cur) == "differ":
            res.fail("misreported", "%s.%s" % (name, p), "%s.get_parameters() reports %s as %s, its value is %s" % (name, p, show(v), show(cur)), wg)
        elif same(v, cur) is None:
            res.undec("%s: reported value of %s" % (name, p))


def fixed_size(vals):
    """the population size is fixed by the class (a constant one, or another option)"""
    v = vals.get("population_size")
    return v is not None and (v is t.const(1) or any(k != "population_size" and x is not None and x is v and not t.is_const(v) for k, x in vals.items())
                              or any(k in ("mu",) and x is not None and same(x, v) for k, x in vals.items()))


def explicit(ctx, ci, init, p):
    """does a class between ci and the declaring one pass p explicitly to the constructor above it"""
    for c in ci.mro():
        m = c.methods.get("__init__")
        if m is None:
            continue
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and any(k.arg == p for k in n.keywords):
                return True
    return False


def check(ctx, res):
    run_classes(ctx, "c09", res, variants=False)
