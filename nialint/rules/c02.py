"""C02 the objective is only evaluated inside the box: confinement as a facet of every abstract value."""
from .. import terms as t
from ..base import run_classes

RULE = ("Abstract interpretation of construction and run() of every exported algorithm. Every abstract array value carries a confinement facet "
        "(confined / placeholder / unknown / not confined) computed from its defining term: the bounds themselves, uniform samples between the "
        "bounds, repair()/clip results, selections and gated joins of confined points, coordinate-wise copies from the same coordinate, convex "
        "combinations and lower+upper-p keep it; any other arithmetic, draw or cross-coordinate store loses it; loops are solved to a fixpoint. "
        "The argument of every Task.eval reached must be confined. A violation names the evaluation site and the unconfined term; values the "
        "analysis cannot classify are listed as undecided, not alarmed.")
ASSUMPTIONS = ["the task's repair function returns a point inside the box (C16)", "user-supplied callables are not analysed; the bundled defaults are",
               "floating-point rounding of convex combinations is ignored"]

STRUCT = {"phi", "upd", "cat", "map", "list", "row", "col", "fld", "chk", "fill", "rept", "mapx", "ind"}
WILD = {"normal", "standard_normal", "standard_cauchy", "cauchy", "exponential", "integers", "gamma", "beta", "poisson", "lognormal", "laplace", "choice", "permutation", "random"}


def conj(c, val):
    if c.op == "and" and val:
        return conj(c.args[0], True) + conj(c.args[1], True)
    if c.op == "or" and not val:
        return conj(c.args[0], False) + conj(c.args[1], False)
    if c.op == "not":
        return conj(c.args[0], not val)
    return [(c, val)]


def bound_sides(conds, x):
    """which bounds do the conditions compare anything with?"""
    out = set()
    for c, _ in conds:
        for s in operands(c, ("E", "E1", "Em")):
            if s.op == "lower":
                out.add("lo")
            elif s.op == "upper":
                out.add("up")
    return out


def inv(cs):
    """conditions on the configuration, which hold in every iteration alike"""
    return tuple((c, v) for c, v in cs if c.op == "sym" and str(c.args[0]).startswith("cfg."))


def offenders(term, pc=(), limit=400):
    """(leaf, conditions) for the unconfined components of a term, through selections, joins, stores and loops"""
    out, seen = [], set()
    stack = [(term, inv(k for c, v in pc for k in conj(c, v)))]
    n = 0
    while stack and n < limit:
        x, cs = stack.pop()
        if x.feas not in ("B", "U") or (x, cs) in seen:
            continue
        seen.add((x, cs))
        n += 1
        if x.op == "phi":
            if (x.args[0], False) not in cs:
                stack.append((x.args[1], cs + ((x.args[0], True),)))
            if (x.args[0], True) not in cs:
                stack.append((x.args[2], cs + ((x.args[0], False),)))
        elif x.op == "upd":
            p, i, v = x.args
            k = len(stack)
            stack.append((p, cs))
            if v.feas in ("B", "U"):
                stack.append((v, cs + ((i, True),)))
            elif v.feas == "F" and p.feas in ("F", "P"):
                out.append((x, cs, "coordinate"))          # coordinate i receives a value of another coordinate / a constant
        elif x.op in ("cat", "list"):
            stack.extend((a, cs) for a in x.args)
        elif x.op == "map":
            stack.append((x.args[1], cs))
        elif x.op in ("row", "col", "fld", "chk", "fill", "rept"):
            stack.append((x.args[0], cs))
        elif x.op == "mapx":
            stack.append((x.args[1], cs))
        elif x.op == "ind":
            v = t.ind_get(x, "x")
            if v is not None:
                stack.append((v, cs))
        elif x.op == "lphi":
            for d in t.DEFS.get(x, ()):
                stack.append((d, inv(cs)))
        else:
            out.append((x, cs, "leaf"))
    return out


def affine_box(x):
    """lower + (range-proportional term): a rescaling of the whole box, not decidable here"""
    if x.op != "bin" or x.args[0] not in ("+", "-"):
        return False

    def has_range(y):
        if t.is_range(y) is not None:
            return True
        return y.op == "bin" and y.args[0] in ("*", "/") and any(has_range(a) for a in y.args[1:])
    a, b = x.args[1], x.args[2]
    for p, q in ((a, b), (b, a)):
        if (t.is_lower(p) is not None or t.is_upper(p) is not None) and has_range(q):
            return True
    return False


def scaled_definite(x):
    """lower + range*u with u something that is plainly not in [0,1]"""
    def factor(y):
        if t.is_range(y) is not None:
            return []
        if y.op == "bin" and y.args[0] == "*":
            return factor(y.args[1]) + factor(y.args[2])
        return [y]
    a, b = x.args[1], x.args[2]
    for p, q in ((a, b), (b, a)):
        if t.is_lower(p) is not None or t.is_upper(p) is not None:
            fs = factor(q)
            if any(f.op == "draw" and f.args[1] in WILD - {"random"} for f in fs):
                return True
            if any(t.is_const(f) and isinstance(t.cval(f), (int, float)) and not 0 <= t.cval(f) <= 1 for f in fs):
                return all(t.is_const(f) or t.is_unit(f) for f in fs)
    return False


def operands(x, stop=()):
    """the terms whose value enters x: not the conditions of a selection nor the parameters of a draw"""
    seen, stack = set(), [x]
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        yield y
        a = [z for z in y.args if isinstance(z, t.T)]
        stack.extend(() if y.op == "draw" or y.op in stop else a[1:] if y.op == "phi" else a)


def unbounded_noise(x):
    """something plus or minus (a multiple of) a draw without bounds"""
    if x.op != "bin" or x.args[0] not in ("+", "-"):
        return False

    def noise(y):
        if y.op == "bin" and y.args[0] == "*":
            return any(noise(a) for a in y.args[1:]) and all(noise(a) or a.op == "sym" for a in y.args[1:])
        return y.op == "draw" and y.args[1] in ("normal", "standard_normal", "standard_cauchy", "laplace")
    return any(noise(a) and not b.top or noise(a) and b.op == "top" for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])))


def flat_bound(a):
    """one number used as the bound of every coordinate"""
    if t.is_const(a):
        return True
    if a.op == "call" and a.args[0] in ("min", "max", "mean", "median", "amin", "amax") and len(a.args) > 1 and isinstance(a.args[1], t.T):
        return a.args[1].op in ("lower", "upper")
    return a.op == "row" and a.args[0].op in ("lower", "upper") and t.is_const(a.args[1]) and isinstance(t.cval(a.args[1]), int)


def definite(x, cs, kind, pc):
    """is this component plainly not confined (as opposed to not understood)?"""
    if x.top and not unbounded_noise(x):
        return False
    sides = bound_sides([k for c, v in cs for k in conj(c, v)], x)
    if kind == "coordinate":
        return len(sides) < 2
    if len(sides) == 2:
        return False
    if x.op == "bin":
        if affine_box(x):
            return scaled_definite(x)
        # arithmetic of a clipped/min/max expression, or with bounds inside calls: do not guess
        for s in operands(x):
            if s.op == "call" and s.args[0] == "clip" and len(s.args) == 4:
                if any(q.op in ("lower", "upper") for a in s.args[2:] for q in t.leaves(a, follow=lambda l: False)):
                    return False
                continue
            if s.op == "call" and s.args[0] in ("min2", "max2", "clip", "mod", "fmod", "remainder", "bin%") and any(q.op in ("lower", "upper") for q in t.leaves(s, follow=lambda l: False)):
                return False
            if s.op == "bin" and s.args[0] == "%" :
                return False
        return True
    if x.op == "un":
        return True
    if x.op == "draw":
        if x.args[1] in WILD:
            return True
        if x.args[1] == "uniform":
            return not any(q.op in ("lower", "upper") for a in x.args[2:] if isinstance(a, t.T) for q in t.leaves(a, follow=lambda l: False))
        return False
    if x.op == "call":
        n = x.args[0]
        if n == "clip" and len(x.args) == 4 and x.args[1].feas != "F":
            return any(flat_bound(a) for a in x.args[2:])
        if n in ("abs", "sin", "cos", "exp", "sqrt", "sign", "tan", "square", "add", "multiply", "floor", "ceil", "round"):
            return True
        if n in ("min2", "max2"):
            return len({q.op for q in t.leaves(x, follow=lambda l: False) if q.op in ("lower", "upper")}) < 2 and any(o[2] for o in [(0, 0, a.feas == "B" and not a.top) for a in x.args[1:]])
        if n == "badrepair":
            return True
        return False
    if x.op == "const":
        return isinstance(t.cval(x), (int, float)) and x.feas == "B"
    return False


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    res.add("functions interpreted", len(R.I.nfn))
    for e in R.events:
        if e.kind != "eval":
            continue
        res.add("evaluation sites x contexts")
        c = e.data["c"]
        if c.feas == "F":
            res.add("proved confined")
            continue
        fn = e.stack[-1][0] if e.stack else ci.name
        bad = [o for o in offenders(c, e.data["st_pc"]) if definite(*o, e.data["st_pc"])]
        if bad:
            x = bad[0][0]
            res.fail("unconfined-eval", "%s" % fn, "point evaluated for %s is not confined to the bounds: component %s" % (ci.name, t.show(x)[:160]), e.where(), e.stack)
        else:
            res.undec("%s: %s" % (ci.name, e.where()))


def check(ctx, res):
    run_classes(ctx, "c02", res)
