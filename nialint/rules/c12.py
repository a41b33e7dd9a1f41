"""C12 every exported algorithm and problem can be created by name."""
import ast

from .. import terms as t
from ..interp import S, Ref, Obj, Lst, Dct, Tup, Cls, Fn, PhiV, vleaves, Bot
from ..loader import ClassInfo
from ..probspec import World, exported_problems

RULE = ("Abstract interpretation of get_algorithm / get_problem at every name: the constant class name of every exported algorithm, every problem name "
        "in the tables, and names that are not registered. Constructions are intercepted: the class reached and the positional and keyword arguments "
        "that reach it must be the ones asked for, on every path; unregistered names must raise on every path. The Name list of each exported "
        "algorithm is resolved through the class hierarchy and must contain the class name.")
ASSUMPTIONS = ["names are compared as the program does: problem names are case-insensitive"]
ALIAS = {"schaffer2": "SchafferN2", "schaffer4": "SchafferN4", "conditioned_elliptic": "Elliptic"}
FACT = "niapy.util.factory"
NONE = ((), ())
FORMS = (NONE, (("arg.0", "arg.1"), ("alpha", "seed")), ((), ("seed",)), (("arg.0",), ()), ((), ("alpha", "dimension", "population_size")),
         (((0, 0), (1, None)), (("alpha", 0), ("beta", None), ("gamma", False), ("seed", 0.0), ("text", ""), ("n", 7))))


def given(form):
    """the arguments of a call form: one of its own for each name, or the constant the form states"""
    val = lambda n, pre: (n, t.sym(pre + n, nd=0)) if isinstance(n, str) else (n[0], t.const(n[1]))
    return [val(n, "")[1] for n in form[0]], dict(val(n, "kw.") for n in form[1])


def ask(ctx, fn, name, full):
    """-> (world, [(ClassInfo, args, kw, state)], result)"""
    w = World(ctx.driver)
    I = w.I
    I.UNROLL = 400
    made = []
    base = (ctx.driver.alg_cls, ctx.driver.problem_cls)
    orig = I.instantiate

    def inst(st, ci, args, kw, node, maybe=frozenset(), open_=False):
        if isinstance(ci, ClassInfo) and ci.is_sub(base[0]) or isinstance(ci, ClassInfo) and ci.is_sub(base[1]):
            made.append((ci, list(args), dict(kw), frozenset(maybe), open_, st.pc))
            oid = ("MADE", ci.name)
            st.heap[oid] = Obj(ci, {}, None, ())
            return Ref(oid)
        return orig(st, ci, args, kw, node, maybe, open_)
    I.instantiate = inst
    ga, gk = given(full)
    args, kw = [S(t.const(name))] + [S(x) for x in ga], {k: S(x) for k, x in gk.items()}
    n0 = len(I.events)
    rv = I.call_fn(w.st, fn, args, kw, w.node)
    w.ev = I.events[n0:]
    return w, made, rv


def check_name(ctx, fn, name, want, kind, res):
    where = "%s:%d" % (fn.path, fn.node.lineno)
    ok = True
    for full in FORMS:
        w, made, rv = ask(ctx, fn, name, full)
        res.add("lookups analysed")
        if not made:
            if w.st.dead or any(e.kind == "key_missing" for e in w.ev):
                res.fail("not_registered", "%s:%s" % (kind, name), "%s %s is not found under its name '%s'" % (kind, want.name if want else "", name), where)
                return False
            if isinstance(rv, Cls) or isinstance(rv, S) and t.is_const(rv.t):
                res.fail("not_returned", kind, "the %s factory does not return an instance" % kind, where)
                return False
            res.undec("%s '%s': no construction seen" % (kind, name))
            return False
        for ci, args, kw, maybe, op, pc in made:
            if want is not None and ci is not want:
                if len(made) == 1 and not pc:
                    res.fail("wrong_class", "%s:%s" % (kind, name), "the name '%s' yields %s instead of %s" % (name, ci.name, want.name), where)
                else:
                    res.undec("%s '%s': several classes" % (kind, name))
                return False
            if full != NONE:
                res.add("argument lists compared")
                ga = [w.I.content(w.st, a) for a in args]
                gk = {k: w.I.content(w.st, v) for k, v in kw.items()}
                wa, wk = given(full)
                if any(x.top for x in ga) or any(x.top for x in gk.values()) or op or maybe:
                    res.undec("%s '%s': arguments" % (kind, name))
                elif ga != wa:
                    res.fail("arguments", "%s:positional" % kind, "positional arguments given to the %s factory reach the class as (%s)" % (kind, ", ".join(map(t.show, ga))), where)
                elif gk != wk:
                    res.fail("arguments", "%s:keyword" % kind, "keyword arguments given to the %s factory reach the class as {%s}" % (kind, ", ".join(sorted(gk))), where)
            elif args or kw:
                res.fail("arguments", "%s:extra" % kind, "the %s factory passes arguments nobody gave" % kind, where)
            if isinstance(rv, Ref) and rv.oid[0] == "MADE":
                continue
            vs = [l for l in vleaves(rv)]
            if not any(isinstance(l, Ref) and l.oid and l.oid[0] == "MADE" for l in vs):
                if all(isinstance(l, S) and t.is_const(l.t) for l in vs) or isinstance(rv, Cls):
                    res.fail("not_returned", kind, "the %s factory does not return the instance" % kind, where)
                else:
                    res.undec("%s '%s': what is returned" % (kind, name))
    return ok


def check_reject(ctx, fn, name, kind, res):
    w, made, rv = ask(ctx, fn, name, NONE)
    res.add("unregistered names analysed")
    where = "%s:%d" % (fn.path, fn.node.lineno)
    raised = w.st.dead or any(e.kind == "key_missing" and not e.data.get("guarded") for e in w.ev)
    if made and not raised:
        c = made[0]
        if not c[5]:
            res.fail("accepts", "%s:%s" % (kind, name), "the %s factory accepts the unregistered name '%s' (%s)" % (kind, name, c[0].name), where)
        else:
            res.undec("%s factory, name '%s'" % (kind, name))
    elif not raised:
        if isinstance(rv, S) and t.is_const(rv.t) and t.cval(rv.t) is None:
            res.fail("accepts", "%s:%s" % (kind, name), "the %s factory returns None for the unregistered name '%s' instead of rejecting it" % (kind, name), where)
        else:
            res.undec("%s factory, name '%s'" % (kind, name))


def table_names(ctx, helper):
    """string keys of the table a helper returns, else every identifier-like string in the module"""
    m = ctx.prog.module(FACT)
    r = ctx.prog.lookup(m, helper)
    if r and r[0] == "func":
        w = World(ctx.driver)
        w.I.UNROLL = 400
        try:
            rv = w.I.call_fn(w.st, r[1], [], {}, w.node)
            d = w.st.heap.get(rv.oid) if isinstance(rv, Ref) else None
            if isinstance(d, Dct) and not d.open:
                return [k for k, _ in d.entries if isinstance(k, str)]
        except Exception:
            pass
    return None


def names_of(ctx, ci):
    """the class's Name list as constants, or None"""
    for c in ci.mro() if hasattr(ci, "mro") else [ci]:
        if "Name" in getattr(c, "attrs", {}):
            e = c.attrs["Name"]
            try:
                v = ast.literal_eval(e)
                return list(v) if isinstance(v, (list, tuple, set)) else [v], c, e
            except Exception:
                return None, c, e
    return [], ci, ci.node


def check(ctx, res):
    m = ctx.prog.module(FACT)
    ga, gp = ctx.prog.func(FACT, "get_algorithm"), ctx.prog.func(FACT, "get_problem")
    algs = [(n, ci) for _, n, ci in ctx.algorithms()]
    res.add("exported algorithms", len(algs))
    for n, ci in algs:
        if n == ci.name:
            check_name(ctx, ga, n, ci, "algorithm", res)
        names, c, e = names_of(ctx, ci)
        res.add("Name lists resolved")
        if names is None:
            res.undec("%s: Name list is not a literal" % ci.name)
        elif ci.name not in names:
            res.fail("own_name", ci.name, "%s does not list its own name among its names (%s)" % (ci.name, ", ".join(map(str, names)) or "none"),
                     "%s:%d" % (c.module.relpath, getattr(e, "lineno", 0)))
    probs = exported_problems(ctx.prog)
    res.add("exported problems", len(probs))
    tab = table_names(ctx, "_problem_options")
    if tab is None:
        tab = sorted({x.value for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.replace("_", "").isalnum()})
        known = False
    else:
        known = True
    byname = {n.lower(): ci for n, ci in probs}
    reached = set()
    for n in tab:
        want = byname.get(ALIAS.get(n, n).replace("_", "").lower())
        w, made, rv = ask(ctx, gp, n, NONE)
        for x in made:
            reached.add(x[0])
        if made and (want is not None or known):
            check_name(ctx, gp, n, want, "problem", res)
        elif known and want is not None:
            check_name(ctx, gp, n, want, "problem", res)
    for n, ci in probs:
        if ci not in reached:
            if known:
                res.fail("not_registered", "problem:%s" % n, "problem %s cannot be created by any name" % n, "%s:%d" % (gp.path, gp.node.lineno))
            else:
                res.undec("problem %s: registered name" % n)
    for n in ("NoSuchThing", "", "jDE", "ABC", "BatAlgorithm ", " BatAlgorithm", "BatAlgorith", "BatAlgorithmm", "Bat", "Algorithm", "batalgorithm", "Bat_Algorithm"):
        check_reject(ctx, ga, n, "algorithm", res)
    for n in ("no_such_problem", "", "sphere4", "spher", "spheree", " sphere", "sphere ", "problem", "bent-cigar", "bent cigar", "schaffer_2"):
        if n not in tab:
            check_reject(ctx, gp, n, "problem", res)
