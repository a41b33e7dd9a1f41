"""C23 the command line yields exactly the requested experiment settings."""
import ast

from .. import terms as t
from ..interp import S, Ref, Obj, Lst, Dct, Tup, Cls, Ext, Fn, PhiV, vleaves, Bot
from ..probspec import World, exported_problems

RULE = ("Abstract interpretation of get_argparser with the parser as a recording object: every option's flags, destination, arity, default and converter. "
        "Converters are interpreted on constant arguments; defaults and destinations are compared with the meaning of the flag. get_args and get_args_dict "
        "are interpreted over the namespace the parser returns: the argument list must reach the parser and every setting must come back unchanged.")
ASSUMPTIONS = ["argparse itself behaves as documented"]
MOD = "niapy.util.argparser"
INF = float("inf")
# flag -> destination, {argument text: value}, default
TABLE = {
    "--algorithm": ("algo", "str", {"SCA": "SCA"}, None),
    "--problem": ("problem", "str", {"Ackley": "Ackley"}, None),
    "--dimension": ("dimension", "int", {"12": 12}, None),
    "--max-evals": ("max_evals", "count", {"12": 12}, INF),
    "--max-iters": ("max_iters", "count", {"12": 12}, INF),
    "--population-size": ("population_size", "int", {"12": 12}, None),
    "--run-type": ("run_type", "str", {"log": "log", "plot": "plot"}, None),
    "--seed": ("seed", "int", {"12": 12}, None),
    "--opt-type": ("opt_type", "enum", {"min": "MINIMIZATION", "max": "MAXIMIZATION"}, "MINIMIZATION"),
}
DOC = {"--algorithm": ["jDE"], "--problem": ["Ackley", ["Ackley"]], "--dimension": [10], "--population-size": [43], "--run-type": [""], "--seed": [None, [None]]}
SHORT = {"--algorithm": "-a", "--problem": "-p", "--dimension": "-d", "--population-size": "-n", "--run-type": "-r"}


class Opt:
    def __init__(self, flags, kw, node, where):
        self.flags, self.kw, self.node, self.where = flags, kw, node, where


def world(ctx):
    w = World(ctx.driver)
    I = w.I
    I.UNROLL = 400
    w.opts, w.unknown, w.parsed, w.defaults = [], [], [], {}
    I.models, I.methmodels = dict(I.models), dict(I.methmodels)

    def mk(I, st, args, kw, node):
        st.heap[("PARSER",)] = Obj("ArgumentParser", {}, None, ())
        return S(t.sym("PARSER", nd=None))
    I.models["argparse.ArgumentParser"] = mk

    def add(I, st, o, args, kw, node):
        cs = [I.content(st, a) for a in args]
        where = "%s:%d" % (I.stack[-1][0].path, getattr(node, "lineno", 0))
        if all(t.is_const(c) for c in cs) and not st.pc:
            w.opts.append(Opt([t.cval(c) for c in cs], dict(kw), node, where))
        else:
            w.unknown.append(where)
        return S(t.NONE)

    def same(I, st, o, args, kw, node):
        return o

    def setd(I, st, o, args, kw, node):
        w.defaults.update(kw)
        return S(t.NONE)

    def parse(I, st, o, args, kw, node):
        a = args[0] if args else kw.get("args")
        w.parsed.append((a, st.pc))
        dests = [dest(p) for p in w.opts]
        st.heap[("NS",)] = Obj("Namespace", {d: S(t.sym("ns." + d, nd=None)) for d in dests if d}, None, ())
        return Ref(("NS",))

    def vars_(I, st, args, kw, node):
        r = st.heap.get(args[0].oid) if args and isinstance(args[0], Ref) else None
        if isinstance(r, Obj):
            return I.new_dict(st, r.attrs.items(), ("vars",))
        return S(t.top("vars"))
    I.methmodels.update({"add_argument": add, "add_argument_group": same, "add_mutually_exclusive_group": same, "set_defaults": setd, "parse_args": parse})
    I.models["vars"] = vars_
    return w


def dest(o):
    d = o.kw.get("dest")
    if d is not None:
        return t.cval(d.t) if isinstance(d, S) and t.is_const(d.t) else None
    long = [f for f in o.flags if f.startswith("--")]
    f = (long or o.flags or [""])[0]
    return f.lstrip("-").replace("-", "_")


def const(v):
    return (True, t.cval(v.t)) if isinstance(v, S) and t.is_const(v.t) else (False, None)


def enum_val(w, ctx, member):
    ot = ctx.prog.cls("niapy.task", "OptimizationType")
    return w.I.content(w.st, w.I.get_attr(w.st, Cls(ot), member, w.node))


def convert(w, o, text):
    conv = o.kw.get("type")
    if conv is None:
        return S(t.const(text))
    s2 = w.st.copy()
    return w.I.call(s2, conv, [S(t.const(text))], {}, w.node)


def unconst(w, v):
    """constant (python value) of a value, lists included"""
    k, c = const(v)
    if k:
        return True, c
    its = w.I.exact_items(w.st, v)
    if its is not None:
        r = [const(x) for x in its]
        return all(a for a, _ in r), [b for _, b in r]
    return False, None


def check(ctx, res):
    cust = customised(ctx)          # before the other worlds: each starts a new term table
    w = world(ctx)
    fn = ctx.prog.func(MOD, "get_argparser")
    where0 = "%s:%d" % (fn.path, fn.node.lineno)
    w.I.call_fn(w.st, fn, [], {}, w.node)
    res.add("options recorded", len(w.opts))
    byflag = {}
    for o in w.opts:
        for f in o.flags:
            if f in byflag:
                res.fail("duplicate_flag", f, "the flag %s is declared twice" % f, o.where)
            byflag[f] = o
    dests = {}
    for o in w.opts:
        d = dest(o)
        if d is None:
            res.undec("destination of %s" % o.flags)
            continue
        if d in dests and dests[d] is not o:
            res.fail("shared_dest", d, "%s and %s both set '%s'" % ("/".join(dests[d].flags), "/".join(o.flags), d), o.where)
        dests[d] = o
    sound = not w.unknown and not w.st.dead
    for flag, (want, kind, texts, dflt) in TABLE.items():
        res.add("options compared")
        o = byflag.get(flag)
        if o is None:
            if sound:
                res.fail("missing_option", flag, "the option %s does not exist" % flag, where0)
            else:
                res.undec("option %s" % flag)
            continue
        sh = SHORT.get(flag)
        if sh and byflag.get(sh) is not o and sound:
            res.fail("short_flag", sh, "%s does not stand for %s" % (sh, flag), o.where)
        d = dest(o)
        if d is not None and d != want:
            res.fail("dest", flag, "%s is stored as '%s' instead of '%s'" % (flag, d, want), o.where)
        act = o.kw.get("action")
        if act is not None:
            k, c = const(act)
            if k and c not in ("store", "append", "extend"):
                res.fail("action", flag, "%s does not take a value (action '%s')" % (flag, c), o.where)
            elif not k:
                res.undec("action of %s" % flag)
        k, n = const(o.kw["nargs"]) if "nargs" in o.kw else (True, None)
        if not k:
            res.undec("arity of %s" % flag)
        elif flag not in ("--seed", "--problem") and n not in (None, "?"):
            res.fail("nargs", flag, "%s yields a list (nargs=%r) where one value is meant" % (flag, n), o.where)
        # the converter
        for text, val in texts.items():
            res.add("conversions interpreted")
            v = convert(w, o, text)
            if kind == "enum":
                e = enum_val(w, ctx, val)
                c = w.I.content(w.st, v) if not isinstance(v, Bot) else None
                other = enum_val(w, ctx, "MAXIMIZATION" if val == "MINIMIZATION" else "MINIMIZATION")
                if c is not None and t.same(c, e):
                    continue
                if c is not None and (t.same(c, other) or t.is_const(c)):
                    if want in cust:
                        res.undec("%s is converted after parsing" % flag)
                    else:
                        res.fail("conversion", "%s:%s" % (flag, text), "%s %s is parsed to %s" % (flag, text, t.show(c)), o.where)
                else:
                    res.undec("conversion of %s %s" % (flag, text))
                continue
            k, c = const(v)
            if not k:
                res.undec("conversion of %s %s" % (flag, text))
            elif c != val or kind in ("int", "count") and not (isinstance(c, int) and not isinstance(c, bool)) or kind == "str" and not isinstance(c, str) or kind == "num" and (isinstance(c, (str, bool))):
                if want in cust:
                    res.undec("%s is converted after parsing" % flag)
                else:
                    res.fail("conversion", "%s:%s" % (flag, text), "%s %s is parsed to %r" % (flag, text, c), o.where)
        # choices must admit what the option is for
        ch = o.kw.get("choices")
        if ch is not None:
            k, cs = unconst(w, ch)
            if k and flag in ("--opt-type",):
                pass
            elif k:
                need = list(texts) if kind == "str" else []
                if flag == "--problem":
                    need = [n for n, _ in exported_problems(ctx.prog)]
                for x in need:
                    res.add("admitted values compared")
                    if x not in cs:
                        res.fail("choices", "%s:%s" % (flag, x), "%s does not admit %s" % (flag, x), o.where)
            else:
                res.undec("choices of %s" % flag)
        # the default
        dv = w.defaults.get(want, o.kw.get("default"))
        res.add("defaults compared")
        if dflt is not None:
            if dv is None:
                res.fail("default", flag, "%s has no default" % flag, o.where)
                continue
            if kind == "enum":
                k, c = const(dv)
                if k and isinstance(c, str):
                    dv = convert(w, o, c)       # argparse converts textual defaults
                c = w.I.content(w.st, dv)
                if t.same(c, enum_val(w, ctx, dflt)):
                    continue
                if t.same(c, enum_val(w, ctx, "MAXIMIZATION")) or t.is_const(c):
                    res.fail("default", flag, "%s defaults to %s" % (flag, t.show(c)), o.where)
                else:
                    res.undec("default of %s" % flag)
                continue
            k, c = const(dv)
            if k and isinstance(c, str):
                k, c = const(convert(w, o, c))
            if k and c != dflt:
                res.fail("default", flag, "%s defaults to %r instead of %r" % (flag, c, dflt), o.where)
            elif not k:
                x = w.I.content(w.st, dv)
                res.undec("default of %s: %s" % (flag, t.show(x)[:60]))
        elif flag in DOC:
            k, c = unconst(w, dv) if dv is not None else (True, None)
            if k and isinstance(c, str) and kind == "int":
                k, c = const(convert(w, o, c))
            if k and not any(c == x and type(c) == type(x) for x in DOC[flag]):
                res.fail("default", flag, "%s defaults to %r, documented is %r" % (flag, c, DOC[flag][0]), o.where)
            elif not k:
                res.undec("default of %s" % flag)
    # what get_args / get_args_dict hand back
    for name in ("get_args", "get_args_dict"):
        f = ctx.prog.func(MOD, name)
        w2 = world(ctx)
        argv = S(t.sym("argv", nd=None))
        w2.st.heap[("ARGV",)] = Lst(None, t.sym("argv", nd=1), None, None, None, ())
        rv = w2.I.call_fn(w2.st, f, [Ref(("ARGV",))], {}, w2.node)
        res.add("entry points analysed")
        where = "%s:%d" % (f.path, f.node.lineno)
        if not w2.parsed:
            res.undec("%s: parse_args is not called" % name)
            continue
        for a, pc in w2.parsed:
            if a is None:
                res.fail("argv", name, "%s parses the process's arguments instead of the given ones" % name, where)
            elif a != Ref(("ARGV",)):
                c = w2.I.content(w2.st, a)
                if t.same(c, t.sym("argv", nd=1)):
                    continue
                (res.fail("argv", name, "%s parses %s instead of the given arguments" % (name, t.show(c)[:60]), where) if not c.top else res.undec("%s: what is parsed" % name))
        r = w2.st.heap.get(rv.oid) if isinstance(rv, Ref) else None
        if name == "get_args_dict":
            ents = dict(r.entries) if isinstance(r, Dct) else None
        else:
            ents = dict(r.attrs) if isinstance(r, Obj) else None
        if ents is None:
            res.undec("%s: what is returned" % name)
            continue
        for flag, (d, kind, texts, dflt) in TABLE.items():
            if d not in dests:
                continue
            res.add("returned settings compared")
            v = ents.get(d)
            if v is None:
                if isinstance(r, Dct) and r.open:
                    res.undec("%s: setting %s" % (name, d))
                else:
                    res.fail("lost", "%s:%s" % (name, d), "%s does not return the setting '%s'" % (name, d), where)
                continue
            c = w2.I.content(w2.st, v)
            if not t.same(c, t.sym("ns." + d, nd=None)):
                others = [x for x in t.leaves(c) if x.op == "sym" and str(x.args[0]).startswith("ns.")]
                if t.is_const(c) or c.op == "sym" and others:
                    res.fail("altered", "%s:%s" % (name, d), "%s returns %s as '%s'" % (name, t.show(c)[:60], d), where)
                else:
                    res.undec("%s: setting %s is %s" % (name, d, t.show(c)[:60]))


def customised(ctx):
    """the settings the parsed value of which is processed further before it is returned"""
    f = ctx.prog.func(MOD, "get_args")
    w2 = world(ctx)
    w2.st.heap[("ARGV",)] = Lst(None, t.sym("argv", nd=1), None, None, None, ())
    rv = w2.I.call_fn(w2.st, f, [Ref(("ARGV",))], {}, w2.node)
    r = w2.st.heap.get(rv.oid) if isinstance(rv, Ref) else None
    out = set()
    for d in {x[0] for x in TABLE.values()}:
        v = r.attrs.get(d) if isinstance(r, Obj) else None
        if v is None or not t.same(w2.I.content(w2.st, v), t.sym("ns." + d, nd=None)):
            out.add(d)
    return out
