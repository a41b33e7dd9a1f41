"""C01 reproducibility: provenance of every random draw, ambient inputs, process-wide mutable state."""
import ast

from .. import astq, terms as t
from ..base import run_classes
from ..interp import RngV, vleaves, S, Obj

RULE = ("Abstract interpretation of constructor and run() of every exported algorithm with the provenance of each random generator as part of "
        "the value: every draw and every generator handed to the bound repair must be the generator seeded from the constructor's seed. A "
        "program-wide syntax query with name resolution excludes ambient inputs (numpy.random module state, random, time, os, uuid, hash, id, "
        "unseeded generators), and every object that outlives an instance (module level, class level, default arguments) must never be mutated or rebound.")
ASSUMPTIONS = ["numpy's Generator is deterministic for a given seed", "user-supplied callables (sampling, strategy, distance functions) are deterministic",
               "dynamic code (exec, setattr by computed name) is absent from the sources"]

AMBIENT = ("random.", "time.", "secrets.", "uuid.", "datetime.", "os.urandom", "os.getpid", "os.environ", "os.times", "os.getrandom", "os.getenv", "threading.get_ident", "platform.", "socket.", "getpass.", "psutil.", "resource.", "gc.")
NPOK = {"default_rng", "Generator", "SeedSequence", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "BitGenerator"}
EXEMPT_MODULES = {"niapy.runner"}     # wall-clock time only names the export file


def rngtags(v):
    if v is None:
        return ["none"]
    out = []
    for l in vleaves(v):
        if isinstance(l, RngV):
            out.append(l.tag)
        elif l == S(t.NONE):
            out.append("none")
        elif isinstance(l, S) and l.t.top:
            out.append("unknown")
        elif isinstance(l, S):
            out.append("draw" if l.t.draw else "seed" if any(x.op == "sym" and x.args[0] == "cfg.seed" for x in t.leaves(l.t)) else "value")
        else:
            out.append("notgen")
    return out


def niasite(e):
    """the nearest niapy function of a draw (its own frame)"""
    return e.stack[-1][0] if e.stack else "?"


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    name = ci.name
    res.add("functions interpreted", len(R.I.nfn))
    st = R.st_ctor
    alg = st.heap.get(R.alg.oid) if hasattr(R.alg, "oid") else None
    if isinstance(alg, Obj):
        rng = alg.attrs.get("rng")
        tags = rngtags(rng) if rng is not None else ["absent"]
        res.add("constructors checked for seed forwarding")
        if any(x in ("unseeded", "fixed", "absent", "none", "notgen") for x in tags):
            res.fail("seed-forwarding", name + ".__init__", "the instance's generator is not built from the constructor's seed (%s)" % ",".join(tags), ci.module.relpath)
        elif any(x == "unknown" for x in tags):
            res.undec("%s: provenance of the generator" % name)
    for e in R.events:
        if e.kind == "draw":
            res.add("random draws traced")
            if e.data["tag"] in ("unseeded", "fixed"):
                res.fail("rng-provenance", "%s.%s" % (niasite(e), e.data["name"]),
                         "draw `%s` from %s generator (analysing %s)" % (e.data["name"], "a fixed" if e.data["tag"] == "fixed" else "an unseeded", name), e.where(), e.stack)
            elif e.data["tag"] not in ("seeded",):
                res.undec("%s: draw at %s from a generator of unknown origin" % (name, e.where()))
        elif e.kind == "repair":
            res.add("bound repairs traced")
            if e.data["fixed"] and "rng" not in e.data["target"].params()[0] + e.data["target"].params()[1]:
                continue      # a bundled repair called by name that draws nothing
            tags = rngtags(e.data["rng"])
            site = e.stack[-1][0] if e.stack else "?"
            bad = [x for x in tags if x in ("unseeded", "fixed", "none", "notgen")]
            if bad:
                caller = next((f for f, _ in reversed(e.stack) if f not in ("Task.repair",)), site)
                res.fail("repair-generator", caller, "bound repair called %s (analysing %s): a randomised repair function then draws from an unseeded generator or fails"
                         % ("without the instance's generator" if bad[0] in ("none", "unseeded", "fixed") else "with something that is not a generator", name), e.where(), e.stack)
            elif any(x in ("unknown", "value") for x in tags):
                res.undec("%s: generator of repair at %s" % (name, e.where()))
        elif e.kind == "mutate" and e.data["oid"][0] == "G":
            res.fail("shared-state", "%s.%s" % e.data["oid"][1:3], "process-wide object %s.%s is mutated" % e.data["oid"][1:3], e.where(), e.stack)
        elif e.kind == "dict_set" and e.data["oid"][0] == "G":
            res.fail("shared-state", "%s.%s" % e.data["oid"][1:3], "process-wide dictionary %s.%s is changed" % e.data["oid"][1:3], e.where(), e.stack)
        elif e.kind in ("class_attr_write", "module_attr_write"):
            res.fail("shared-state", "%s.%s" % (e.data.get("cls") or e.data.get("mod"), e.data["name"]), "class or module attribute rebound during a run", e.where(), e.stack)
        elif e.kind == "global_stmt":
            res.fail("shared-state", "%s" % e.data["names"], "global statement in code reached by a run", e.where(), e.stack)


def ambient(prog, res, modfilter=None):
    for m, q, fn in astq.functions(prog):
        if m.name in EXEMPT_MODULES:
            continue
        res.add("functions scanned for ambient inputs")
        li, bound = astq.local_imports(fn), astq.bound_names(fn)
        seen = set()
        for n in astq.own_nodes(fn):
            if not isinstance(n, (ast.Attribute, ast.Name)) or isinstance(getattr(n, "ctx", None), ast.Store):
                continue
            d = astq.resolve_ext(prog, m, fn, n, li, bound)
            if d is None:
                continue
            bad = None
            if d.startswith("numpy.random."):
                k = d.split(".")[2]
                if k not in NPOK:
                    bad = "process-wide numpy generator"
            elif d.startswith(AMBIENT) or d in ("os.urandom", "os.getpid"):
                bad = "ambient input"
            if bad and d not in seen and not any(s.startswith(d) for s in seen):
                seen.add(d)
                if d.split(".")[0] in ("datetime", "time") and _log_only(fn, n):
                    continue
                res.fail("ambient", "%s::%s" % (m.relpath, q), "%s `%s`" % (bad, d), "%s:%d (%s)" % (m.relpath, n.lineno, q))
        for n in astq.own_nodes(fn):
            if isinstance(n, ast.Call):
                d = astq.resolve_ext(prog, m, fn, n.func, li, bound)
                if d in ("hash", "id") and not q.split(".")[-1].startswith("__"):
                    res.fail("ambient", "%s::%s" % (m.relpath, q), "`%s()` depends on the process" % d, "%s:%d (%s)" % (m.relpath, n.lineno, q))
                if d in ("numpy.random.default_rng", "numpy.random.SeedSequence", "numpy.random.PCG64") and not n.args and not n.keywords:
                    res.fail("ambient", "%s::%s" % (m.relpath, q), "freshly created unseeded generator", "%s:%d (%s)" % (m.relpath, n.lineno, q))
            if isinstance(n, ast.Global):
                stored = {x.id for x in astq.own_nodes(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if stored & set(n.names):
                    res.fail("shared-state", "%s::%s" % (m.relpath, q), "module-level name %s is rebound" % ", ".join(sorted(stored & set(n.names))), "%s:%d (%s)" % (m.relpath, n.lineno, q))


def _log_only(fn, node):
    """is the value only used inside a logger call?"""
    for c in ast.walk(fn):
        if isinstance(c, ast.Call) and (astq.dotted(c.func) or "").startswith(("logger.", "logging.")):
            if any(x is node for x in ast.walk(c)):
                return True
    return False


def shared_mutation(prog, res):
    """class-level / module-level mutable literals mutated through self., cls., the class name or the bare name"""
    for m in prog.modules.values():
        mod_mut = {}
        for k, v in m.names.items():
            if v[0] == "expr" and isinstance(v[1], (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call)) and k != "__all__":
                mod_mut[k] = v[1]
        cls_mut = {}
        for k, v in m.names.items():
            if v[0] == "class" and v[1].module is m:
                for n, e in v[1].attrs.items():
                    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call)):
                        cls_mut.setdefault(n, set()).add(v[1].name)
        res.add("process-wide mutable objects", len(mod_mut) + len(cls_mut))
        for m2, q, fn in astq.functions(prog):
            if m2 is not m:
                continue
            stores = {n.attr for c in ast.walk(m.tree) if isinstance(c, ast.FunctionDef) and c.name == "__init__" for n in ast.walk(c)
                      if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            bound = astq.bound_names(fn)

            def target(e):
                if isinstance(e, ast.Name) and e.id in mod_mut and e.id not in bound:
                    return "%s.%s" % (m.name, e.id)
                if isinstance(e, ast.Attribute) and e.attr in cls_mut and isinstance(e.value, ast.Name):
                    if e.value.id in ("self",) and e.attr in stores:
                        return None
                    if e.value.id in ("self", "cls") or e.value.id in cls_mut[e.attr]:
                        return "%s.%s" % ("/".join(sorted(cls_mut[e.attr])), e.attr)
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call) and e.attr in cls_mut:
                    return "%s" % e.attr
                return None
            for n in astq.own_nodes(fn):
                hit = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in astq.MUTATORS:
                    hit = target(n.func.value)
                elif isinstance(n, (ast.Assign, ast.AugAssign)):
                    for tg in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(tg, ast.Subscript):
                            hit = hit or target(tg.value)
                        elif isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name):
                            r = prog.lookup(m, tg.value.id) if tg.value.id not in bound else None
                            if tg.value.id == "cls" or r and r[0] == "class":
                                hit = hit or "%s.%s" % (tg.value.id, tg.attr)
                if hit:
                    res.fail("shared-state", "%s::%s" % (m.relpath, q), "process-wide object %s is changed" % hit, "%s:%d (%s)" % (m.relpath, n.lineno, q))


def check(ctx, res):
    run_classes(ctx, "c01", res)
    ambient(ctx.prog, res)
    shared_mutation(ctx.prog, res)
