"""Development tool: behaviour-preserving rewrites of the whole package; every check has to stay quiet on the result.

usage: refactor.py OUTDIR TRANSFORM[,TRANSFORM...]     writes a rewritten copy of /repo to OUTDIR
       refactor.py --all [--props C01,C02] [--tests]   every transformation in turn, all checks, one line per check
"""
import ast, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def own(fn):
    """nodes of a function without nested scopes"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FN + (ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Blocks(ast.NodeTransformer):
    """rewrites statements into lists of statements"""
    n = 0

    def fresh(self, base="tmp"):
        Blocks.n += 1
        return "%s_%d" % (base, Blocks.n)

    def body(self, b):
        out = []
        for s in b:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        nested = [x for x in ast.walk(f) if x is not f and isinstance(x, FN + (ast.Lambda, ast.ClassDef))]
        if nested or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)):
            self.generic_visit(f)
            return f
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        loc |= {h.name for h in ast.walk(f) if isinstance(h, ast.ExceptHandler) and h.name}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_r"
            elif isinstance(x, ast.ExceptHandler) and x.name:
                x.name = x.name + "_r"
        return f


class Split(Blocks):
    """a, b = x, y with temporaries"""

    def visit_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts) \
                and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts + s.value.elts):
            ts = [self.fresh() for _ in s.value.elts]
            return [ast.Assign([name(t, ast.Store())], v) for t, v in zip(ts, s.value.elts)] + [ast.Assign([t], name(v)) for t, v in zip(s.targets[0].elts, ts)]
        return s


class RetTemp(Blocks):
    def visit_Return(self, s):
        if s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh("res")
            return [ast.Assign([name(t, ast.Store())], s.value), ast.Return(name(t))]
        return s

    def visit_Lambda(self, x):
        return x


class Invert(ast.NodeTransformer):
    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s


class While(Blocks):
    """for i in range(..) as a counting while loop"""

    def visit_FunctionDef(self, f):
        self.uses = f
        f.body = self.body(f.body)
        return f

    def visit_For(self, s):
        self.generic_visit(s)
        s.body = [z for x in s.body for z in (x if isinstance(x, list) else [x])]
        if not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and isinstance(s.target, ast.Name)) or s.orelse:
            return s
        if any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)) or any(isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Store) for b in s.body for x in ast.walk(b)):
            return s
        end = s.end_lineno
        if any(isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Load) and x.lineno > end for x in ast.walk(self.uses) if hasattr(x, "lineno")):
            return s
        a = s.iter.args
        if len(a) == 3:
            return s
        lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
        h = self.fresh("stop")
        i = s.target.id
        return [ast.Assign([name(h, ast.Store())], hi), ast.Assign([name(i, ast.Store())], lo),
                ast.While(ast.Compare(name(i), [ast.Lt()], [name(h)]), s.body + [ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]


class Comp(Blocks):
    """y = [e for x in it] as a loop with append"""

    def visit_Assign(self, s):
        v, wrap = s.value, None
        if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords and isinstance(v.args[0], ast.ListComp) and ast.unparse(v.func) in ("np.array", "np.asarray", "numpy.array"):
            v, wrap = v.args[0], v
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async:
            g = v.generators[0]
            t = self.fresh("items")
            ren = {x.id: x.id + "_c" for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for part in [v.elt, g.target] + g.ifs:
                for x in ast.walk(part):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
            app = ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [v.elt], []))
            body = [app]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            if wrap is not None:
                wrap.args[0] = name(t)
            return [ast.Assign([name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), ast.Assign(s.targets, wrap if wrap is not None else name(t))]
        return s


class Extract(ast.NodeTransformer):
    """method bodies moved to a helper method"""
    names = None

    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.args and s.args.args[0].arg == "self" and not s.name.startswith("__") \
                    and (self.names is None or s.name in self.names) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                h = "_%s_impl_%s" % (s.name.strip("_"), c.name.lower())
                a = s.args
                doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) and isinstance(s.body[0].value.value, str) else []
                rest = s.body[len(doc):]
                if not rest:
                    continue
                args = ast.arguments(posonlyargs=a.posonlyargs, args=a.args, vararg=a.vararg, kwonlyargs=a.kwonlyargs, kw_defaults=a.kw_defaults, kwarg=a.kwarg, defaults=a.defaults)
                import copy
                out.append(ast.FunctionDef(h, copy.deepcopy(args), rest, [], None, None))
                call = ast.Call(ast.Attribute(name("self"), h, ast.Load()),
                                [name(x.arg) for x in (a.posonlyargs + a.args)[1:]] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
                s.body = doc + [ast.Return(call)]
        c.body = out
        return c


class Hoist(Blocks):
    """first argument of an assigned call becomes a local"""

    def visit_Assign(self, s):
        v = s.value
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp, ast.Subscript)) and isinstance(v.func, (ast.Name, ast.Attribute)) and \
                (isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name)):
            t = self.fresh("arg")
            a = v.args[0]
            v.args[0] = name(t)
            return [ast.Assign([name(t, ast.Store())], a), s]
        if isinstance(v, ast.BinOp) and isinstance(v.left, (ast.BinOp, ast.Call)):
            t = self.fresh("lhs")
            a = v.left
            v.left = name(t)
            return [ast.Assign([name(t, ast.Store())], a), s]
        return s


class Ternary(Blocks):
    def visit_Assign(self, s):
        if isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
            import copy
            return [ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])]
        return s

    def visit_Return(self, s):
        if isinstance(s.value, ast.IfExp):
            return [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
        return s


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and type(c.ops[0]) in self.M:
            return ast.Compare(c.comparators[0], [self.M[type(c.ops[0])]()], [c.left])
        return c


class Guard(Blocks):
    """a conditional at the end of a loop body becomes `if not c: continue`"""

    def visit_For(self, s):
        self.generic_visit(s)
        s.body = [z for x in s.body for z in (x if isinstance(x, list) else [x])]
        l = s.body[-1]
        if isinstance(l, ast.If) and not l.orelse:
            s.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), l.test), [ast.Continue()], [])] + l.body
        return s


class Positional(ast.NodeTransformer):
    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Attribute) and c.func.attr == "repair" and len(c.args) == 1 and len(c.keywords) == 1 and c.keywords[0].arg == "rng" and isinstance(c.func.value, ast.Name) and c.func.value.id == "task":
            return ast.Call(c.func, c.args + [c.keywords[0].value], [])
        return c


class Cache(ast.NodeTransformer):
    """self.attribute read into a local first"""

    def visit_ClassDef(self, c):
        methods = {f.name for f in c.body if isinstance(f, FN)}
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.name in ("run_iteration",):
                written = {x.attr for x in ast.walk(c) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for m in [0]
                           } if False else {x.attr for g in c.body if isinstance(g, FN) and g.name not in ("__init__", "set_parameters") for x in ast.walk(g) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
                reads = sorted({x.attr for x in own(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load)})
                sure = {x.attr for x in f.body for x in ast.walk(x) if isinstance(x, ast.Attribute)}
                ctor = {x.attr for g in c.body if isinstance(g, FN) and g.name in ("__init__", "set_parameters") for x in ast.walk(g) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
                use = [r for r in reads if r in ctor and r not in written and r not in methods and r in sure]
                if not use:
                    continue
                class R(ast.NodeTransformer):
                    def visit_Attribute(self, a):
                        self.generic_visit(a)
                        if isinstance(a.value, ast.Name) and a.value.id == "self" and a.attr in use and isinstance(a.ctx, ast.Load):
                            return name("cached_" + a.attr)
                        return a
                doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                rest = [R().visit(s) for s in f.body[len(doc):]]
                f.body = doc + [ast.Assign([name("cached_" + u, ast.Store())], ast.Attribute(name("self"), u, ast.Load())) for u in use] + rest
        return c


class Dicts(Blocks):
    """params.pop('x') -> params['x']; d.update({'k': v}) -> d['k'] = v; dict displays through dict()"""

    def visit_Expr(self, s):
        self.generic_visit(s)
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "update" and isinstance(v.func.value, ast.Name) and len(v.args) == 1 and isinstance(v.args[0], ast.Dict) and all(k is not None for k in v.args[0].keys):
            return [ast.Assign([ast.Subscript(name(v.func.value.id), k, ast.Store())], x) for k, x in zip(v.args[0].keys, v.args[0].values)]
        return s

    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Attribute) and c.func.attr == "pop" and isinstance(c.func.value, ast.Name) and c.func.value.id == "params" and len(c.args) == 1:
            return ast.Subscript(name("params"), c.args[0], ast.Load())
        return c

    def visit_Return(self, s):
        self.generic_visit(s)
        if isinstance(s.value, ast.Tuple) and isinstance(s.value.elts[-1], ast.Dict) and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in s.value.elts[-1].keys):
            d = s.value.elts[-1]
            s.value.elts[-1] = ast.Call(name("dict"), [], [ast.keyword(k.value, v) for k, v in zip(d.keys, d.values)])
        return s


class Numpy(ast.NodeTransformer):
    """function form <-> method form of numpy reductions; slices with explicit bounds"""

    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "np" and c.func.attr in ("argmin", "argmax", "argsort") and len(c.args) == 1:
            return ast.Call(ast.Attribute(ast.Call(ast.Attribute(name("np"), "asarray", ast.Load()), [c.args[0]], []), c.func.attr, ast.Load()), [], c.keywords)
        return c


class ElifNest(ast.NodeTransformer):
    """and-conditions become nested ifs (no else)"""

    def visit_If(self, s):
        self.generic_visit(s)
        if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse and len(s.test.values) == 2:
            return ast.If(s.test.values[0], [ast.If(s.test.values[1], s.body, [])], [])
        return s


class ForIndex(Blocks):
    """for x in xs: -> for i in range(len(xs)): x = xs[i]   (plain names only)"""

    def visit_For(self, s):
        self.generic_visit(s)
        s.body = [z for x in s.body for z in (x if isinstance(x, list) else [x])]
        if isinstance(s.iter, ast.Name) and isinstance(s.target, ast.Name) and s.iter.id in ("population", "pop", "cats", "sparks", "particles", "new_population", "trials"):
            i = self.fresh("idx")
            return ast.For(name(i, ast.Store()), ast.Call(name("range"), [ast.Call(name("len"), [name(s.iter.id)], [])], []),
                           [ast.Assign([s.target], ast.Subscript(name(s.iter.id), name(i), ast.Load()))] + s.body, s.orelse)
        return s


T = {"rename": Rename, "split": Split, "rettemp": RetTemp, "invert": Invert, "while": While, "comp": Comp, "extract": Extract, "hoist": Hoist, "ternary": Ternary,
     "flip": Flip, "guard": Guard, "positional": Positional, "cache": Cache, "dicts": Dicts, "numpy": Numpy, "nest": ElifNest, "forindex": ForIndex}


def flat(tree):
    """lists of statements left in bodies by Blocks transformers"""
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                out = []
                for s in b:
                    out.extend(s if isinstance(s, list) else [s])
                setattr(n, f, out)


def rewrite(out, names):
    subprocess.run("rm -rf %s && mkdir -p %s && cp -r /repo/src /repo/tests %s/; cp /repo/pyproject.toml %s/ 2>/dev/null" % (out, out, out, out), shell=True)
    for d, _, fs in os.walk(os.path.join(out, "src/niapy")):
        for f in fs:
            if not f.endswith(".py") or f == "__init__.py":
                continue
            p = os.path.join(d, f)
            tree = ast.parse(open(p).read())
            for n in names:
                tree = T[n]().visit(tree)
                flat(tree)
                ast.fix_missing_locations(tree)
                tree = ast.parse(ast.unparse(tree))
            open(p, "w").write(ast.unparse(tree) + "\n")


def tests(out):
    e = dict(os.environ, PYTHONPATH=out + "/src", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    r = subprocess.run("/opt/venv/bin/python -m pytest -q tests -p no:cacheprovider -n 8 --dist loadfile --timeout=60 2>&1 | tail -12", shell=True, capture_output=True, text=True, cwd=out, env=e)
    return r.stdout.strip().splitlines()


if __name__ == "__main__":
    if sys.argv[1] != "--all":
        rewrite(sys.argv[1], sys.argv[2].split(","))
        sys.exit()
    props = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
    which = list(T)
    for a in sys.argv[2:]:
        if a.startswith("--props="):
            props = a[8:].split(",")
        if a.startswith("--only="):
            which = a[7:].split(",")
    for n in which:
        d = "/tmp/refac/" + n
        rewrite(d, [n])
        if "--tests" in sys.argv:
            o = tests(d)
            print(n, "tests:", o[-1], [l for l in o if l.startswith("FAILED")][:3])
        for p in props:
            r = subprocess.run([sys.executable, "check.py", p, "--repo", d, "--no-evidence"], cwd=ROOT, capture_output=True, text=True)
            l = (r.stdout + r.stderr).strip().splitlines()
            print("%-10s %s %s %s" % (n, "  " if r.returncode == 0 else "##", p, l[-1][-110:] if l else ""), *(["      " + x[:300] for x in l[:-1][:4]] if r.returncode else []), sep="\n" if r.returncode else " ", flush=True)
        subprocess.run("rm -rf " + d, shell=True)
