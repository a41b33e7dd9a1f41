"""Whole-program syntax queries with name resolution (used beside the abstract interpreter)."""
import ast


def functions(prog, skip_modules=()):
    """(module, qualname, FunctionDef/Lambda-less) for every function of the program, nested ones included"""
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        if m.name in skip_modules:
            continue

        def walk(node, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = qual + "." + ch.name if qual else ch.name
                    yield m, q, ch
                    yield from walk(ch, q)
                elif isinstance(ch, ast.ClassDef):
                    yield from walk(ch, qual + "." + ch.name if qual else ch.name)
                else:
                    yield from walk(ch, qual)
        yield from walk(m.tree, "")


def own_nodes(fn):
    """nodes of a function body without those of nested functions (lambdas included)"""
    stack = list(fn.body) if hasattr(fn, "body") and isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            stack.append(ch)


def local_imports(fn):
    out = {}
    for n in own_nodes(fn):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out[a.asname or a.name] = (n.module or "") + "." + a.name
    return out


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return ".".join(reversed(parts))
    return None


def bound_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def resolve_ext(prog, m, fn, e, limports=None, bound=None):
    """dotted external name a call target denotes (numpy.random.rand, time.time, hash ...) or None"""
    d = dotted(e)
    if d is None:
        return None
    head, _, rest = d.partition(".")
    if limports and head in limports:
        base = limports[head]
        return base + ("." + rest if rest else "")
    if bound and head in bound:
        return None
    r = prog.lookup(m, head)
    if r is None:
        return d
    if r[0] == "ext" or r[0] == "mod" and r[1].split(".")[0] != "niapy":
        return r[1] + ("." + rest if rest else "")
    if r[0] == "expr":
        # alias of an external name at module level
        k = r[2] if len(r) > 2 else None
        if isinstance(k, (ast.Name, ast.Attribute)):
            b = resolve_ext(prog, r[1], fn, k)
            if b:
                return b + ("." + rest if rest else "")
    return None


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add", "discard", "sort", "reverse", "fill", "put", "resize", "partition", "setfield", "itemset"}
