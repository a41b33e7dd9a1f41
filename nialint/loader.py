"""Parsing and name resolution for the niapy source tree (nothing is imported or executed)."""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone, or a source file cannot be parsed."""


class FuncInfo:
    __slots__ = ("name", "node", "module", "cls", "kind", "qual", "is_lambda", "path")

    def __init__(self, name, node, module, cls=None, kind="function", qual=None):
        self.name, self.node, self.module, self.cls, self.kind = name, node, module, cls, kind
        self.qual = qual or ((cls.name + "." if cls else "") + name)
        self.path = module.relpath

    def where(self, node=None):
        n = node if node is not None else self.node
        return "%s:%d (%s)" % (self.path, getattr(n, "lineno", 0), self.qual)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg

    def __repr__(self):
        return "<Func %s.%s>" % (self.module.name, self.qual)


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = []          # ClassInfo or external dotted string
        self.methods = {}
        self.attrs = {}          # name -> expr node
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, ClassInfo)]
            seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisBroken("inconsistent MRO for " + self.name)
                out.append(c)
                for t in seqs:
                    if t[0] is c:
                        del t[0]
            self._mro = out
        return self._mro

    def ext_bases(self):
        out = set()
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, str):
                    out.add(b)
        return out

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<Class %s>" % self.name


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name, self.path, self.relpath, self.tree, self.is_pkg = name, path, relpath, tree, is_pkg
        self.names = {}     # name -> ('func',FuncInfo)|('class',ClassInfo)|('mod',dotted)|('from',dotted,attr)|('expr',node)
        self.order = []

    def __repr__(self):
        return "<Module %s>" % self.name


class Program:
    def __init__(self, repo="/repo"):
        self.repo = repo
        self.src = os.path.join(repo, "src")
        self.modules = {}
        self.nfuncs = 0
        root = os.path.join(self.src, "niapy")
        if not os.path.isdir(root):
            raise AnalysisBroken("source package src/niapy is missing")
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)
                    mod = os.path.relpath(p, self.src)[:-3].replace(os.sep, ".")
                    is_pkg = mod.endswith(".__init__")
                    if is_pkg:
                        mod = mod[:-9]
                    with open(p, encoding="utf8") as fh:
                        text = fh.read()
                    try:
                        tree = ast.parse(text, p)
                    except SyntaxError as e:
                        raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
                    self.modules[mod] = Module(mod, p, rel, tree, is_pkg)
        for m in self.modules.values():
            self._scan(m)
        self._classes = []
        for m in self.modules.values():
            for k in m.order:
                v = m.names.get(k)
                if v and v[0] == "class":
                    self._classes.append(v[1])
        for c in self._classes:
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                if r is None:
                    c.bases.append(ast.unparse(b))
                elif r[0] == "class":
                    c.bases.append(r[1])
                else:
                    c.bases.append(r[1] if isinstance(r[1], str) else ast.unparse(b))

    def _scan(self, m):
        def put(name, v):
            m.names[name] = v
            m.order.append(name)

        def do(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        put(a.asname or a.name.split(".")[0], ("mod", a.name if a.asname else a.name.split(".")[0]))
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ""
                    if s.level:
                        parts = m.name.split(".")
                        if not m.is_pkg:
                            parts = parts[:-1]
                        parts = parts[:len(parts) - (s.level - 1)]
                        base = ".".join(parts + ([s.module] if s.module else []))
                    for a in s.names:
                        if a.name == "*":
                            continue
                        put(a.asname or a.name, ("from", base, a.name))
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    put(s.name, ("func", FuncInfo(s.name, s, m)))
                    self.nfuncs += 1
                elif isinstance(s, ast.ClassDef):
                    put(s.name, ("class", self._scan_class(s, m)))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            put(t.id, ("expr", s.value))
                        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                            # e.g. Cls.Name = [...] after the class body
                            v = m.names.get(t.value.id)
                            if v and v[0] == "class":
                                v[1].attrs[t.attr] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    put(s.target.id, ("expr", s.value))
                elif isinstance(s, ast.If):
                    if not (isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == "__name__"):
                        do(s.body)
                        do(s.orelse)
                elif isinstance(s, ast.Try):
                    do(s.body)
                    do(s.orelse)
        do(m.tree.body)

    def _scan_class(self, node, m):
        c = ClassInfo(node.name, node, m)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "method"
                for d in s.decorator_list:
                    dn = ast.unparse(d)
                    if dn == "staticmethod":
                        kind = "static"
                    elif dn == "classmethod":
                        kind = "classmethod"
                    elif dn == "property" or dn.endswith("cached_property"):
                        kind = "property"
                    elif dn.endswith(".setter"):
                        kind = "setter"
                self.nfuncs += 1
                fi = FuncInfo(s.name, s, m, c, kind)
                if kind == "setter":
                    c.methods.setdefault(s.name + "=", fi)
                else:
                    c.methods[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.attrs[s.target.id] = s.value
        return c

    # ---- resolution -------------------------------------------------------------------------
    def lookup(self, m, name, depth=0):
        """-> ('func',FuncInfo)|('class',ClassInfo)|('mod',dotted)|('ext',dotted)|('expr',Module,node)|None"""
        v = m.names.get(name)
        if v is None:
            return None
        if v[0] in ("func", "class"):
            return v
        if v[0] == "expr":
            return ("expr", m, v[1])
        if v[0] == "mod":
            return ("mod", v[1])
        if v[0] == "from":
            return self.lookup_from(v[1], v[2], depth)
        return None

    def lookup_from(self, modname, attr, depth=0):
        if depth > 20:
            return None
        if modname in self.modules:
            tm = self.modules[modname]
            r = self.lookup(tm, attr, depth + 1)
            if r is not None:
                return r
            if modname + "." + attr in self.modules:
                return ("mod", modname + "." + attr)
            return ("missing", modname + "." + attr)
        if modname.split(".")[0] == "niapy":
            return ("missing", modname + "." + attr)
        return ("ext", modname + "." + attr)

    def resolve_expr(self, m, node):
        if isinstance(node, ast.Name):
            return self.lookup(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(m, node.value)
            if b is None:
                return None
            if b[0] == "mod":
                return self.lookup_from(b[1], node.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + node.attr)
        return None

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken("module %s is missing" % name)
        return self.modules[name]

    def cls(self, modname, name):
        r = self.lookup_from(modname, name)
        if not r or r[0] != "class":
            raise AnalysisBroken("class %s.%s is missing" % (modname, name))
        return r[1]

    def func(self, modname, name):
        r = self.lookup_from(modname, name)
        if not r or r[0] != "func":
            raise AnalysisBroken("function %s.%s is missing" % (modname, name))
        return r[1]

    def string_list(self, m, name):
        """Literal list of strings bound to a module-level name (also a + b, list(...) of literals)."""
        r = self.lookup(m, name)
        if not r or r[0] != "expr":
            return None

        def ev(n):
            if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
                out = []
                for e in n.elts:
                    if isinstance(e, ast.Constant) and isinstance(e.value, str):
                        out.append(e.value)
                    elif isinstance(e, ast.Starred):
                        s = ev(e.value)
                        if s is None:
                            return None
                        out += s
                    else:
                        return None
                return out
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
                a, b = ev(n.left), ev(n.right)
                return None if a is None or b is None else a + b
            if isinstance(n, ast.Name):
                rr = self.lookup(r[1], n.id)
                return ev(rr[2]) if rr and rr[0] == "expr" else None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "sorted") and len(n.args) == 1:
                return ev(n.args[0])
            return None
        return ev(r[2])

    def exported_algorithms(self):
        """[(export package, ClassInfo)] for concrete algorithm classes exported by the three packages."""
        base = self.cls("niapy.algorithms.algorithm", "Algorithm")
        out = []
        for pk in ("niapy.algorithms.basic", "niapy.algorithms.modified", "niapy.algorithms.other"):
            m = self.module(pk)
            names = self.string_list(m, "__all__")
            if names is None:
                names = [n for n in m.order if not n.startswith("_")]
            for n in names:
                r = self.lookup(m, n)
                if r and r[0] == "class" and r[1].is_sub(base):
                    out.append((pk, n, r[1]))
        return out
