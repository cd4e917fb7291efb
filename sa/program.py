"""The resolved program: modules, imports, classes with MRO, functions."""
import ast
import builtins
import os

BUILTINS = set(dir(builtins))


class FuncInfo:
    def __init__(self, node, module, cls, qual, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.qual = qual
        self.outer = outer

    @property
    def name(self):
        return self.node.name

    def decorators(self):
        return [self.module.dotted(d.func if isinstance(d, ast.Call) else d) for d in self.node.decorator_list]

    def kind(self):
        for d in self.decorators():
            if d == "staticmethod":
                return "static"
            if d == "classmethod":
                return "class"
            if d == "property":
                return "property"
        return "method" if self.cls else "function"

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<%s>" % self.qual


class ClassInfo:
    def __init__(self, node, module, qual):
        self.node = node
        self.module = module
        self.qual = qual
        self.methods = {}
        self.attrs = {}
        self.inner = {}
        self.base_names = []
        self._mro = None

    @property
    def name(self):
        return self.node.name

    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<class %s>" % self.qual


class Module:
    def __init__(self, prog, rel, name, tree, src):
        self.prog = prog
        self.rel = rel
        self.name = name
        self.tree = tree
        self.src = src
        self.imports = {}
        self.stars = []
        self.funcs = {}
        self.classes = {}
        self.assigns = {}
        self.is_pkg = rel.endswith("__init__.py")
        self._collect(tree.body)

    def _abs(self, node):
        if not node.level:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _collect(self, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                m = self._abs(n)
                for a in n.names:
                    if a.name == "*":
                        self.stars.append(m)
                    else:
                        self.imports[a.asname or a.name] = m + "." + a.name
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = FuncInfo(n, self, None, self.name + "." + n.name)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = self._class(n, self.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Name) and n.value is not None:
                        self.assigns[t.id] = n.value
            elif isinstance(n, ast.Try):
                self._collect(n.body)
                for h in n.handlers:
                    self._collect([x for x in h.body if not isinstance(x, (ast.Assign,))])
                self._collect(n.orelse)
                self._collect(n.finalbody)
            elif isinstance(n, (ast.If, ast.With)):
                self._collect(n.body)
                self._collect(getattr(n, "orelse", []))

    def _class(self, n, prefix):
        c = ClassInfo(n, self, prefix + "." + n.name)
        self.prog.classes[c.qual] = c
        for x in n.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.methods[x.name] = FuncInfo(x, self, c, c.qual + "." + x.name)
            elif isinstance(x, ast.ClassDef):
                c.inner[x.name] = self._class(x, c.qual)
            elif isinstance(x, (ast.Assign, ast.AnnAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for t in ts:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = x.value
        return c

    def dotted(self, node):
        """Fully qualified dotted name of a Name/Attribute expression or None."""
        if isinstance(node, ast.Name):
            return self.resolve(node.id)
        if isinstance(node, ast.Attribute):
            b = self.dotted(node.value)
            return self.prog.canonical(b + "." + node.attr) if b else None
        return None

    def resolve(self, name):
        if name in self.funcs or name in self.classes or name in self.assigns:
            return self.name + "." + name
        if name in self.imports:
            return self.prog.canonical(self.imports[name])
        for s in self.stars:
            m = self.prog.modules.get(s)
            if m:
                r = m.resolve_own(name)
                if r:
                    return r
        if name in BUILTINS:
            return name
        return None

    def resolve_own(self, name, depth=0):
        if name in self.funcs or name in self.classes or name in self.assigns:
            return self.name + "." + name
        if name in self.imports:
            return self.prog.canonical(self.imports[name])
        if depth < 4:
            for s in self.stars:
                m = self.prog.modules.get(s)
                if m:
                    r = m.resolve_own(name, depth + 1)
                    if r:
                        return r
        return None


class Program:
    def __init__(self, root, package="skdecide", overlay=None):
        self.root = root
        self.overlay = overlay or {}
        self.modules = {}
        self.classes = {}
        self.by_rel = {}
        self.broken = {}
        self._canon = {}
        for dp, dn, fn in sorted(os.walk(os.path.join(root, package))):
            dn[:] = [d for d in dn if d not in ("__pycache__", ".git")]
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        self.method_index = {}
        for c in self.classes.values():
            for m, fi in c.methods.items():
                self.method_index.setdefault(m, []).append(fi)

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[: -len(".__init__")]
        if rel in self.overlay:
            src = self.overlay[rel]
        else:
            with open(path, encoding="utf-8") as f:
                src = f.read()
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            self.broken[rel] = str(e)
            return
        m = Module(self, rel, name, tree, src)
        self.modules[name] = m
        self.by_rel[rel] = m

    def canonical(self, dotted, depth=0):
        """Follow re-exports: a.b.C imported into module x resolves to its definition."""
        if dotted is None or depth > 10:
            return dotted
        r = self._canon.get(dotted)
        if r is not None:
            return r
        r = dotted
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            nm = parts[i]
            if nm in m.funcs or nm in m.classes or nm in m.assigns:
                break
            if nm in m.imports and m.imports[nm] != dotted:
                r = self.canonical(".".join([m.imports[nm]] + parts[i + 1:]), depth + 1)
                break
            q = None
            for s in m.stars:
                sm = self.modules.get(s)
                if sm:
                    q = sm.resolve_own(nm)
                    if q:
                        break
            if q:
                r = self.canonical(".".join([q] + parts[i + 1:]), depth + 1)
            break
        self._canon[dotted] = r
        return r

    # ---------------------------------------------------------------- lookup
    def module(self, rel):
        return self.by_rel.get(rel)

    def cls(self, rel, name):
        m = self.by_rel.get(rel)
        if not m:
            return None
        c = m.classes.get(name.split(".")[0])
        for p in name.split(".")[1:]:
            c = c.inner.get(p) if c else None
        return c

    def find_class(self, dotted):
        dotted = self.canonical(dotted)
        return self.classes.get(dotted) if dotted else None

    def func_by_qual(self, qual):
        qual = self.canonical(qual)
        if qual is None:
            return None
        mod, _, nm = qual.rpartition(".")
        m = self.modules.get(mod)
        if m and nm in m.funcs:
            return m.funcs[nm]
        c = self.classes.get(mod)
        if c and nm in c.methods:
            return c.methods[nm]
        return None

    def bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            d = c.module.dotted(b)
            if d is None and isinstance(b, ast.Name) and c.qual.rsplit(".", 1)[0] in self.classes:
                o = self.classes[c.qual.rsplit(".", 1)[0]]
                if b.id in o.inner:
                    out.append(o.inner[b.id])
                    continue
            k = self.find_class(d) if d else None
            out.append(k if k is not None else (d or ast.unparse(b)))
        return out

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]
            seqs = []
            bs = self.bases(c)
            for b in bs:
                if isinstance(b, ClassInfo):
                    seqs.append(list(self.mro(b)))
            seqs.append([b for b in bs if isinstance(b, ClassInfo)])
            out = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            c._mro = out
        return c._mro

    def lookup(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def lookup_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k) and k is not c]

    def all_functions(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
        for c in self.classes.values():
            for f in c.methods.values():
                yield f
