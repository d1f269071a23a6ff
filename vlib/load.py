"""Project loader: parse every module of /repo/improver, resolve names.

Nothing from /repo is imported or executed; only parsed."""
import ast
import os
import warnings

warnings.filterwarnings("ignore", category=SyntaxWarning)

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "improver"


class AnalysisBroken(Exception):
    """The analysis lost an anchor: reported as an error exit, never a pass."""


class Func:
    __slots__ = ("qual", "module", "cls", "name", "node", "kind", "relpath", "cmod")

    def __init__(self, qual, module, cls, name, node, kind, relpath):
        self.cmod = module      # the module it belongs to in the confirmed tree
        self.qual, self.module, self.cls, self.name = qual, module, cls, name
        self.node, self.kind, self.relpath = node, kind, relpath

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            out.append(a.vararg.arg)
        out += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    @property
    def where(self):
        return f"{self.relpath}:{self.node.lineno}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    __slots__ = ("qual", "module", "name", "node", "methods", "bases", "consts", "relpath")

    def __init__(self, qual, module, name, node, relpath):
        self.qual, self.module, self.name, self.node = qual, module, name, node
        self.methods, self.bases, self.consts = {}, [], {}
        self.relpath = relpath


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name, self.path, self.relpath, self.tree = name, path, relpath, tree
        self.is_pkg = is_pkg
        self.imports = {}   # local name -> dotted target
        self.funcs = {}
        self.classes = {}
        self.consts = {}    # name -> value expr node (assigned once at module level)
        self.multi = set()  # names assigned more than once at module level


class Project:
    def __init__(self, root=None, sources=None, trees=None):
        self.root = root or REPO
        self.modules = {}
        self.funcs = {}    # qual -> Func
        self.classes = {}  # qual -> Class
        base = os.path.join(self.root, PKG)
        if sources is not None:
            for rel in sorted(sources):
                self._load(os.path.join(self.root, rel), sources[rel])
        elif trees is not None:
            for path in sorted(trees):
                self._load(path, tree=trees[path])
        elif not os.path.isdir(base):
            raise AnalysisBroken(f"no package directory {base}")
        for dp, dn, fn in os.walk(base) if sources is None and trees is None else ():
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        for m in list(self.modules.values()):
            self._index(m)
        self.link()

    def link(self):
        for c in self.classes.values():
            m = self.modules[c.module]
            c.bases = [self.resolve_expr(m, b) for b in c.node.bases]

    def _load(self, path, src=None, tree=None):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        if src is None and tree is None:
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
        try:
            tree = tree or ast.parse(src)
        except SyntaxError as e:
            raise AnalysisBroken(f"cannot parse {rel}: {e}")
        self.modules[name] = Module(name, path, rel, tree, is_pkg)

    def _index(self, m):
        def imports(body):
            for st in body:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.imports[a.asname] = a.name
                        else:
                            m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ""
                    if st.level:
                        pk = m.name.split(".")
                        if not m.is_pkg:
                            pk = pk[:-1]
                        pk = pk[: len(pk) - (st.level - 1)]
                        base = ".".join(pk + ([st.module] if st.module else []))
                    for a in st.names:
                        m.imports[a.asname or a.name] = base + "." + a.name
                elif isinstance(st, ast.Try):
                    imports(st.body)
                    for h in st.handlers:
                        imports(h.body)
                    imports(st.orelse)
                elif isinstance(st, ast.If):
                    imports(st.body)
                    imports(st.orelse)

        imports(m.tree.body)
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{m.name}.{st.name}"
                f = Func(q, m.name, None, st.name, st, "function", m.relpath)
                m.funcs[st.name] = f
                self.funcs[q] = f
            elif isinstance(st, ast.ClassDef):
                q = f"{m.name}.{st.name}"
                c = Class(q, m.name, st.name, st, m.relpath)
                m.classes[st.name] = c
                self.classes[q] = c
                for s in st.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        kind = "method"
                        for d in s.decorator_list:
                            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                                kind = d.id
                        fq = f"{q}.{s.name}"
                        f = Func(fq, m.name, q, s.name, s, kind, m.relpath)
                        c.methods[s.name] = f
                        self.funcs[fq] = f
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                c.consts[t.id] = s.value
                    elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                        c.consts[s.target.id] = s.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if t.id in m.consts:
                            m.multi.add(t.id)
                        m.consts[t.id] = st.value
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                m.multi.add(e.id)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                m.consts[st.target.id] = st.value
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                m.multi.add(st.target.id)

    # ---- resolution -------------------------------------------------
    def canonical(self, dotted, depth=0):
        """Follow re-exports: improver.X.Y -> defining dotted name."""
        if depth > 10 or not dotted.startswith(PKG):
            return dotted
        if dotted in self.funcs or dotted in self.classes or dotted in self.modules:
            return dotted
        head, _, tail = dotted.rpartition(".")
        if not head:
            return dotted
        head = self.canonical(head, depth + 1)
        if head in self.modules:
            m = self.modules[head]
            if tail in m.funcs:
                return m.funcs[tail].qual
            if tail in m.classes:
                return m.classes[tail].qual
            if tail in m.imports and tail not in m.consts:
                return self.canonical(m.imports[tail], depth + 1)
        return f"{head}.{tail}"

    def resolve_name(self, m, name):
        """Dotted name a module-global `name` denotes, or None."""
        if name in m.funcs:
            return m.funcs[name].qual
        if name in m.classes:
            return m.classes[name].qual
        if name in m.consts or name in m.multi:
            return f"{m.name}.{name}"
        if name in m.imports:
            return self.canonical(m.imports[name])
        return None

    def resolve_expr(self, m, e):
        """Dotted name for Name/Attribute chains rooted at a module global."""
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b is None:
                return None
            return self.canonical(f"{b}.{e.attr}")
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return None
        return None

    def mro(self, cq, seen=None):
        out = []
        seen = seen or set()
        if cq in seen or cq not in self.classes:
            return out
        seen.add(cq)
        out.append(self.classes[cq])
        for b in self.classes[cq].bases:
            if b:
                for x in self.mro(b, seen):
                    if x not in out:
                        out.append(x)
        return out

    def find_method(self, cq, name):
        for c in self.mro(cq):
            if name in c.methods:
                return c.methods[name]
        return None

    def is_subclass(self, cq, base):
        return any(c.qual == base for c in self.mro(cq))

    def subclasses(self, base):
        return [c for c in self.classes.values() if self.is_subclass(c.qual, base)]
