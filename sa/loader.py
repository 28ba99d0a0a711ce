"""Loads /repo's package source, resolves modules, imports, functions, classes."""
from __future__ import annotations

import ast
import hashlib
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "pymc_extras"


class AnalysisBroken(Exception):
    """The analysis itself cannot proceed (anchor vanished, file does not parse)."""


class FuncDef:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decos = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

    @property
    def is_static(self):
        return "staticmethod" in self.decos

    @property
    def is_classmethod(self):
        return "classmethod" in self.decos

    @property
    def is_property(self):
        return "property" in self.decos or any(d.endswith("cached_property") for d in self.decos)

    @property
    def is_setter(self):
        return any(d.endswith(".setter") for d in self.decos)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def where(self):
        return f"{self.module.relpath}:{self.node.lineno}"


class ClassDef:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods: dict[str, FuncDef] = {}
        self.setters: dict[str, FuncDef] = {}
        self.assigns: dict[str, ast.AST] = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fd = FuncDef(f"{qual}.{st.name}", st, module, self)
                if fd.is_setter:
                    self.setters[st.name] = fd
                else:
                    self.methods[st.name] = fd
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.assigns[st.target.id] = st.value


class Module:
    def __init__(self, name, path, src=None):
        self.name, self.path = name, path
        self.relpath = os.path.relpath(path, REPO)
        if src is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
        self.src = src
        try:
            self.tree = ast.parse(self.src, filename=path)
        except SyntaxError as e:
            raise AnalysisBroken(f"{self.relpath} does not parse: {e}")
        self.is_pkg = path.endswith("__init__.py")
        self.imports: dict[str, str] = {}
        self.funcs: dict[str, FuncDef] = {}
        self.classes: dict[str, ClassDef] = {}
        self.assigns: dict[str, tuple] = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = f"{base}.{a.name}"
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                reg = registered_for(st)
                fd = FuncDef(f"{self.name}.{reg or st.name}", st, self)
                if reg:
                    self.funcs[reg] = fd
                if st.name != "_":
                    self.funcs[st.name] = fd
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassDef(f"{self.name}.{st.name}", st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.assigns[e.id] = ast.Subscript(st.value, ast.Constant(i), ast.Load())
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)
                self._scan(getattr(st, "orelse", []))


def registered_for(st):
    """Key of an implementation registered, by annotation, for a generic function: generic@Type."""
    for d in st.decorator_list:
        n = dotted_of(d)
        a = st.args.posonlyargs + st.args.args
        if n is not None and n.endswith(".register") and a and a[0].annotation is not None:
            t = dotted_of(a[0].annotation)
            if t is not None:
                return f"{n.split('.')[-2]}@{t.split('.')[-1]}"
    return None


class Program:
    def __init__(self, repo=None):
        global REPO
        if repo:
            REPO = repo
        self.repo = REPO
        self.modules: dict[str, Module] = {}
        self.spec: dict[str, Module] = {}
        root = os.path.join(REPO, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} not found")
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, REPO)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.modules[rel] = Module(rel, p)

    def load_spec(self, name):
        """Specification module of the analysis (never part of the analysed package)."""
        q = f"{PKG}.__spec__.{name}"
        if q not in self.spec:
            self.spec[q] = Module(q, os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", name + ".py"))
        return self.spec[q]

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]

    # -- resolution ---------------------------------------------------------
    def resolve(self, dotted, _depth=0):
        """Resolve a dotted name to ('func', FuncDef) / ('class', ClassDef) / ('module', Module)
        / ('value', (Module, name)) / ('ext', dotted)."""
        if _depth > 20:
            return ("ext", dotted)
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        if dotted in self.spec:
            return ("module", self.spec[dotted])
        if not dotted.startswith(PKG + "."):
            return ("ext", dotted)
        base, _, last = dotted.rpartition(".")
        kind, m = self.resolve(base, _depth + 1)
        if kind == "module":
            if last in m.funcs:
                return ("func", m.funcs[last])
            if last in m.classes:
                return ("class", m.classes[last])
            if last in m.assigns:
                return ("value", (m, last))
            if last in m.imports and m.imports[last] != dotted:
                return self.resolve(m.imports[last], _depth + 1)
            return ("ext", dotted)
        if kind == "class":
            fd = self.lookup_method(m, last)
            if fd:
                return ("func", fd)
        return ("ext", dotted)

    def resolve_local(self, module, name):
        if name in module.funcs:
            return ("func", module.funcs[name])
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.assigns:
            return ("value", (module, name))
        if name in module.imports:
            return self.resolve(module.imports[name])
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            d = dotted_of(b)
            if d is None:
                continue
            head, *rest = d.split(".")
            r = self.resolve_local(cls.module, head)
            if r and r[0] == "class" and not rest:
                out.append(r[1])
            elif head in cls.module.imports:
                full = ".".join([cls.module.imports[head], *rest])
                k, v = self.resolve(full)
                if k == "class":
                    out.append(v)
                else:
                    out.append(full)
        return out

    def mro(self, cls):
        seen, out = set(), []

        def go(c):
            if isinstance(c, str):
                out.append(c)
                return
            if c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in self.bases(c):
                go(b)

        go(cls)
        return out

    def lookup_method(self, cls, name, after=None):
        mro = [c for c in self.mro(cls) if not isinstance(c, str)]
        if after is not None:
            idx = next((i for i, c in enumerate(mro) if c.qual == after.qual), -1)
            mro = mro[idx + 1 :]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_class_assign(self, cls, name):
        for c in self.mro(cls):
            if not isinstance(c, str) and name in c.assigns:
                return c, c.assigns[name]
        return None

    def func(self, dotted):
        """Anchor: a function that must exist."""
        k, v = self.resolve(dotted)
        if k != "func":
            raise AnalysisBroken(f"anchor {dotted} not found (resolved to {k})")
        return v

    def cls(self, dotted):
        k, v = self.resolve(dotted)
        if k != "class":
            raise AnalysisBroken(f"anchor class {dotted} not found (resolved to {k})")
        return v

    def all_functions(self):
        for m in self.modules.values():
            yield from {id(f): f for f in m.funcs.values()}.values()
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f

    def subclasses(self, cls):
        for m in self.modules.values():
            for c in m.classes.values():
                if c.qual != cls.qual and any(
                    not isinstance(b, str) and b.qual == cls.qual for b in self.mro(c)
                ):
                    yield c


def dotted_of(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted_of(node.value)
        return None if b is None else f"{b}.{node.attr}"
    return None
