"""Whole-program model of the Python sources: modules, classes, functions, imports."""
from __future__ import annotations

import ast
import os
import warnings


def _parse(source):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(source)


class AnalysisBroken(Exception):
    """An anchor of the analysis is missing or the source cannot be analysed."""


class FuncInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        base = parent.qual + ".<locals>." if parent else (cls.qual + "." if cls else module.name + ".")
        self.qual = base + self.name
        self._locals = None
        decos = []
        for d in getattr(node, "decorator_list", []):
            n = d.func if isinstance(d, ast.Call) else d
            decos.append(n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else "?")
        self.decos = decos

    @property
    def is_static(self):
        return "staticmethod" in self.decos

    @property
    def is_classmethod(self):
        return "classmethod" in self.decos

    @property
    def is_property(self):
        return "property" in self.decos or "cached_property" in self.decos

    @property
    def is_abstract(self):
        return "abstractmethod" in self.decos

    @property
    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def where(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return f"{self.module.rel}:{getattr(n, 'lineno', '?')}"

    @property
    def locals(self):
        if self._locals is None:
            s = set()
            glob = set()

            def visit(n, top=False):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        s.add(c.name)
                        continue
                    if isinstance(c, ast.Lambda):
                        continue
                    if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        # own scope, except the first iterable and walrus targets
                        for w in ast.walk(c):
                            if isinstance(w, ast.NamedExpr):
                                s.add(w.target.id)
                        continue
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for al in c.names:
                            s.add((al.asname or al.name).split(".")[0])
                    if isinstance(c, (ast.Global, ast.Nonlocal)):
                        glob.update(c.names)
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        s.add(c.id)
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        s.add(c.name)
                    visit(c)

            if isinstance(self.node, ast.Lambda):
                body = []
            else:
                body = self.node.body
            holder = ast.Module(body=body, type_ignores=[])
            visit(holder)
            a = self.node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                s.add(p.arg)
            if a.vararg:
                s.add(a.vararg.arg)
            if a.kwarg:
                s.add(a.kwarg.arg)
            self._locals = s - glob
        return self._locals

    @property
    def is_generator(self):
        def has(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    return True
                if has(c):
                    return True
            return False

        return has(self.node)


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods = {}
        self.attrs = {}
        self.ann = {}
        self.bases = []
        for b in node.bases:
            self.bases.append(b)
        for c in node.body:
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[c.name] = FuncInfo(c, module, cls=self)
            elif isinstance(c, ast.Assign):
                for t in c.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = c.value
            elif isinstance(c, ast.AnnAssign) and isinstance(c.target, ast.Name):
                self.ann[c.target.id] = c.annotation
                if c.value is not None:
                    self.attrs[c.target.id] = c.value
        self.decos = []
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            self.decos.append(n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else "?")

    @property
    def is_dataclass(self):
        return "dataclass" in self.decos


class Module:
    def __init__(self, name, path, rel, is_pkg, source):
        self.name = name
        self.path = path
        self.rel = rel
        self.is_pkg = is_pkg
        self.source = source
        try:
            self.tree = _parse(source)
        except SyntaxError as e:
            raise AnalysisBroken(f"{rel}: {e}") from e
        self.functions = {}
        self.classes = {}
        self.imports = {}  # local name -> dotted path
        self.consts = {}  # name -> expr
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[n.name] = FuncInfo(n, self)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = ClassInfo(n, self)
            elif isinstance(n, ast.Import):
                self.add_import(n)
            elif isinstance(n, ast.ImportFrom):
                self.add_import(n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
            elif isinstance(n, ast.If):
                self._collect(n.body)
                self._collect(n.orelse)
            elif isinstance(n, ast.Try):
                self._collect(n.body)
                for h in n.handlers:
                    self._collect(h.body)
                self._collect(n.orelse)
            elif isinstance(n, ast.With):
                self._collect(n.body)

    def import_names(self, n):
        out = {}
        if isinstance(n, ast.Import):
            for al in n.names:
                if al.asname:
                    out[al.asname] = al.name
                else:
                    out[al.name.split(".")[0]] = al.name.split(".")[0]
        else:
            base = n.module or ""
            if n.level:
                parts = self.name.split(".")
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for al in n.names:
                out[al.asname or al.name] = base + "." + al.name
        return out

    def add_import(self, n):
        self.imports.update(self.import_names(n))


class Program:
    """All Python modules under <repo>/src."""

    def __init__(self, repo, sub=None):
        self.repo = repo
        self.modules = {}
        root = os.path.join(repo, "src")
        for d, dirs, files in os.walk(os.path.join(root, "mqt")):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                name = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                is_pkg = name.endswith(".__init__")
                if is_pkg:
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    self.modules[name] = Module(name, p, rel, is_pkg, fh.read())

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken(f"module {name} not found")
        return m

    def resolve(self, dotted, seen=()):
        """dotted path -> FuncInfo / ClassInfo / Module / ('const', module, name) / None (external)."""
        if dotted in seen:
            return None
        if dotted in self.modules:
            return self.modules[dotted]
        head, _, tail = dotted.rpartition(".")
        if not head:
            return None
        base = self.resolve(head, (*seen, dotted))
        if isinstance(base, Module):
            return self.lookup(base, tail, (*seen, dotted))
        return None

    def lookup(self, module, name, seen=()):
        if name in module.functions:
            return module.functions[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            r = self.resolve(module.imports[name], seen)
            if r is not None:
                return r
            return ("ext", module.imports[name])
        if name in module.consts:
            return ("const", module, name)
        sub = module.name + "." + name
        if sub in self.modules:
            return self.modules[sub]
        return None

    def mro(self, cls):
        out = [cls]
        for b in cls.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.lookup(cls.module, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                m = self.lookup(cls.module, b.value.id)
                if isinstance(m, Module):
                    r = self.lookup(m, b.attr)
            if isinstance(r, ClassInfo):
                for c in self.mro(r):
                    if c not in out:
                        out.append(c)
        return out

    def base_names(self, cls):
        """Unresolved (external) base class names over the MRO."""
        out = set()
        for c in self.mro(cls):
            for b in c.bases:
                out.add(b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "?")
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def func(self, module, name):
        """module 'mqt.qecc.x', name 'f' or 'C.f'; raises when the anchor vanished."""
        m = self.module(module)
        if "." in name:
            c, f = name.split(".")
            if c not in m.classes:
                raise AnalysisBroken(f"class {module}.{c} not found")
            r = self.find_method(m.classes[c], f)
        else:
            r = m.functions.get(name)
            if r is None:
                r2 = self.lookup(m, name)
                r = r2 if isinstance(r2, FuncInfo) else None
        if r is None:
            raise AnalysisBroken(f"function {module}.{name} not found")
        return r

    def cls(self, module, name):
        m = self.module(module)
        r = m.classes.get(name)
        if r is None:
            r2 = self.lookup(m, name)
            r = r2 if isinstance(r2, ClassInfo) else None
        if r is None:
            raise AnalysisBroken(f"class {module}.{name} not found")
        return r

    def all_functions(self):
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()
