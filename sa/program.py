"""Program model: parses the package under analysis (source only, nothing is
imported or executed) and resolves modules, classes, functions and imports."""
from __future__ import annotations

import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis itself cannot give a verdict (vanished anchor, parse error)."""


class FuncInfo:
    def __init__(self, module, qual, node, cls=None):
        self.module = module
        self.qual = qual
        self.node = node
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = getattr(node, "decorator_list", [])

    def __repr__(self):
        return f"Func({self.module.name}.{self.qual})"

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


class ClassInfo:
    def __init__(self, module, name, node):
        self.module = module
        self.name = name
        self.node = node
        self.methods: dict[str, FuncInfo] = {}
        self.setters: dict[str, FuncInfo] = {}
        self.class_attrs: dict[str, ast.expr] = {}
        self.fields: list = []  # annotated fields in order (dataclasses)
        self.bases: list = []  # resolved later: ClassInfo or dotted str
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(module, f"{name}.{st.name}", st, self)
                setter = any(
                    isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter")
                    for d in st.decorator_list
                )
                if setter:
                    self.setters[st.name] = fi
                else:
                    self.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.class_attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    self.class_attrs[st.target.id] = st.value

    def is_dataclass(self):
        for d in self.node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            if (isinstance(n, ast.Name) and n.id == "dataclass") or (
                isinstance(n, ast.Attribute) and n.attr == "dataclass"
            ):
                return True
        return False

    def mro(self):
        # simple linearisation, sufficient for single inheritance + mixins
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out.extend(b for b in c.bases if isinstance(b, str))
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            if name in c.class_attrs:
                return None  # shadowed by a plain class attribute
        return None

    def lookup_after(self, cls, name):
        seen = False
        for c in self.mro():
            if seen and name in c.methods:
                return c.methods[name]
            if c is cls:
                seen = True
        return None

    def lookup_attr(self, name):
        for c in self.mro():
            if name in c.class_attrs:
                return c, c.class_attrs[name]
        return None

    def is_subclass(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"Class({self.name})"


class Module:
    def __init__(self, program, name, path):
        self.program = program
        self.name = name
        self.path = path
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        try:
            self.tree = ast.parse(self.source, filename=path)
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {path}: {e}")
        self.functions: dict[str, FuncInfo] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.imports: dict[str, str] = {}
        self.assigns: dict[str, ast.expr] = {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(self, st.name, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st.name, st)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for local, dotted in import_bindings(st, self.name):
                    self.imports[local] = dotted
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, st.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.assigns.setdefault(e.id, st.value)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.assigns.setdefault(st.target.id, st.value)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                for fld in ("orelse", "finalbody", "body"):
                    # later wins: the final `body`/else order prefers modern branch
                    self._collect(getattr(st, fld, []))
                for h in getattr(st, "handlers", []):
                    self._collect(h.body)


def import_bindings(st, modname):
    """Yield (local name, absolute dotted target)."""
    if isinstance(st, ast.Import):
        for a in st.names:
            if a.asname:
                yield a.asname, a.name
            else:
                yield a.name.split(".")[0], a.name.split(".")[0]
    else:
        base = st.module or ""
        if st.level:
            parts = modname.split(".")
            parts = parts[: len(parts) - st.level] if st.level <= len(parts) else []
            base = ".".join(parts + ([st.module] if st.module else []))
        for a in st.names:
            yield a.asname or a.name, f"{base}.{a.name}" if base else a.name


class Program:
    def __init__(self, repo=REPO, package="glum", src="src/glum"):
        self.repo = repo
        self.package = package
        root = os.path.join(repo, src)
        if not os.path.isdir(root):
            raise AnalysisError(f"package directory {root} vanished")
        self.modules: dict[str, Module] = {}
        self.pyx_paths: dict[str, str] = {}
        for dirpath, dirs, files in os.walk(root):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for fn in sorted(files):
                p = os.path.join(dirpath, fn)
                rel = os.path.relpath(p, root)
                mod = rel.rsplit(".", 1)[0].replace(os.sep, ".")
                if fn.endswith(".py"):
                    name = package if mod == "__init__" else f"{package}.{mod}"
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    m = Module.__new__(Module)
                    self.modules[name] = m
                    # packages resolve relative imports one level shallower
                    Module.__init__(m, self, name, p)
                    if fn == "__init__.py":
                        m.imports = {}
                        for st in m.tree.body:
                            if isinstance(st, (ast.Import, ast.ImportFrom)):
                                for loc, d in import_bindings(st, name + ".__init__"):
                                    m.imports[loc] = d
                elif fn.endswith(".pyx"):
                    self.pyx_paths[f"{package}.{mod}"] = p
        self._pyx = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_static(m, b)
                    c.bases.append(r)

    def pyx(self, name):
        if name not in self._pyx:
            from . import pyx as _p

            self._pyx[name] = _p.load(self.pyx_paths[name], name)
        return self._pyx[name]

    # -- static resolution -------------------------------------------------
    def resolve_dotted(self, dotted, _depth=0):
        """dotted path -> FuncInfo | ClassInfo | Module | ('assign', mod, expr) | str"""
        if _depth > 10:
            return dotted
        if dotted in self.modules:
            return self.modules[dotted]
        if "." in dotted:
            mod, name = dotted.rsplit(".", 1)
            if mod in self.modules:
                m = self.modules[mod]
                if name in m.functions:
                    return m.functions[name]
                if name in m.classes:
                    return m.classes[name]
                if name in m.assigns:
                    return ("assign", m, name)
                if name in m.imports:
                    return self.resolve_dotted(m.imports[name], _depth + 1)
        return dotted

    def resolve_static(self, module, expr):
        if isinstance(expr, ast.Name):
            n = expr.id
            if n in module.classes:
                return module.classes[n]
            if n in module.functions:
                return module.functions[n]
            if n in module.imports:
                return self.resolve_dotted(module.imports[n])
            return n
        if isinstance(expr, ast.Attribute):
            base = self.resolve_static(module, expr.value)
            if isinstance(base, Module):
                return self.resolve_dotted(f"{base.name}.{expr.attr}")
            if isinstance(base, str):
                return f"{base}.{expr.attr}"
        if isinstance(expr, ast.Subscript):
            return self.resolve_static(module, expr.value)
        return ast.unparse(expr)

    def cls(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        raise AnalysisError(f"class {name} vanished")

    def func(self, name):
        for m in self.modules.values():
            if name in m.functions:
                return m.functions[name]
        raise AnalysisError(f"function {name} vanished")

    def rel(self, path):
        return os.path.relpath(path, self.repo)
