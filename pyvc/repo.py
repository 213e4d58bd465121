"""Mechanical extraction of the code under /repo: parsed afresh on every run, nothing dropped."""
from __future__ import annotations

import ast
import os

from .sym import ClassV, FuncV, LibV, Unsupported

REPO = os.environ.get("PYVC_REPO", "/repo")
PKG = "instancespace"


class Module:
    def __init__(self, name):
        self.name = name
        rel = name.replace(".", "/")
        path = os.path.join(REPO, rel + ".py")
        self.is_pkg = False
        if not os.path.exists(path):
            path = os.path.join(REPO, rel, "__init__.py")
            self.is_pkg = True
        self.path = path
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.defs: dict = {}
        self._scan(self.tree.body)
        self.cache: dict = {}

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.defs[a.asname] = ("lib", a.name)
                    else:
                        self.defs[a.name.split(".")[0]] = ("lib", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    pk = self.name.split(".")
                    pk = pk if self.is_pkg else pk[:-1]
                    pk = pk[: len(pk) - (st.level - 1)]
                    base = ".".join(pk + ([st.module] if st.module else []))
                for a in st.names:
                    self.defs[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.defs[st.target.id] = ("expr", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
            elif isinstance(st, ast.TypeAlias):
                self.defs[st.name.id] = ("expr", st.value)


class Repo:
    def __init__(self):
        self.mods: dict[str, Module] = {}

    def module(self, name):
        if name not in self.mods:
            self.mods[name] = Module(name)
        return self.mods[name]

    def is_repo(self, name):
        if not (name == PKG or name.startswith(PKG + ".")):
            return False
        p = os.path.join(REPO, name.replace(".", "/"))
        return os.path.exists(p + ".py") or os.path.isdir(p)

    def lookup(self, mod, name, interp):
        """Value of a module-level name, or raises KeyError."""
        if name in mod.cache:
            return mod.cache[name]
        d = mod.defs[name]
        if isinstance(d, ast.FunctionDef):
            v = FuncV(mod, d, f"{mod.name}:{name}")
        elif isinstance(d, ast.ClassDef):
            v = ClassV(mod, d, name)
        elif d[0] == "lib":
            v = LibV(d[1])
        elif d[0] == "from":
            base, nm = d[1], d[2]
            if self.is_repo(base):
                m2 = self.module(base)
                if nm in m2.defs:
                    v = self.lookup(m2, nm, interp)
                elif self.is_repo(base + "." + nm):
                    v = LibV(base + "." + nm)
                else:
                    raise Unsupported(f"import {base}.{nm}")
            else:
                v = LibV(f"{base}.{nm}")
        else:
            v = interp.module_expr(mod, d[1])
        if not (isinstance(d, tuple) and d[0] == "expr"):
            mod.cache[name] = v
        return v

    def find(self, qual, interp=None):
        """FuncV for 'module:func' or 'module:Class.method'; KeyError if it is gone."""
        modname, path = qual.split(":")
        mod = self.module(modname)
        parts = path.split(".")
        node = mod.defs[parts[0]]
        if len(parts) == 1:
            if not isinstance(node, ast.FunctionDef):
                raise KeyError(qual)
            return FuncV(mod, node, qual)
        if not isinstance(node, ast.ClassDef):
            raise KeyError(qual)
        for st in node.body:
            if isinstance(st, ast.FunctionDef) and st.name == parts[1]:
                return FuncV(mod, st, qual, cls=ClassV(mod, node, parts[0]))
        raise KeyError(qual)


def class_members(cls):
    out = {}
    for st in cls.node.body:
        if isinstance(st, ast.FunctionDef):
            out[st.name] = st
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = ("expr", st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            out[st.target.id] = ("field", st.value)
        elif isinstance(st, ast.ClassDef):
            out[st.name] = st
    return out


def decorators(node):
    out = set()
    for d in node.decorator_list:
        t = d.func if isinstance(d, ast.Call) else d
        out.add(ast.unparse(t).split(".")[-1])
    return out


def class_fields(cls):
    """Ordered annotated fields [(name, default expr or None)]."""
    return [(st.target.id, st.value) for st in cls.node.body
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]


def base_names(cls):
    out = []
    for b in cls.node.bases:
        if isinstance(b, ast.Subscript):
            b = b.value
        out.append(ast.unparse(b))
    return out


def class_kind(cls):
    bs = base_names(cls)
    if any(b.split(".")[-1] == "NamedTuple" for b in bs):
        return "namedtuple"
    decs = decorators(cls.node)
    if "dataclass" in decs:
        for d in cls.node.decorator_list:
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    if k.arg == "frozen" and getattr(k.value, "value", False):
                        return "frozen"
        return "dataclass"
    if any("Enum" in b for b in bs):
        return "enum"
    return "class"
