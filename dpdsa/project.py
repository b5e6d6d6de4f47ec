"""Loading and resolving the analysed program: modules, functions, classes, types.

Nothing in here imports or executes the analysed code: source files are parsed with
`ast`; names are resolved through the import statements that are found there.
"""

from __future__ import annotations

import ast
from dataclasses import dataclass, field
from pathlib import Path


@dataclass
class FuncInfo:
    qual: str
    node: ast.AST
    module: str
    parents: tuple = ()  # enclosing frame ids, innermost first
    cls: str | None = None  # enclosing class (for name mangling and super())
    defaults: dict = field(default_factory=dict)
    decorators: list = field(default_factory=list)  # canonical names
    is_gen: bool = False
    dispatch: dict | None = None  # singledispatch registry: list of (type term, fn term)

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")


@dataclass
class FieldInfo:
    name: str
    ann: ast.AST | None
    default: object = None  # ast node of the default or None
    factory: object = None
    converter: object = None
    validator: object = None
    init: bool = True
    kw_only: bool = False
    module: str = ""
    sympify: bool = True


@dataclass
class ClassInfo:
    qual: str
    node: ast.ClassDef
    module: str
    bases: list = field(default_factory=list)  # canonical names (repo quals or ext names)
    kind: str = "plain"  # attrs_frozen, attrs_define, unevaluated, plain, typeddict, protocol, enum
    order: bool = False
    eq: bool = True
    decorators: list = field(default_factory=list)
    fields: list = field(default_factory=list)
    methods: dict = field(default_factory=dict)  # name -> (fn term, kind)
    attrs: dict = field(default_factory=dict)  # class-level values
    parents: tuple = ()


@dataclass
class Module:
    name: str
    path: str
    tree: ast.Module
    is_pkg: bool
    is_spec: bool = False


def load_modules(root: Path, package: str) -> dict[str, Module]:
    out = {}
    for p in sorted((root / package).rglob("*.py")):
        rel = p.relative_to(root).with_suffix("")
        parts = list(rel.parts)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        src = p.read_text(encoding="utf-8")
        out[".".join(parts)] = Module(".".join(parts), str(p), ast.parse(src), is_pkg)
    return out


def canonical_ext(name: str) -> str:
    """Canonical name of an external object: top-level package and the object itself."""
    parts = name.split(".")
    if len(parts) <= 2:
        return name
    for i, c in enumerate(parts[1:], 1):
        if c[:1].isupper():
            return ".".join([parts[0], *parts[i:]])
    return name


def is_generator(node) -> bool:
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef,
                          ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def mangle(cls: str | None, name: str) -> str:
    if cls and name.startswith("__") and not name.endswith("__"):
        return "_" + cls.split(".")[-1].lstrip("_") + name
    return name
