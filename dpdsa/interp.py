"""Gated value-flow analysis of Python source.

The analysis walks the syntax trees of the analysed program once, joining values at
control-flow merges with decision nodes (gated SSA), summarising loops over unknown
collections with element-wise segments (no unrolling, no path enumeration), and
inlining resolved callees.  Its result for a function is the *value graph* of the
function: the normal form of its result, of the exceptions that it raises and of its
effects, as a term over its inputs (see `terms`).
"""

from __future__ import annotations

import ast
import itertools

from . import terms as T
from .project import (ClassInfo, FieldInfo, FuncInfo, Module, canonical_ext, is_generator, mangle)
from .terms import (AND, FALSE, NONE, NOT, ONE, OR, TRUE, UNDEF, ZERO, Term, atom, ite, lift, mk)


class Unsupported(Exception):
    """A construct for which the analysis has no transfer function."""


class State:
    __slots__ = ("frames", "heap", "ctx", "pc", "eff")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.ctx = TRUE
        self.pc = TRUE
        self.eff = {}

    def fork(self):
        s = State()
        s.frames = {k: dict(v) if not k[0] == "mod" else v for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.ctx, s.pc = self.ctx, self.pc
        s.eff = dict(self.eff)
        return s

    def become(self, o):
        self.frames, self.heap, self.ctx, self.pc, self.eff = o.frames, o.heap, o.ctx, o.pc, o.eff

    @property
    def live(self):
        return self.pc is not FALSE


class Exits:
    """Ways in which a block can be left."""

    def __init__(self):
        self.returns = []  # (pc, value, state)
        self.raises = []  # (pc, exception class name, state)
        self.breaks = []  # (pc, state)
        self.continues = []


_IDS = itertools.count(1)


def ty_any():
    return ("any",)


BUILTIN_NAMES = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
BUILTIN_EXC = {n for n in BUILTIN_NAMES if isinstance(getattr(__import__("builtins"), n), type)
               and issubclass(getattr(__import__("builtins"), n), BaseException)}


class Interp:
    def __init__(self, modules: dict[str, Module], config):
        self.modules = modules
        self.oneshot = set()  # references of iterators
        self.config = config
        self.fn: dict[str, FuncInfo] = {}
        self.cls: dict[str, ClassInfo] = {}
        self.clo: dict[int, FuncInfo] = {}
        self.base = State()
        self.loaded: dict[str, str] = {}
        self.stack: list = []
        self.loc: dict = {}
        self.cur = []  # (module, function, node)
        self.stats = {"functions": set(), "calls": 0, "branches": 0, "loops": 0, "external_calls": set()}
        self.dispatchers: dict[str, list] = {}  # external dispatchers extended by the program
        self.opaque_notes: list = []
        self.reading_spec = False
        self.cast_types: dict = {}
        self._bases = None
        self.memo: dict = {}
        self.escaped: list = []
        T.HOOKS["typeof"] = self.typeof
        T.HOOKS["exact_class"] = self.exact_class
        T.HOOKS["isinst"] = self.isinst_hook
        T.HOOKS["type_is"] = self.type_is
        T.HOOKS["isinst_implies"] = self.isinst_implies
        T.HOOKS["truthy"] = self.truthy_hook
        T.HOOKS["elem_type"] = self.elem_type
        T.HOOKS["attr"] = self.attr_term
        from . import models

        self.models = models
        models.install(self)

    # ------------------------------------------------------------ loading
    def load_all(self):
        for name in self.modules:
            self.load(name)

    def load(self, name):
        if name in self.loaded:
            return
        self.loaded[name] = "loading"
        m = self.modules[name]
        fid = ("mod", name)
        st = self.base
        st.frames.setdefault(fid, {"__name__": T.string(name)})
        self.cur.append((name, "<module>", m.tree))
        ex = Exits()
        self.block(m.tree.body, st, Ctx(self, name, (fid,), None, ex))
        self.cur.pop()
        if st.pc is not TRUE:
            raise Unsupported(f"module {name} may not load")
        names = {x for n in ast.walk(m.tree) if isinstance(n, ast.Global) for x in n.names}
        if names:
            fr = st.frames[fid]
            st.frames[("glob", name)] = {x: fr.get(x, UNDEF) for x in names}
        self.loaded[name] = "loaded"

    def lookup_module_attr(self, mod, name):
        if mod in self.modules:
            if mod not in self.loaded:
                self.load(mod)
            fr = self.base.frames[("mod", mod)]
            if name in self.base.frames.get(("glob", mod), ()):
                raise Unsupported(f"{mod}.{name} changes at run time")
            if name in fr:
                return self.resolve_import(fr[name])
            if f"{mod}.{name}" in self.modules:
                return mk("mod", f"{mod}.{name}")
            if name == "__file__":
                return self.file_of(mod)
            return None
        return None

    def file_of(self, mod):
        """Path of a module, relative to the directory that contains the package."""
        return T.string("/".join(["", *mod.split(".")]) + ("/__init__.py" if self.modules[mod].is_pkg else ".py"))

    def resolve_import(self, t):
        n = 0
        while t.op == "imp":
            n += 1
            mod, name = t.args
            r = self.lookup_module_attr(mod, name)
            if r is None or n > 20:
                raise Unsupported(f"cannot resolve {mod}.{name}")
            t = r
        return t

    # ------------------------------------------------------------ types
    def exact_class(self, t):
        """Name of the attrs class of `t`, if it cannot be a subclass (instances of different classes differ)."""
        if isinstance(t, tuple):
            typ = t
        elif t.op == "rec":
            typ = ("cls", t.args[0], t.args[1], "exact")
        else:
            typ = self.typeof(t)
        if not typ or typ[0] != "cls" or typ[1] not in self.cls:
            return None
        ci = self.cls[typ[1]]
        if not ci.eq:
            return None
        if len(typ) > 3 or typ[1] not in self.base_names():
            return typ[1], dict(typ[2] or ())
        return None

    def base_names(self):
        if self._bases is None:
            self._bases = {b for c in self.cls.values() for b in self.mro(c.qual)[1:]}
        return self._bases

    # ------------------------------------------------------------ types
    def typeof(self, t):
        op = t.op
        if op == "sym":
            return T.SYM_TYPE.get(t.args[0])
        if op in ("bv", "rho"):
            return T.BV_TYPE.get(t.args[0])
        if op == "attr":
            return self.field_type(self.typeof(t.args[0]), t.args[1])
        if op == "item":
            return self.item_type(self.typeof(t.args[0]), t.args[1])
        if op == "rec":
            return ("cls", t.args[0], None)
        if op == "num":
            return ("int",) if T.is_int(t) else ("num",)
        if op == "poly":
            return ("num",)
        if op in ("SUM", "PROD"):
            return ("num",)
        if op == "bool":
            return ("bool",)
        if op == "none":
            return ("none",)
        if op in ("cstr", "str", "fmt", "strjoin"):
            return ("str",)
        if op == "seq":
            if all(s.op == "el" for s in t.args[1]) and t.args[0] == "tuple":
                return ("tuple", [self.typeof(s.args[0]) for s in t.args[1]])
            return (("list" if t.args[0] == "list" else "tuple*"), self.elem_type(t))
        if op == "set":
            return ("set", self.elem_type(t))
        if op == "dict":
            return ("dict", self.elem_type(t), self.val_type(t))
        if op == "ite":
            ts = {repr(self.typeof(x)): self.typeof(x) for x in T.leafset(t)}
            if len(ts) == 1:
                return next(iter(ts.values()))
            return None
        if op == "app":
            return self.models.app_type(self, t)
        if op == "mcall":
            return self.models.mcall_type(self, t)
        if op in ("first", "last"):
            return self.elem_type(t.args[1])
        if op == "call":
            ft = self.typeof(t.args[0])
            if ft and ft[0] == "callable":
                return ft[1]
            return None
        if op in ("cls",):
            return ("type",)
        if op in ("lam", "fn", "clo"):
            return ("callable", None)
        if op == "arg":
            src = t.args[2]
            v = T.fresh_bv(self.elem_type(src), src)
            return self.typeof(T._replace_level(t.args[4], t.args[0], v))
        return None

    def field_type(self, typ, name):
        if typ is None:
            return None
        if typ[0] == "union":
            ts = [self.field_type(x, name) for x in typ[1] if x[0] != "none"]
            ts = [x for x in ts if x is not None]
            if not ts:
                return None
            if all(repr(x) == repr(ts[0]) for x in ts):
                return ts[0]
            return ("union", ts)
        if typ[0] == "cls":
            if typ[2]:
                for n, ft in typ[2]:
                    if n == name:
                        return ft if not isinstance(ft, Term) else self.typeof(ft)
            f = self.find_field(typ[1], name)
            if f is not None:
                return self.ann(f.ann, f.module)
            return None
        if typ[0] == "ext":
            if len(typ) > 3:
                for n, ft in typ[3]:
                    if n == name:
                        return ft if not isinstance(ft, Term) else self.typeof(ft)
            return self.config.ext_field_type(typ, name)
        return None

    def find_field(self, cls, name):
        ci = self.cls.get(cls)
        if ci is None:
            return None
        for f in self.all_fields(cls):
            if f.name == name:
                return f
        return None

    def mro(self, cls):
        out = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            if c in self.cls:
                todo = list(self.cls[c].bases) + todo
        return out

    def all_fields(self, cls):
        out = []
        for c in reversed(self.mro(cls)):
            if c in self.cls:
                for f in self.cls[c].fields:
                    out = [g for g in out if g.name != f.name] + [f]
        return out

    def item_type(self, typ, idx):
        if typ is None:
            return None
        k = typ[0]
        if k in ("list", "tuple*"):
            if idx.op == "seq" and idx.args[0] == "slice":
                return typ
            return typ[1]
        if k == "tuple":
            if T.is_int(idx):
                i = T.int_of(idx)
                if -len(typ[1]) <= i < len(typ[1]):
                    return typ[1][i]
            return None
        if k == "dict":
            return typ[2]
        if k == "keys":
            return next((v for n, v in typ[1] if n is idx), None)
        if k == "str":
            return typ
        if k == "ext" and typ[1] == "sympy.IndexedBase":
            return ("ext", "sympy.Indexed", ())
        if k == "cls" and idx.op == "cstr":
            return self.field_type(typ, idx.args[0])
        if k == "union":
            ts = [x for x in (self.item_type(x, idx) for x in typ[1]) if x is not None]
            if ts and all(repr(x) == repr(ts[0]) for x in ts):
                return ts[0]
            return ("union", ts) if ts else None
        return None

    def elem_type(self, t):
        if t is None:
            return None
        if t.op in ("seq", "set"):
            segs = t.args[1] if t.op == "seq" else t.args[0]
            ts = []
            for s in segs:
                if s.op == "el":
                    ts.append(self.typeof(s.args[0]))
                elif s.op == "sp":
                    ts.append(self.elem_type(s.args[0]))
                elif s.op == "for":
                    level, src, body = s.args
                    v = T.fresh_bv(self.elem_type(src), src)
                    b = T._replace_level(body, level, v)
                    for leaf in T.leafset(b):
                        if leaf.op == "seq" and leaf.args[1]:
                            ts.append(self.elem_type(leaf))
            ts = [x for x in ts if x is not None]
            if ts and all(repr(x) == repr(ts[0]) for x in ts):
                return ts[0]
            return None
        if t.op == "dict":
            for s in t.args[0]:
                if s.op == "kv":
                    return self.typeof(s.args[0])
                if s.op == "sp":
                    return self.elem_type(s.args[0])
                if s.op == "dfor":
                    level, src, body = s.args
                    v = T.fresh_bv(self.elem_type(src), src)
                    b = T._replace_level(body, level, v)
                    for leaf in T.leafset(b):
                        if leaf.op == "dict" and leaf.args[0]:
                            return self.elem_type(leaf)
            return None
        if t.op == "ite":
            ts = {repr(x): x for x in (self.elem_type(y) for y in T.leafset(t)) if x is not None}
            return next(iter(ts.values())) if len(ts) == 1 else None
        if t.op == "app":
            r = self.models.app_elem_type(self, t)
            if r is not None:
                return r
        typ = self.typeof(t)
        return self.type_elem(typ)

    def type_elem(self, typ):
        if typ is None:
            return None
        k = typ[0]
        if k in ("list", "set", "tuple*", "dict", "iter"):
            return typ[1]
        if k == "tuple":
            ts = typ[1]
            if ts and all(repr(x) == repr(ts[0]) for x in ts):
                return ts[0]
        if k == "union":
            ts = [x for x in map(self.type_elem, typ[1]) if x is not None]
            if ts and all(repr(x) == repr(ts[0]) for x in ts):
                return ts[0]
        if k == "str":
            return typ
        return None

    def val_type(self, t):
        if t.op == "dict":
            for s in t.args[0]:
                if s.op == "kv":
                    return self.typeof(s.args[1])
                if s.op == "sp":
                    return self.val_type(s.args[0])
                if s.op == "dfor":
                    level, src, body = s.args
                    v = T.fresh_bv(self.elem_type(src), src)
                    b = T._replace_level(body, level, v)
                    for leaf in T.leafset(b):
                        if leaf.op == "dict" and leaf.args[0]:
                            return self.val_type(leaf)
            return None
        typ = self.typeof(t)
        if typ and typ[0] == "dict":
            return typ[2]
        return None

    # annotations
    def ann(self, node, module):
        if node is None:
            return ("any",)
        k = (id(node), module)
        r = self._ann_cache.get(k)
        if r is None:
            r = self._ann(node, module)
            self._ann_cache[k] = r
        return r

    _ann_cache: dict = {}

    def _ann(self, node, module):
        try:
            if isinstance(node, ast.Constant) and isinstance(node.value, str):
                node2 = ast.parse(node.value, mode="eval").body
                self._keep.append(node2)
                return self._ann(node2, module)
            if isinstance(node, ast.Constant):
                return ("none",) if node.value is None else ("any",)
            if isinstance(node, ast.BinOp):
                return self.union(self._ann(node.left, module), self._ann(node.right, module))
            if isinstance(node, ast.Subscript):
                base = self.ann_name(node.value, module)
                args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
                return self.generic(base, args, module)
            t = self.ann_name(node, module)
            return self.term_type(t, module)
        except Unsupported:
            return ("any",)

    _keep: list = []

    def ann_name(self, node, module):
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            return self.ann_name(ast.parse(node.value, mode="eval").body, module)
        if isinstance(node, ast.Name):
            fr = self.base.frames.get(("mod", module), {})
            if node.id in fr:
                return self.resolve_import(fr[node.id])
            return mk("ext", "builtins." + node.id)
        if isinstance(node, ast.Attribute):
            b = self.ann_name(node.value, module)
            if b.op == "mod":
                r = self.lookup_module_attr(b.args[0], node.attr)
                if r is not None:
                    return r
            if b.op == "ext":
                return mk("ext", canonical_ext(b.args[0] + "." + node.attr))
        raise Unsupported("annotation")

    def union(self, *ts):
        out = []
        for t in ts:
            for x in (t[1] if t[0] == "union" else [t]):
                if not any(repr(x) == repr(y) for y in out):
                    out.append(x)
        if any(x[0] == "any" for x in out):
            return ("any",)
        return out[0] if len(out) == 1 else ("union", out)

    def generic(self, base, args, module):
        if base.op == "cls":
            return ("cls", base.args[0], None)
        if base.op != "ext":
            return self.term_type(base, module)
        name = base.args[0].split(".")[-1]
        A = lambda i: self._ann(args[i], module)
        if name in ("Required", "NotRequired", "Final", "ClassVar", "Annotated", "ReadOnly"):
            return A(0)
        if name == "Optional":
            return self.union(A(0), ("none",))
        if name == "Union":
            return self.union(*[self._ann(a, module) for a in args])
        if name == "Literal":
            vals = []
            for a in args:
                if isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.USub):
                    vals.append(T.neg(T.const(a.operand.value)))
                else:
                    vals.append(T.const(a.value))
            return ("lit", tuple(vals))
        if name in ("list", "List", "Sequence", "MutableSequence", "Collection"):
            return ("list", A(0))
        if name in ("Iterable", "Iterator", "Generator"):
            return ("iter", A(0))
        if name in ("set", "Set", "frozenset", "FrozenSet", "AbstractSet"):
            return ("set", A(0))
        if name in ("dict", "Dict", "Mapping", "MutableMapping", "defaultdict", "frozendict"):
            return ("dict", A(0), A(1)) if len(args) == 2 else ("dict", None, None)
        if name in ("tuple", "Tuple"):
            if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                return ("tuple*", A(0))
            if len(args) == 1 and isinstance(args[0], ast.Tuple):
                return ("tuple", [self._ann(a, module) for a in args[0].elts])
            return ("tuple", [self._ann(a, module) for a in args])
        if name == "Callable":
            return ("callable", A(1))
        if name in ("type", "Type"):
            return ("type",)
        return ("ext", base.args[0], tuple(self._ann(a, module) for a in args))

    def term_type(self, t, module):
        if t.op == "cls":
            ci = self.cls.get(t.args[0])
            if ci is not None and ci.kind == "protocol":
                call = ci.methods.get("__call__")
                if call is not None:
                    fi = self.fn[call[0].args[0]]
                    return ("callable", self.ann(fi.node.returns, fi.module))
                return ("any",)
            if ci is not None and ci.kind == "namedtuple":
                return ("tuple", [self.ann(f.ann, f.module) for f in self.all_fields(t.args[0])])
            return ("cls", t.args[0], None)
        if t.op == "none":
            return ("none",)
        if t.op == "ext":
            n = t.args[0].split(".")[-1]
            if n == "int":
                return ("int",)
            if n == "str":
                return ("str",)
            if n == "bool":
                return ("bool",)
            if n in ("float", "complex", "SupportsFloat", "SupportsInt", "Decimal", "Fraction"):
                return ("num",)
            if n in ("Any", "NoReturn", "object", "Self"):
                return ("any",)
            if n in ("list", "Sequence"):
                return ("list", None)
            if n in ("Iterable", "Iterator"):
                return ("iter", None)
            if n in ("dict", "Mapping"):
                return ("dict", None, None)
            if n in ("tuple",):
                return ("tuple*", None)
            if n in ("set", "frozenset"):
                return ("set", None)
            if n == "None":
                return ("none",)
            if n == "Callable":
                return ("callable", None)
            return ("ext", t.args[0], ())
        if t.op == "tyalias":
            node, mod = self._aliases[t.args[0]]
            if t.args[0] in self._alias_active:
                return ("any",)
            self._alias_active.add(t.args[0])
            try:
                return self.ann(node, mod)
            finally:
                self._alias_active.discard(t.args[0])
        return ("any",)

    _aliases: dict = {}
    _alias_active: set = set()

    # ------------------------------------------------------------ isinstance
    KINDS = {
        "list": {"list", "Sequence", "Iterable", "Collection", "MutableSequence", "Sized", "Container", "Reversible", "object"},
        "tuple": {"tuple", "Sequence", "Iterable", "Collection", "Sized", "Container", "Hashable", "Reversible", "object"},
        "set": {"set", "frozenset", "Set", "Iterable", "Collection", "Sized", "Container", "object"},
        "dict": {"dict", "Mapping", "MutableMapping", "Iterable", "Collection", "Sized", "Container", "object"},
        "str": {"str", "Sequence", "Iterable", "Collection", "Sized", "Container", "Hashable", "object"},
        "int": {"int", "Hashable", "SupportsFloat", "SupportsInt", "Integral", "Number", "Real", "Rational", "object"},
        "num": {"float", "complex", "Hashable", "SupportsFloat", "Number", "object"},
        "bool": {"bool", "int", "Hashable", "SupportsFloat", "SupportsInt", "object"},
        "none": {"NoneType", "Hashable", "object"},
        "callable": {"Callable", "Hashable", "object"},
    }

    def type_is(self, typ, tgt: Term):
        """Is every / no value of `typ` an instance of class term `tgt`?"""
        if typ is None or typ[0] == "any":
            return None
        if typ[0] == "union":
            rs = {self.type_is(x, tgt) for x in typ[1]}
            return rs.pop() if len(rs) == 1 else None
        if typ[0] == "lit":
            rs = {self.type_is(self.typeof(v), tgt) for v in typ[1]}
            return rs.pop() if len(rs) == 1 else None
        name = tgt.args[0]
        short = name.split(".")[-1]
        k = typ[0]
        if k == "cls":
            if typ[1] in self.cls and self.cls[typ[1]].kind == "typeddict":
                if tgt.op == "cls":
                    return None
                return short in self.KINDS["dict"]
            m = self.mro(typ[1])
            if name in m:
                return True
            if tgt.op == "cls":
                return None if typ[1] in self.mro(name) and len(typ) < 4 else False
            if short == "Callable":
                return any("__call__" in self.cls[c].methods for c in m if c in self.cls)
            if short in ("Hashable", "object"):
                return True
            if short in ("Expr", "Basic") and any(x.startswith("sympy.") for x in m):
                return True
            if any(x not in self.cls and not x.startswith("typing.") for x in m):
                return False if name.startswith(("builtins.", "collections.")) else None
            return False
        if k == "ext":
            if typ[1] == name:
                return True
            return self.config.ext_isinstance(typ[1], name, tgt.op)
        if k in ("tuple", "tuple*"):
            return short in self.KINDS["tuple"] if tgt.op == "ext" else False
        if k == "iter":
            if tgt.op == "cls":
                return False
            if short in ("Iterable", "object"):
                return True
            return False if short in ("str", "int", "float", "bool", "NoneType") or not name.startswith(
                ("builtins.", "collections.", "typing.")) else None
        if k == "list" and short in ("list", "tuple") and not name.startswith("qrules"):
            return True if short == "list" else None if False else (short == "list")
        if k in self.KINDS:
            if tgt.op == "cls":
                return False
            if short in self.KINDS[k]:
                return True
            if k == "int" and short in ("bool",):
                return None if False else False
            if k == "num" and short in ("int", "bool", "Rational", "Integer", "Expr", "Basic"):
                return None
            if k == "int" and name.startswith("sympy."):
                return None
            return False
        if k == "type":
            return short in ("type", "object", "Hashable", "Callable") if tgt.op == "ext" else False
        return None

    def isinst_hook(self, x, tgt):
        if x.op == "ref":
            raise Unsupported("isinstance of an unfrozen reference")
        if x.op in ("lam", "fn", "clo", "bmeth", "bound", "partial"):
            return tgt.op == "ext" and tgt.args[0].split(".")[-1] in ("Callable", "object", "FunctionType", "Hashable")
        if x.op == "cls" or x.op == "ext":
            return tgt.op == "ext" and tgt.args[0].split(".")[-1] in ("type", "object", "Hashable", "Callable")
        if tgt.op not in ("cls", "ext"):
            return None
        return self.type_is(self.typeof(x), tgt)

    def narrow(self, typ, tgt, val):
        """Members of a union type that are compatible with the outcome of a test."""
        if typ is None or typ[0] != "union":
            return typ
        out = [m for m in typ[1] if self.type_is(m, tgt) is not (not val)]
        return self.union(*out) if out else typ

    def isinst_implies(self, x, t1, val, t2):
        if t1.op in ("cls", "ext") and t2.op in ("cls", "ext"):
            typ = self.typeof(x)
            if typ is not None and typ[0] == "union":
                r = self.type_is(self.narrow(typ, t1, val), t2)
                if r is not None:
                    return r
            if val and t1.op == "cls":
                if t2.args[0] in self.mro(t1.args[0]):
                    return True
                if t2.op == "cls" and t1.args[0] not in self.mro(t2.args[0]):
                    return False
                if t2.op == "ext":
                    return self.type_is(("cls", t1.args[0], None), t2)
            if val and t1.op == "ext":
                if t2.op == "cls":
                    return False if t1.args[0] not in self.mro(t2.args[0]) else None
                return self.config.ext_isinstance(t1.args[0], t2.args[0], "ext", implied=True)
            if not val and t1.op == "cls" and t2.op == "cls" and t1.args[0] in self.mro(t2.args[0]):
                return False
        return None

    def truthy_hook(self, t):
        typ = self.typeof(t)
        if typ is None:
            return None
        if typ[0] == "cls":
            m = self.mro(typ[1])
            if any("__bool__" in self.cls[c].methods or "__len__" in self.cls[c].methods for c in m if c in self.cls):
                return None
            if any(c in self.cls and self.cls[c].kind == "typeddict" for c in m):
                return None
            return TRUE
        if typ[0] in ("list", "tuple*", "dict", "set"):
            return T.nonempty(t)
        if typ[0] == "tuple":
            return T.boolean(bool(typ[1]))
        if typ[0] == "none":
            return FALSE
        if typ[0] == "str":
            return T.NOT(T.eq(t, T.string("")))
        if typ[0] in ("int", "num") or typ[:2] in (("ext", "sympy.Rational"), ("ext", "sympy.Integer"), ("ext", "complex")):
            return T.NOT(T.eq(t, T.num(0)))
        if typ[0] == "ext" and self.config.ext_truthy(typ[1]):
            return TRUE
        return None

    def attr_term(self, o, name):
        def go(x):
            if x is UNDEF:
                return UNDEF
            if x.op == "rec":
                v = T.rec_field(x, name)
                if v is not None:
                    return v
            typ = self.typeof(x)
            if typ is not None and typ[0] == "cls" and typ[2]:
                for n, ft in typ[2]:
                    if n == name and isinstance(ft, Term):
                        return ft
                    if n == name and ft == ("none",):
                        return NONE
            if typ is not None and typ[0] == "ext" and len(typ) > 3:
                for n, ft in typ[3]:
                    if n == name and isinstance(ft, Term):
                        return ft
                    if n == name and ft[0] == "keys":  # a dictionary with exactly these keys
                        d = mk("attr", x, name)
                        return T.mkdict([T.kv(k, T.item(d, k)) for k, _ in ft[1]])
            if x.op == "app":
                r = self.models.app_attr(self, x, name)
                if r is not None:
                    return r
            if x.op == "arg":
                return T._map_arg(x, lambda r: self.attr_term(r, name))
            if x.op == "item" and name in ("indices", "base") and self.typeof(x) == ("ext", "sympy.Indexed", ()):
                if name == "base":
                    return x.args[0]
                return x.args[1] if x.args[1].op == "seq" else T.seq("tuple", [T.el(x.args[1])])
            return mk("attr", x, name)

        return lift(go, o)

    # ------------------------------------------------------------ states
    def full(self, st):
        return AND(st.ctx, st.pc)

    def decide(self, st, c):
        """Simplify condition `c` with what is known at this point."""
        if c.op == "bool":
            return c
        full = self.full(st)
        if full is TRUE:
            return c
        if AND(full, c) is FALSE:
            return FALSE
        if AND(full, NOT(c)) is FALSE:
            return TRUE
        return c

    def known_set(self, st, x):
        """The constant set to which `x` is known to be equal at this point."""
        if x.op == "set":
            for const, a in T.SET_EQ.get(x, {}).items():
                if self.decide(st, atom(a)) is TRUE:
                    return const
        return x

    def prune(self, st, t):
        if t.op != "ite":
            return t
        full = self.full(st)
        if full is TRUE:
            return t
        return self._drop_dead(ite(full, t, mk("sym", "<dead>")))

    def _drop_dead(self, t):
        dead = mk("sym", "<dead>")
        memo = {}

        def go(x):
            if x.op != "ite":
                return x
            r = memo.get(x)
            if r is None:
                a, hi, lo = x.args
                h, l = go(hi), go(lo)
                r = l if h is dead else h if l is dead else ite(atom(a), h, l)
                memo[x] = r
            return r

        return go(t)

    def merge(self, st, states):
        """Join `states` (with disjoint path conditions) into `st`."""
        states = [s for s in states if s.live]
        if not states:
            st.pc = FALSE
            return
        if len(states) == 1:
            st.become(states[0])
            return
        last = states[-1]
        out = last.fork()
        for s in reversed(states[:-1]):
            c = s.pc
            for fid, fr in s.frames.items():
                if fid[0] == "mod":
                    continue
                o = out.frames.setdefault(fid, {})
                for k in set(fr) | set(o):
                    a, b = fr.get(k, UNDEF), o.get(k, UNDEF)
                    if a is not b:
                        o[k] = self.join(c, a, b)
            for r in set(s.heap) | set(out.heap):
                a, b = s.heap.get(r), out.heap.get(r)
                if a is None or b is None:
                    out.heap[r] = a or b
                elif a != b:
                    out.heap[r] = self.join_cell(c, a, b)
            for k, cond in s.eff.items():
                out.eff[k] = OR(out.eff.get(k, FALSE), cond)
            out.pc = OR(out.pc, s.pc)
        st.become(out)

    def join(self, c, a, b):
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return ite(c, a, b)

    def join_cell(self, c, a, b):
        if a[0] != b[0]:
            raise Unsupported("join of different kinds of objects")
        if a[0] == "obj":
            fs = {}
            for k in {**a[2], **b[2]}:
                fs[k] = self.join(c, a[2].get(k, UNDEF), b[2].get(k, UNDEF))
            return ("obj", a[1], fs)
        if a[0] == "dict":
            return ("dict", ite(c, a[1], b[1]), a[2])
        return (a[0], ite(c, a[1], b[1]))

    def branch(self, st, cond, then, other):
        """Evaluate `then(state)` or `other(state)` by `cond`, join, return joined value."""
        cond = self.decide(st, cond)
        if cond is TRUE:
            return then(st)
        if cond is FALSE:
            return other(st)
        self.stats["branches"] += 1
        s1, s2 = st.fork(), st.fork()
        s1.pc, s2.pc = AND(st.pc, cond), AND(st.pc, NOT(cond))
        v1 = then(s1)
        v2 = other(s2)
        l1, l2 = s1.live, s2.live
        self.merge(st, [s1, s2])
        if v1 is None and v2 is None:
            return None
        v1, v2 = v1 if v1 is not None else UNDEF, v2 if v2 is not None else UNDEF
        if not l1:
            return v2
        if not l2:
            return v1
        return ite(cond, v1, v2)

    def cases(self, st, t, fn):
        """Apply `fn(state, leaf)` for every leaf of a gated value and join."""
        if t.op != "ite":
            return fn(st, t)
        t = self.prune(st, t)
        if t.op != "ite":
            return fn(st, t)
        # group equal leaves
        ls = T.leafset(t)
        if len(ls) > 64:
            raise T.TooComplex("too many cases")
        ls.sort(key=lambda x: x.key)

        def rec(st, i):
            if i == len(ls) - 1:
                return fn(st, ls[i])
            c = T.condition_of_leaf(t, lambda x: x is ls[i])
            return self.branch(st, c, lambda s: fn(s, ls[i]), lambda s: rec(s, i + 1))

        return rec(st, 0)

    # ------------------------------------------------------------ heap
    def alloc(self, st, cell):
        r = mk("ref", next(_IDS))
        st.heap[r] = cell
        return r

    def one_shot(self, t):
        """Mark fresh collections as iterators, which are exhausted once they have been used."""
        for x in T.leafset(t):
            if x.op == "ref":
                self.oneshot.add(x)
        return t

    def consume(self, st, x, rest=()):
        """Use up the one-shot iterator `x`; `rest` is what is left of it (None if that is not known)."""
        if self.used_up(st.heap[x][1]):
            raise Unsupported("second use of an iterator of which a part was used")
        st.heap[x] = ("list", mk("used", st.heap[x][1]) if rest is None else T.seq("list", rest))

    def used_up(self, t):
        return any(x.op == "used" for x in T.leafset(t))

    def new_list(self, st, segs):
        if isinstance(segs, Term):
            return self.alloc(st, ("list", segs))
        return self.alloc(st, ("list", T.seq("list", segs)))

    def new_dict(self, st, d=None, factory=None):
        return self.alloc(st, ("dict", d if d is not None else T.mkdict([]), factory))

    def new_set(self, st, s):
        return self.alloc(st, ("set", s))

    def content(self, st, t):
        """Replace a (top-level) reference to a collection by its contents."""
        def go(x):
            if x.op == "ref":
                c = st.heap[x]
                if c[0] in ("list", "dict", "set"):
                    return c[1]
            return x

        if t.op in ("ref", "ite"):
            return lift(go, t)
        return t

    def freeze(self, st, t, active=(), final=False):
        """Value of `t` with every reference replaced by the contents at this point.

        In a final result, iterators are told apart from collections.
        """
        if not self._has_ref(t):
            return t
        memo = {}

        def leaf(r):
            if r in active_set:
                return mk("sym", "<cycle>")
            c = st.heap[r]
            active_set.add(r)
            try:
                if c[0] in ("list", "dict", "set"):
                    return mk("iterator", go(c[1])) if final and r in self.oneshot else go(c[1])
                ci = self.cls.get(c[1])
                if ci is not None and ci.kind in ("attrs_define", "attrs_frozen", "unevaluated"):
                    fs = [(f.name, go(c[2].get(f.name, UNDEF))) for f in self.all_fields(c[1])]
                    return T.rec(c[1], fs)
                if "__call__" in self.all_methods(c[1]):
                    pass
                return T.rec(c[1], [(k, go(v)) for k, v in sorted(c[2].items())])
            finally:
                active_set.discard(r)

        active_set = set(active)

        def go(x):
            if not isinstance(x, Term):
                if isinstance(x, tuple):
                    return tuple(go(y) for y in x)
                return x
            if x.op == "ref":
                return leaf(x)
            if x.op == "clo":
                return self.freeze_closure(st, x)
            if not self._has_ref(x):
                return x
            r = memo.get(x)
            if r is None:
                if x.op == "seq" and x.args[0] == "tuple":
                    r = T.rebuild(x, go)
                else:
                    r = T.rebuild(x, go)
                if not active_set:
                    memo[x] = r
            return r

        return go(t)

    _hasref: dict = {}

    def _has_ref(self, t):
        r = self._hasref.get(t)
        if r is None:
            r = False
            stack = [t]
            while stack:
                a = stack.pop()
                if isinstance(a, Term):
                    if a.op in ("ref", "clo"):
                        r = True
                        break
                    k = self._hasref.get(a)
                    if k:
                        r = True
                        break
                    if k is None:
                        stack.extend(a.args)
                elif isinstance(a, tuple):
                    stack.extend(a)
            self._hasref[t] = r
            if not r:
                pass
        return r

    def freeze_closure(self, st, x):
        """A closure as a value: its body as a function of fresh parameters."""
        fi = self.clo[x.args[0]]
        key = x.args[0]
        if key in self._freezing:
            return mk("sym", f"<recursive closure {fi.name}>")
        self._freezing.add(key)
        try:
            a = fi.node.args
            if a.vararg or a.kwarg or a.kwonlyargs:
                return mk("sym", f"<closure {fi.name}>")
            ps = [p for p in a.posonlyargs + a.args]
            vs = [T.fresh_bv(self.ann(p.annotation, fi.module)) for p in ps]
            s = st.fork()
            s.ctx, s.pc = TRUE, TRUE
            r = self.call_fn(s, x, list(vs), {}, ex=None, capture_raise=True)
            return T.mklam(vs, self.freeze(s, r))
        finally:
            self._freezing.discard(key)

    _freezing: set = set()

    def all_methods(self, cls):
        out = {}
        for c in reversed(self.mro(cls)):
            if c in self.cls:
                out.update(self.cls[c].methods)
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if c in self.cls and name in self.cls[c].methods:
                return self.cls[c].methods[name]
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls):
            if c in self.cls and name in self.cls[c].attrs:
                return self.cls[c].attrs[name]
        return None

    # ------------------------------------------------------------ effects and exits
    def effect(self, st, key, cond=TRUE):
        c = AND(self.full(st), cond)
        if c is not FALSE:
            st.eff[key] = OR(st.eff.get(key, FALSE), c)

    def raise_(self, st, cx, exc, cond=TRUE):
        cond = self.decide(st, cond)
        if cond is FALSE or not st.live:
            return
        pc = AND(st.pc, cond)
        s = st.fork()
        s.pc = pc
        cx.ex.raises.append((pc, exc, s))
        st.pc = AND(st.pc, NOT(cond))

    def opaque(self, why, node=None):
        mod, fn, _ = self.cur[-1] if self.cur else ("?", "?", None)
        line = getattr(node, "lineno", 0)
        n = f"{mod}:{fn}:{why}"
        self.opaque_notes.append((mod, fn, line, why))
        return mk("opaque", n)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, cx):
        for s in stmts:
            if not st.live:
                return
            self.stmt(s, st, cx)

    def stmt(self, n, st, cx):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__} at {cx.module}:{n.lineno}")
        try:
            m(n, st, cx)
        except Unsupported as e:
            if not hasattr(e, "where"):
                e.where = f"{cx.module}:{getattr(n, 'lineno', 0)}"
                e.args = (f"{e.args[0]} [{e.where}]",)
            raise

    def st_Expr(self, n, st, cx):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, st, cx)

    def st_Pass(self, n, st, cx):
        pass

    def st_Global(self, n, st, cx):
        cx.globals |= set(n.names)

    def st_Nonlocal(self, n, st, cx):
        cx.nonlocals |= set(n.names)

    def st_Delete(self, n, st, cx):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.frames[cx.frames[0]].pop(t.id, None)
            else:
                raise Unsupported("del of an item")

    def st_Import(self, n, st, cx):
        for a in n.names:
            if a.name in self.modules:
                t = mk("mod", a.name if a.asname else a.name.split(".")[0])
            elif a.asname:
                t = mk("ext", a.name)
            else:
                t = mk("ext", a.name.split(".")[0])
            self.bind(a.asname or a.name.split(".")[0], t, st, cx)

    def st_ImportFrom(self, n, st, cx):
        mod = n.module or ""
        if n.level:
            base = cx.module.split(".")
            if not self.modules[cx.module].is_pkg:
                base = base[:-1]
            base = base[: len(base) - (n.level - 1)]
            mod = ".".join(base + ([n.module] if n.module else []))
        if mod == "__future__":
            return
        for a in n.names:
            if a.name == "*":
                if mod in self.modules:
                    self.load(mod)
                    for k, v in list(self.base.frames[("mod", mod)].items()):
                        if not k.startswith("_"):
                            self.bind(k, v, st, cx)
                    continue
                raise Unsupported("star import")
            if f"{mod}.{a.name}" in self.modules:
                t = mk("mod", f"{mod}.{a.name}")
            elif mod in self.modules:
                t = mk("imp", mod, a.name)
                if mod not in self.loaded:
                    self.load(mod)
            else:
                t = self.models.ext_name(mod, a.name)
            self.bind(a.asname or a.name, t, st, cx)

    def st_FunctionDef(self, n, st, cx):
        decs = []
        for d in n.decorator_list:
            decs.append((self.ev(d, st, cx), d))
        names = [self.dec_name(t) for t, _ in decs]
        if any(x in ("typing.overload", "typing_extensions.overload") for x in names):
            return
        t = self.make_function(n, st, cx, names)
        for (d, node), nm in reversed(list(zip(decs, names))):
            t = self.decorate(st, cx, d, nm, t, n)
        self.bind(n.name, t, st, cx)

    def dec_name(self, t):
        if t.op == "ext":
            return t.args[0]
        if t.op == "app":
            return "call:" + t.args[0]
        return t.op

    TRANSPARENT = {"functools.cache", "functools.lru_cache", "functools.wraps", "typing.final", "typing.override",
                   "builtins.staticmethod", "builtins.classmethod", "builtins.property", "functools.cached_property",
                   "abc.abstractmethod", "typing.no_type_check", "contextlib.contextmanager", "typing_extensions.override",
                   "call:functools.lru_cache", "call:ampform.cache_to_disk", "call:functools.wraps"}

    def decorate(self, st, cx, d, nm, t, n):
        if nm in self.TRANSPARENT or nm.rsplit(".", 1)[-1] == "cache_to_disk":
            return t
        if nm == "functools.singledispatch":
            fi = self.fn[t.args[0]]
            fi.dispatch = []
            return t
        if d.op == "registrar":
            disp, typ = d.args
            self.register(disp, typ, t)
            return t
        return self.call(st, cx, d, [t], {})

    def register(self, disp, typ, fn):
        def add(reg, typ):
            reg[:] = [(a, b) for a, b in reg if a is not typ]
            reg.append((typ, fn))

        if disp.op == "fn":
            reg = self.fn[disp.args[0]].dispatch
        else:
            reg = self.dispatchers.setdefault(disp.args[0], [])
        add(reg, typ)

    def make_function(self, n, st, cx, names=()):
        a = n.args
        defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[p.arg] = self.ev(d, st, cx)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = self.ev(d, st, cx)
        name = getattr(n, "name", "<lambda>")
        qual = f"{cx.qual}.{name}"
        if getattr(n, "name", None) is not None and qual in self.fn and cx.frames[0][0] == "mod":
            k = 2
            while f"{qual}#{k}" in self.fn:
                k += 1
            if name == "_" or True:
                qual = f"{qual}#{k}"
        fi = FuncInfo(qual, n, cx.module, parents=cx.frames, cls=cx.cls, defaults=defaults,
                      decorators=list(names), is_gen=is_generator(n))
        if cx.frames[0][0] == "mod":
            self.fn[qual] = fi
            return mk("fn", qual)
        i = next(_IDS)
        self.clo[i] = fi
        return mk("clo", i)

    def st_ClassDef(self, n, st, cx):
        from .classes import define_class

        define_class(self, n, st, cx)

    def st_Return(self, n, st, cx):
        v = NONE if n.value is None else self.ev(n.value, st, cx)
        if not st.live:
            return
        cx.ex.returns.append((st.pc, v, st.fork()))
        st.pc = FALSE

    def st_Raise(self, n, st, cx):
        if n.exc is None:
            name = cx.handling or "Exception"
            self.raise_(st, cx, name)
            return
        t = self.ev(n.exc, st, cx)
        if not st.live:
            return

        def go(s, t):
            self.raise_(s, cx, self.exc_name(t))
            return None

        self.cases(st, t, go)
        st.pc = FALSE

    def exc_name(self, t):
        if t.op == "ext":
            return t.args[0].split(".")[-1]
        if t.op == "app":
            return t.args[0].split(".")[-1]
        if t.op == "cls":
            return t.args[0]
        if t.op == "rec":
            return t.args[0]
        if t.op == "ref":
            return "object"
        raise Unsupported(f"raise of {t.op}")

    def st_Assert(self, n, st, cx):
        c = self.truth(n.test, st, cx)
        self.raise_(st, cx, "AssertionError", NOT(c))

    def st_If(self, n, st, cx):
        if self.is_type_checking(n.test, st, cx):
            for s in n.body:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    self.stmt(s, st, cx)
            return
        c = self.truth(n.test, st, cx)
        if not st.live:
            return
        self.branch(st, c, lambda s: self.block(n.body, s, cx), lambda s: self.block(n.orelse, s, cx))

    def is_type_checking(self, test, st, cx):
        if isinstance(test, (ast.Name, ast.Attribute)):
            try:
                t = self.ev(test, st, cx)
            except Unsupported:
                return False
            return t.op == "ext" and t.args[0] == "typing.TYPE_CHECKING"
        return False

    def st_Assign(self, n, st, cx):
        if (cx.frames[0][0] == "mod" and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)
                and self.looks_like_alias(n.value, st, cx)):
            i = next(_IDS)
            self._aliases[i] = (n.value, cx.module)
            self.bind(n.targets[0].id, mk("tyalias", i), st, cx)
            return
        v = self.ev(n.value, st, cx)
        if not st.live:
            return
        for t in n.targets:
            self.assign(t, v, st, cx)

    def looks_like_alias(self, v, st, cx):
        if isinstance(v, ast.Subscript):
            try:
                b = self.ann_name(v.value, cx.module)
            except Unsupported:
                return False
            if b.op == "cls":
                return True
            if b.op == "ext" and b.args[0].split(".")[-1] in (
                    "Literal", "Union", "Optional", "list", "dict", "tuple", "set", "Callable", "Iterable", "Sequence",
                    "Mapping", "List", "Dict", "Tuple", "type"):
                return b.args[0].startswith(("typing.", "builtins.", "collections."))
        return False

    def st_AnnAssign(self, n, st, cx):
        if n.value is None:
            return
        v = self.ev(n.value, st, cx)
        if st.live:
            self.assign(n.target, v, st, cx)

    def st_AugAssign(self, n, st, cx):
        load = ast.copy_location(self._as_load(n.target), n.target)
        cur = self.ev(load, st, cx)
        v = self.ev(n.value, st, cx)
        if not st.live:
            return
        r = self.binop(st, cx, type(n.op).__name__, cur, v, inplace=True)
        if st.live and not (r is cur and cur.op == "ref" and not isinstance(n.target, ast.Name)):
            self.assign(n.target, r, st, cx)

    def _as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        return ast.Subscript(t.value, t.slice, ast.Load())

    def bind(self, name, v, st, cx):
        if name in cx.globals:
            st.frames[("glob", cx.module) if ("glob", cx.module) in st.frames else ("mod", cx.module)][name] = v
            return
        if name in cx.nonlocals:
            for f in cx.frames[1:]:
                if name in st.frames.get(f, {}):
                    st.frames[f][name] = v
                    return
        st.frames[cx.frames[0]][name] = v

    def assign(self, t, v, st, cx):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, cx)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, cx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, cx)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, cx)
            self.cases(st, o, lambda s, x: self.setattr(s, cx, x, mangle(cx.cls, t.attr), v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, cx)
            i = self.ev_index(t.slice, st, cx)
            if st.live:
                self.cases(st, o, lambda s, x: self.setitem(s, cx, x, i, v))
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def setattr(self, st, cx, o, name, v):
        if o.op == "ref" and st.heap[o][0] == "obj":
            k, c, fs = st.heap[o]
            st.heap[o] = ("obj", c, {**fs, name: v})
            return None
        if o.op == "rec":
            self.raise_(st, cx, "FrozenInstanceError")
            return None
        if o.op == "ext" and all(x.op in ("clo", "fn", "lam") for x in T.leafset(v)):
            # what a replaced method does, is seen where it is called
            st.frames.setdefault(("ext", o.args[0]), {})[name] = v
            self.effect(st, ("setattr", T.show(o), name))
            return None
        if o.op in ("ext", "cls", "fn", "clo", "mod"):
            self.effect(st, ("setattr", T.show(o), name, self.freeze(st, v)))
            return None
        self.effect(st, ("mutate", T.show(o), "setattr " + name))
        return None

    def setitem(self, st, cx, o, i, v):
        if o.op == "ref":
            c = st.heap[o]
            i2 = self.freeze(st, i)
            if c[0] == "list" and i2.op == "seq" and i2.args[0] == "slice":
                return self.store_slice(st, o, c, i2, v)
            if c[0] == "dict":
                st.heap[o] = ("dict", T.dict_store(c[1], i2, v), c[2])
                return None
            if c[0] == "list":
                es = T.seq_elements(c[1]) if c[1].op == "seq" else None
                if es is not None and T.is_int(i2) and -len(es) <= T.int_of(i2) < len(es):
                    es = list(es)
                    es[T.int_of(i2)] = v
                    st.heap[o] = ("list", T.seq("list", [T.el(x) for x in es]))
                    return None
                raise Unsupported("store into a list of unknown length")
            m = self.find_method(c[1], "__setitem__") if c[0] == "obj" else None
            if m:
                self.call(st, cx, m[0], [o, i, v], {})
                return None
        self.effect(st, ("mutate", T.show(self.freeze(st, o)), "setitem"))
        return None

    def store_slice(self, st, o, c, i, v):
        """`l[a:b] = v` where the replaced part lies within elements that are listed one by one."""
        segs = c[1].args[1] if c[1].op == "seq" else (mk("sp", c[1]),)
        lo, hi, step = T.seq_elements(i)
        whole = all(s.op == "el" for s in segs)
        n = len(segs)

        def pos(x, default):
            if x is NONE:
                return default
            if not T.is_int(x) or T.int_of(x) < 0 and not whole:
                raise Unsupported("store into a slice of unknown position")
            k = T.int_of(x)
            k = max(k + n, 0) if k < 0 else k
            if k > n and whole:
                k = n
            if k > n or any(s.op != "el" for s in segs[:k]):
                raise Unsupported("store into a slice of unknown position")
            return k

        a, b = pos(lo, 0), pos(hi, n)
        if step is not NONE:
            raise Unsupported("store into a slice with a step")

        def go(s2, src):
            new = tuple(T.as_segments(src))
            s2.heap[o] = ("list", T.seq("list", [*segs[:a], *new, *segs[max(a, b):]]))
            return NONE

        self.cases(st, self.iter_source(st, v), go)
        return None

    def unpack(self, targets, v, st, cx):
        star = [k for k, t in enumerate(targets) if isinstance(t, ast.Starred)]

        def go(s, x):
            src = self.iter_source(s, x)
            return self.cases(s, src, lambda s2, y: self._unpack(targets, star, y, s2, cx))

        self.cases(st, v, go)

    def _unpack(self, targets, star, x, st, cx):
        n = len(targets)
        if x.op == "set" and T.set_elements(x) is not None and not all(T.is_const(e) for e in T.set_elements(x)):
            if not (n == len(T.set_elements(x)) == 1):
                x = T.seq("list", [T.mk("sp", x)])
        segs = list(T.as_segments(x))
        typ = self.typeof(x) if x.op not in ("seq", "set", "dict") else None
        if len(segs) == 1 and segs[0].op == "sp" and typ and typ[0] == "tuple":
            segs = [T.el(T.item(x, T.num(i))) for i in range(len(typ[1]))]
        if all(s.op == "el" for s in segs):
            vals = [s.args[0] for s in segs]
            if not star:
                if len(vals) != n:
                    self.raise_(st, cx, "ValueError")
                    return None
                for t, val in zip(targets, vals):
                    self.assign(t, val, st, cx)
                return None
            k = star[0]
            if len(vals) < n - 1:
                self.raise_(st, cx, "ValueError")
                return None
            tail = n - 1 - k
            for t, val in zip(targets[:k], vals[:k]):
                self.assign(t, val, st, cx)
            mid = vals[k: len(vals) - tail]
            self.assign(targets[k].value, self.new_list(st, [T.el(m) for m in mid]), st, cx)
            for t, val in zip(targets[k + 1:], vals[len(vals) - tail:]):
                self.assign(t, val, st, cx)
            return None
        # unknown length
        lead = 0
        while lead < len(segs) and segs[lead].op == "el":
            lead += 1
        trail = 0
        while trail < len(segs) - lead and segs[len(segs) - 1 - trail].op == "el":
            trail += 1
        whole = T.seq("list", segs)
        if star:
            k = star[0]
            tail = n - 1 - k
            if k <= lead and tail <= trail:
                for t, s in zip(targets[:k], segs[:k]):
                    self.assign(t, s.args[0], st, cx)
                mid = segs[k: len(segs) - tail]
                self.assign(targets[k].value, self.new_list(st, mid), st, cx)
                for t, s in zip(targets[k + 1:], segs[len(segs) - tail:]):
                    self.assign(t, s.args[0], st, cx)
                return None
            if tail == 0:
                for i, t in enumerate(targets[:k]):
                    self.assign(t, self.seq_item(whole, i), st, cx)
                self.assign(targets[k].value, mk("app", "tail", (whole, T.num(k)), ()), st, cx)
                return None
        else:
            for i, t in enumerate(targets):
                self.assign(t, self.seq_item(whole, i), st, cx)
            return None
        raise Unsupported("unpacking of a sequence of unknown length")

    def seq_item(self, s, i):
        if i == 0:
            return T.first(s)
        return T.item(s, T.num(i))

    def st_For(self, n, st, cx):
        it = self.ev(n.iter, st, cx)
        if not st.live:
            return
        try:
            return self.for_loop(n, it, st, cx)
        finally:
            if any(isinstance(x, ast.Break) for b in n.body for x in ast.walk(b)):
                for x in T.leafset(it):
                    if x in self.oneshot and x in st.heap:  # what is left depends on when the loop was left
                        st.heap[x] = ("list", mk("used", st.heap[x][1]))

    def for_loop(self, n, it, st, cx):
        if n.orelse:
            return self.for_else(n, it, st, cx)

        def body(s, elem, c):
            self.assign(n.target, elem, s, c)
            self.block(n.body, s, c)

        self.loop(it, st, cx, body)

    def for_else(self, n, it, st, cx):
        flag = f"<else{n.lineno}>"
        self.bind(flag, TRUE, st, cx)

        has_break = any(isinstance(x, ast.Break) for b in n.body for x in ast.walk(b))

        def body(s, elem, c):
            self.assign(n.target, elem, s, c)
            self.block(n.body, s, c)

        outs = []
        ex = Exits()
        c2 = cx.with_ex(ex)
        # breaks leave with the flag cleared
        self.loop(it, st, c2, body, on_break=lambda s: self.bind(flag, FALSE, s, cx))
        self.absorb(cx.ex, ex)
        if st.live:
            v = self.prune(st, self.lookup(flag, st, cx)) if has_break else TRUE
            self.branch(st, T.truthy(v), lambda s: self.block(n.orelse, s, cx), lambda s: None)

    def absorb(self, dst, src):
        dst.returns += src.returns
        dst.raises += src.raises
        dst.breaks += src.breaks
        dst.continues += src.continues

    def iter_source(self, st, t):
        """The collection that iterating over `t` yields (references resolved)."""
        def go(x):
            if x.op == "ref":
                c = st.heap[x]
                if c[0] in ("list", "dict", "set"):
                    if x in self.oneshot:
                        self.consume(st, x)
                    return c[1]
                raise Unsupported("iteration over an object")
            if x.op == "str":
                return x
            typ = self.typeof(x)
            if typ and typ[0] == "tuple" and x.op != "seq":
                return T.seq("tuple", [T.el(T.item(x, T.num(i))) for i in range(len(typ[1]))])
            return self.models.iter_normal(self, x)

        return lift(go, t)

    def loop(self, it, st, cx, body, on_break=None):
        src = self.iter_source(st, it)

        def over(s, x):
            # split gated sources first
            self.loop_segments(list(T.as_segments(x)), s, cx, body, on_break)
            return None

        self.cases(st, src, over)

    def loop_segments(self, segs, st, cx, body, on_break=None):
        self.stats["loops"] += 1
        broken = []
        for seg in segs:
            if not st.live:
                break
            if seg.op == "el":
                self.run_once(st, cx, body, seg.args[0], broken)
            elif seg.op == "sp":
                self.summarise(seg.args[0], st, cx, body, broken)
            else:
                level, src, b = seg.args

                def inner(s, elem, c, level=level, b=b):
                    bb = T._replace_level(b, level, elem)
                    ex = Exits()

                    def each(s2, leaf):
                        brk = []
                        for g in leaf.args[1]:
                            if not s2.live:
                                break
                            if g.op == "el":
                                self.run_once(s2, c, body, g.args[0], brk)
                            else:
                                self.loop_segments([g], s2, c.with_ex(ex2 := Exits()), body)
                                self.absorb(c.ex, ex2)
                        if brk:
                            c.ex.breaks += brk
                        return None

                    self.cases(s, bb, each)

                self.summarise(src, st, cx, inner, broken, body_kind="nested")
        if broken:
            outs = []
            for pc, s in broken:
                if on_break:
                    on_break(s)
                outs.append(s)
            self.merge(st, outs + [st.fork()])

    def run_once(self, st, cx, body, elem, broken):
        ex = Exits()
        c = cx.with_ex(ex)
        body(st, elem, c)
        cont = [s for _, s in ex.continues]
        if cont:
            self.merge(st, cont + [st.fork()])
        for pc, s in ex.breaks:
            broken.append((pc, s))
        cx.ex.returns += ex.returns
        cx.ex.raises += ex.raises

    # ---- loop summaries
    def diff(self, before, after):
        vs, cs = [], []
        for fid, fr in after.frames.items():
            if fid[0] == "mod":
                continue
            o = before.frames.get(fid)
            if o is None:
                continue
            for k, v in fr.items():
                if o.get(k, UNDEF) is not v:
                    vs.append((fid, k))
        for r, c in after.heap.items():
            if r in before.heap and before.heap[r] != c:
                cs.append(r)
        return vs, cs

    def run_body(self, st, cx, body, v):
        """One abstract iteration from `st` (modified in place); returns its exits."""
        ex = Exits()
        c = cx.with_ex(ex)
        body(st, v, c)
        cont = [s for _, s in ex.continues]
        if cont:
            self.merge(st, cont + [st.fork()])
        return ex

    def summarise(self, src, st, cx, body, broken, body_kind=None):
        v = T.fresh_bv(self.elem_type(src), src)
        self.summarise_with(st, cx, body, broken, v, lambda f: self._seg_flat(src, v, f), src)

    def _seg_flat(self, src, v, f):
        return f

    def summarise_with(self, st, cx, body, broken, v, _unused, src):
        outer_full = self.full(st)

        def fresh_state():
            s = st.fork()
            s.ctx, s.pc = outer_full, TRUE
            s.eff = {}
            return s

        V, C = set(), set()
        for attempt in range(8):
            s = fresh_state()
            ph = {}
            for fid, k in sorted(V, key=str):
                old = st.frames[fid].get(k, UNDEF)
                s.frames[fid][k] = ph[(fid, k)] = self.placeholder(st, s, old)
            for r in sorted(C, key=lambda r: r.key):
                s.heap[r] = ph[r] = self.placeholder_cell(st, st.heap[r])
            before = s.fork()
            mark = len(self.opaque_notes)
            ex = self.run_body(s, cx, body, v)
            pts = [s] if s.live else []
            pts += [x for _, x in ex.breaks] + [x for _, _, x in ex.returns]
            nV, nC = set(V), set(C)
            for p in pts:
                # changes relative to the placeholders
                vs, cs = self.diff(before, p)
                nV |= set(vs)
                nC |= set(cs)
            if nV <= V and nC <= C:
                break
            V, C = nV, nC
            if not attempt and not s.live:
                # every path leaves the loop in its first iteration
                ph = {(fid, k): st.frames[fid].get(k, UNDEF) for fid, k in V}
                ph.update({r: st.heap[r] for r in C})
                break
        else:
            raise Unsupported("loop summary does not converge")
        rhos = set()
        for p in ph.values():
            rhos |= self._rhos(p)
        # exits
        G = FALSE
        exits = []
        for pc, val, x in ex.returns:
            exits.append(("return", pc, val, x))
            G = OR(G, pc)
        for pc, exc, x in ex.raises:
            exits.append(("raise", pc, exc, x))
            G = OR(G, pc)
        for pc, x in ex.breaks:
            exits.append(("break", pc, None, x))
            G = OR(G, pc)
        if G.fv & rhos:
            return self.loop_opaque(st, cx, "loop exit depends on earlier iterations", V, C, exits, src)
        loop_eff = s.eff if s.live else {}
        for p in pts:
            for k, c in p.eff.items():
                loop_eff[k] = OR(loop_eff.get(k, FALSE), c)
        for k, c in loop_eff.items():
            st.eff[k] = OR(st.eff.get(k, FALSE), AND(outer_full, T.mkexists(v, src, c)))
        pre = st.fork()
        # values after complete iteration
        if s.live:
            cond = s.pc  # = NOT(G) here
            jobs = []
            for fid, k in V:
                old = st.frames[fid].get(k, UNDEF)
                new = s.frames[fid].get(k, UNDEF)
                jobs.append((("var", fid, k), old, ph[(fid, k)], new))
            for r in C:
                jobs.append((("cell", r), st.heap[r], ph[r], s.heap[r]))
            self.finish_loop(st, s, v, src, jobs, rhos, G)
        else:
            # no complete iteration: the loop runs at most once
            pass
        if G is FALSE:
            return
        has = T.mkexists(v, src, G)
        w = T._mkfirst(v, src, G)
        classes = {e[2] for e in exits if e[0] == "raise"}
        only_raise = all(e[0] == "raise" for e in exits) and len(classes) == 1
        if only_raise:
            sx = pre.fork()
            sx.pc = AND(pre.pc, has)
            cx.ex.raises.append((sx.pc, exits[0][2], sx))
            exits = []
        for kind, g, val, x in exits:
            gi = T.subst(g, {v: w})
            gG = T.subst(G, {v: w})
            gi = T.assume_true(gi, gG)
            ci = AND(has, gi)
            sx = pre.fork()
            sx.pc = AND(pre.pc, ci)
            if not self.sat(sx):
                continue
            sub = lambda t: T.assume_true(T.subst(t, {v: w}), AND(gG, gi))
            if kind == "raise":
                cx.ex.raises.append((sx.pc, val, sx))
                continue
            # state at the exit: only independent changes are supported
            self.exit_state(pre, sx, x, V, C, ph, rhos, sub)
            if kind == "return":
                fv = self.freeze(x, val)
                if fv.fv & rhos:
                    fv = self.opaque("value of early return depends on earlier iterations")
                cx.ex.returns.append((sx.pc, sub(fv), sx))
            else:
                broken.append((sx.pc, sx))
        st.pc = AND(st.pc, NOT(has))

    def sat(self, st):
        return self.full(st) is not FALSE

    def exit_state(self, pre, sx, x, V, C, ph, rhos, sub):
        for fid, k in V:
            new = x.frames[fid].get(k, UNDEF)
            if new is ph[(fid, k)]:
                # unchanged in the leaving iteration
                continue
            new = self.freeze(x, new)
            if new.fv & rhos:
                new = self.opaque("value at loop exit depends on earlier iterations")
            sx.frames[fid][k] = sub(new) if new is not UNDEF else UNDEF
        for r in C:
            if x.heap[r] == ph[r]:
                continue
            cell = x.heap[r]
            sx.heap[r] = self.map_cell(cell, lambda t: self._exit_val(x, t, rhos, sub))

    def _exit_val(self, x, t, rhos, sub):
        t = self.freeze(x, t)
        if t.fv & rhos:
            return self.opaque("value at loop exit depends on earlier iterations")
        return sub(t)

    def map_cell(self, cell, f):
        if cell[0] == "obj":
            return ("obj", cell[1], {k: f(v) for k, v in cell[2].items()})
        if cell[0] == "dict":
            return ("dict", f(cell[1]), cell[2])
        return (cell[0], f(cell[1]))

    def loop_opaque(self, st, cx, why, V, C, exits, src):
        raise Unsupported(why)

    def _rhos(self, p):
        if isinstance(p, Term):
            return set(p.fv)
        out = set()
        if p[0] == "obj":
            for x in p[2].values():
                out |= set(x.fv)
        else:
            out |= set(p[1].fv)
        return out

    def placeholder(self, st0, s, old):
        """Unknown value with the shape of `old` at the start of an iteration."""
        if old.op == "ref":
            r = mk("ref", next(_IDS))
            s.heap[r] = self.placeholder_cell(st0, st0.heap[old])
            self._virtual[r] = True
            return r
        return self._ph(old)

    _virtual: dict = {}

    def _ph(self, old):
        if old.op == "seq":
            return T.seq(old.args[0], [mk("sp", T.fresh_rho((("list" if old.args[0] == "list" else "tuple*"), self.elem_type(old))))])
        if old.op == "set":
            return T.mkset([mk("sp", T.fresh_rho(("set", self.elem_type(old))))])
        if old.op == "dict":
            return T.mkdict([mk("sp", T.fresh_rho(("dict", self.elem_type(old), self.val_type(old))))])
        if old.op == "rec":
            return T.rec(old.args[0], [(n, self._ph(x)) for n, x in old.args[1]])
        if old is UNDEF:
            return T.fresh_rho(None)
        typ = self.typeof(old)
        if typ and typ[0] in ("none",):
            typ = None
        return T.fresh_rho(typ)

    def placeholder_cell(self, st0, cell):
        if cell[0] == "obj":
            return ("obj", cell[1], {k: (x if x.op in ("ref", "clo", "fn") else self._ph(x)) for k, x in cell[2].items()})
        k = cell[1]
        kk = k
        if k.op == "ite":
            kk = T.leafset(k)[0]
        if cell[0] == "list":
            p = T.seq("list", [mk("sp", T.fresh_rho(("list", self.elem_type(kk))))])
        elif cell[0] == "set":
            p = T.mkset([mk("sp", T.fresh_rho(("set", self.elem_type(kk))))])
        else:
            p = T.mkdict([mk("sp", T.fresh_rho(("dict", self.elem_type(kk), self.val_type(kk))))])
            return ("dict", p, cell[2])
        return (cell[0], p)

    def finish_loop(self, st, s, v, src, jobs, rhos, G):
        pending = []
        for key, old, ph, new in jobs:
            try:
                r = self.close_value(st, s, v, src, old, ph, new, rhos)
            except NeedFold:
                pending.append((key, old, ph, new))
                continue
            self.set_key(st, key, r)
        if pending:
            try:
                self.joint_fold(st, s, v, src, pending, rhos)
            except Unsupported as e:
                # unknown values; they matter only if they are used
                for key, old, ph, new in pending:
                    if key[0] == "var":
                        self.set_key(st, key, self.opaque(str(e)))
                    else:
                        cell = st.heap[key[1]]
                        if cell[0] not in ("list", "set", "dict"):
                            raise
                        x = mk("sp", self.opaque(str(e)))
                        self.set_key(st, key, ("dict", T.mkdict([x]), cell[2]) if cell[0] == "dict" else
                                     (cell[0], T.seq("list", [x]) if cell[0] == "list" else T.mkset([x])))

    def set_key(self, st, key, r):
        if key[0] == "var":
            st.frames[key[1]][key[2]] = r
        else:
            st.heap[key[1]] = r

    def joint_fold(self, st, s, v, src, pending, rhos):
        acc = T.fresh_rho(None)
        n = len(pending)
        mapping = {}
        inits, bodies = [], []
        shapes = []

        def flat(st_, old, ph, new):
            """Component terms (init, placeholder rho term, next) of a value."""
            if isinstance(old, Term) and old.op == "ref":
                r = ph
                return [("cell", flatcell(st.heap[old], s_ph_cell(r), s.heap[new] if new.op == "ref" else None))]
            return None

        comps = []  # (setter index, old term, ph term, new term)
        for key, old, ph, new in pending:
            if key[0] == "var":
                if old.op == "ref" or (isinstance(new, Term) and new.op == "ref"):
                    if old.op != "ref" or new.op != "ref" or ph.op != "ref":
                        # the variable is rebound to a new object: use values
                        comps.append((key, None, self.freeze(st, old) if old is not UNDEF else UNDEF,
                                      self.ph_value(ph), self.freeze(s, new)))
                        continue
                    comps.append((key, None, self.freeze(st, old), self._virtual_value(ph), self.freeze(s, new)))
                else:
                    comps.append((key, None, self.freeze(st, old) if old is not UNDEF else UNDEF, ph, self.freeze(s, new)))
            else:
                if old[0] == "obj":
                    for k in old[2]:
                        if new[2].get(k) is not ph[2].get(k):
                            comps.append((key, k, self.freeze(st, old[2][k]), ph[2][k], self.freeze(s, new[2][k])))
                else:
                    comps.append((key, None, self.freeze(st, old[1]), ph[1], self.freeze(s, new[1])))
        comps.sort(key=lambda c: (c[2].key, c[4].size))
        for i, (key, k, old, ph, new) in enumerate(comps):
            rho = self._rho_of(ph)
            if rho is None:
                raise Unsupported("loop-carried value of unsupported shape")
            mapping[rho] = T.item(acc, T.num(i)) if len(comps) > 1 else acc
        body = T.seq_lift("tuple", [T.subst(c[4], mapping) for c in comps]) if len(comps) > 1 else T.subst(comps[0][4], mapping)
        if (body.fv & rhos) - {acc.args[0]}:
            raise Unsupported("loop-carried dependencies")
        init = T.seq_lift("tuple", [c[2] for c in comps]) if len(comps) > 1 else comps[0][2]
        f = T.mkfold(v, acc, src, init, body)
        for i, (key, k, old, ph, new) in enumerate(comps):
            val = T.item(f, T.num(i)) if len(comps) > 1 else f
            typ = self.typeof(old) if old is not UNDEF else None
            if key[0] == "var":
                st.frames[key[1]][key[2]] = val
            else:
                cell = st.heap[key[1]]
                if cell[0] == "obj":
                    st.heap[key[1]] = ("obj", cell[1], {**cell[2], k: val})
                elif cell[0] == "dict":
                    st.heap[key[1]] = ("dict", T.mkdict([mk("sp", val)]), cell[2])
                elif cell[0] == "list":
                    st.heap[key[1]] = ("list", T.seq("list", [mk("sp", val)]))
                else:
                    st.heap[key[1]] = ("set", T.mkset([mk("sp", val)]))

    def ph_value(self, ph):
        return ph

    def _virtual_value(self, ph):
        raise Unsupported("rebinding of an object in a loop")

    def _rho_of(self, ph):
        if ph.op == "rho":
            return ph
        if ph.op in ("seq",) and len(ph.args[1]) == 1 and ph.args[1][0].op == "sp":
            return ph.args[1][0].args[0]
        if ph.op in ("set", "dict") and len(ph.args[0]) == 1 and ph.args[0][0].op == "sp":
            return ph.args[0][0].args[0]
        return None

    def close_value(self, st, s, v, src, old, ph, new, rhos):
        """Value after the loop from (value before, placeholder, value after one iteration)."""
        if isinstance(old, tuple):  # heap cell
            if old[0] == "obj":
                fs = {}
                for k in {**old[2], **new[2]}:
                    o, p, nn = old[2].get(k, UNDEF), ph[2].get(k, UNDEF), new[2].get(k, UNDEF)
                    fs[k] = o if nn is p else self.close_term(st, s, v, src, o, p, nn, rhos)
                return ("obj", old[1], fs)
            val = self.close_term(st, s, v, src, old[1], ph[1], new[1], rhos)
            return ("dict", val, old[2]) if old[0] == "dict" else (old[0], val)
        if new is ph:
            return old
        if old.op == "ref" and new.op == "ref" and ph.op == "ref":
            # the variable is rebound to an object of the same kind in each iteration
            oc, pc, nc = st.heap[old], s.heap.get(ph), s.heap[new]
            if oc[0] == nc[0] and (oc[0] != "obj" or oc[1] == nc[1]) and pc is not None:
                pc = self._orig_ph.get(ph, pc)
                return self.alloc(st, self.close_value(st, s, v, src, oc, pc, nc, rhos))
        return self.close_term(st, s, v, src, old, ph, new, rhos)

    _orig_ph: dict = {}

    def close_term(self, st, s, v, src, old, ph, new, rhos):
        if new is ph:
            return old
        new = self.freeze(s, new) if new is not UNDEF else new
        if new is ph:
            return old
        if ph.op == "rec" and new.op == "rec" and old.op == "rec" and new.args[0] == ph.args[0]:
            return T.rec(old.args[0], [(n, self.close_term(st, s, v, src, T.rec_field(old, n), T.rec_field(ph, n), x, rhos))
                                       for n, x in new.args[1]])
        if not (new.fv & rhos):
            # overwritten in every iteration
            if v.args[0] not in new.fv:
                has = T.mkexists(v, src, TRUE)
                return ite(has, new, old) if old is not UNDEF else new
            w = T.mklast(v, src, TRUE)
            has = T.mkexists(v, src, TRUE)
            r = T.subst(new, {v: w})
            return ite(has, r, old) if old is not UNDEF else r
        rho = self._rho_of(ph)
        if rho is None:
            raise NeedFold
        own = {rho.args[0]}
        if ph.op == "set":
            new = T.unguarded_additions(new, ph)
        if (new.fv & rhos) - own:
            raise NeedFold
        # conditional overwrite: leaf is either the old value or a value independent of it
        if ph.op == "rho":
            r = self.close_scalar(v, src, old, ph, new, own)
            if r is not None:
                return r
            raise NeedFold
        if ph.op == "seq":
            def tail(leaf):
                if leaf.op == "seq" and leaf.args[1] and leaf.args[1][0] is ph.args[1][0]:
                    rest = leaf.args[1][1:]
                    r = T.seq("list", rest)
                    if not (r.fv & own):
                        return ("post", r)
                if leaf.op == "seq" and leaf.args[1] and leaf.args[1][-1] is ph.args[1][0]:
                    r = T.seq("list", leaf.args[1][:-1])
                    if not (r.fv & own):
                        return ("pre", r)
                raise NeedFold

            kinds = {tail(x)[0] for x in T.leafset(new) if tail(x)[1].args[1]}
            if kinds == {"pre"}:
                raise NeedFold
            rest = lift(lambda x: tail(x)[1], new)
            if rest.fv & own:
                raise NeedFold
            kind = ph.args[0]
            return lift(lambda o, r: T.seq(kind, o.args[1] + r.args[1] if o.op == "seq" else (mk("sp", o),) + r.args[1]),
                        old, T.mkfor(v, src, rest))
        if ph.op == "set":
            def extra(leaf):
                if leaf.op == "set" and ph.args[0][0] in leaf.args[0]:
                    segs = [x for x in leaf.args[0] if x is not ph.args[0][0]]
                    r = T.seq("list", segs)
                    if not (r.fv & own):
                        return r
                raise NeedFold

            rest = lift(extra, new)
            if rest.fv & own:
                raise NeedFold
            return lift(lambda o, r: T.mkset((o.args[0] if o.op == "set" else (mk("sp", o),)) + r.args[1]),
                        old, T.mkfor(v, src, rest))
        if ph.op == "dict":
            def extra(leaf):
                if leaf.op == "dict" and leaf.args[0] and leaf.args[0][0] is ph.args[0][0]:
                    r = mk("dict", leaf.args[0][1:])
                    if not (r.fv & own):
                        return r
                raise NeedFold

            rest = lift(extra, new)
            if rest.fv & own:
                raise NeedFold
            return T.dict_update(old, T.mkdfor(v, src, rest))
        raise NeedFold

    def close_scalar(self, v, src, old, ph, new, own):
        typ = self.typeof(ph)
        ls = T.leafset(new)
        # a) conditional overwrite
        if all(x is ph or not (x.fv & own) for x in ls) and not any(a.fv & own for a in T.atoms_of(new)):
            g = T.condition_of_leaf(new, lambda x: x is not ph)
            vals = lift(lambda x: UNDEF if x is ph else x, new)
            val = T.drop_undef(vals)
            has = T.mkexists(v, src, g)
            if v.args[0] not in val.fv:
                r = val
            else:
                w = T.mklast(v, src, g)
                r = T.assume_true(T.subst(val, {v: w}), T.subst(g, {v: w}))
            return ite(has, r, old) if old is not UNDEF else r
        if new.op == "bool" or all(x.op == "bool" for x in ls):
            # boolean accumulator: atoms over the placeholder's truth value
            at = mk("truthy", ph)
            if any((a.fv & own) and a is not at for a in T.atoms_of(new)):
                return None
            hi, lo = T.restrict(new, at, True), T.restrict(new, at, False)
            o = T.truthy(old)
            # next = old or c
            if hi is TRUE:
                return OR(o, T.mkexists(v, src, lo))
            if lo is FALSE:
                return AND(o, NOT(T.mkexists(v, src, NOT(hi))))
            return None
        if any(a.fv & own for a in T.atoms_of(new)):
            return None
        if typ and typ[0] == "str" or all(x.op in ("str", "cstr") or x is ph for x in ls) and any(x.op == "str" for x in ls):
            def tail(x):
                if x is ph:
                    return T.string("")
                if x.op == "str" and x.args[0] is ph or (x.op == "str" and x.args[0].op == "fmt" and x.args[0].args[0] is ph):
                    r = T.strcat(*x.args[1:])
                    if not (r.fv & own):
                        return r
                raise NeedFold

            rest = lift(tail, new)
            return T.strcat(old, T.strjoin(T.string(""), T.mkfor(v, src, lift(lambda r: T.seq("list", [] if r is T.string("") else [T.el(r)]), rest))))
        # sums and products
        try:
            d = lift(lambda x: T._add2(x, T._mul2(T.MINUS_ONE, ph)) if x.op in ("poly", "num") or x is ph else None_(), new)
            if not (d.fv & own):
                return T.add(old, T.big("SUM", T.mkfor(v, src, lift(lambda x: T.seq("list", [] if x is ZERO else [T.el(x)]), d))))
            q = lift(lambda x: T._mul2(x, T._pow2(ph, T.MINUS_ONE)), new)
            if not (q.fv & own):
                return T.mul(old, T.big("PROD", T.mkfor(v, src, lift(lambda x: T.seq("list", [] if x is ONE else [T.el(x)]), q))))
        except NeedFold:
            pass
        return None

    def st_While(self, n, st, cx):
        from .loops import run_while

        run_while(self, n, st, cx)

    def st_Break(self, n, st, cx):
        cx.ex.breaks.append((st.pc, st.fork()))
        st.pc = FALSE

    def st_Continue(self, n, st, cx):
        cx.ex.continues.append((st.pc, st.fork()))
        st.pc = FALSE

    def st_With(self, n, st, cx):
        for it in n.items:
            t = self.ev(it.context_expr, st, cx)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("app", "enter", (self.freeze(st, t),), ()), st, cx)
        self.block(n.body, st, cx)

    def st_Try(self, n, st, cx):
        ex = Exits()
        c = cx.with_ex(ex)
        c.in_try = True
        self.block(n.body, st, c)
        if st.live:
            self.block(n.orelse, st, cx)
        outs = []
        rest = []
        for pc, exc, s in ex.raises:
            h = self.find_handler(n.handlers, exc, st, cx)
            if h is None:
                rest.append((pc, exc, s))
                continue
            c3 = cx.with_ex(cx.ex)
            c3.handling = exc
            if h.name:
                self.bind(h.name, mk("app", "exc:" + exc, (), ()), s, cx)
            self.block(h.body, s, c3)
            outs.append(s)
        cx.ex.returns += ex.returns
        cx.ex.breaks += ex.breaks
        cx.ex.continues += ex.continues
        cx.ex.raises += rest
        self.merge(st, outs + [st.fork()])
        if n.finalbody and st.live:
            self.block(n.finalbody, st, cx)

    EXC_BASES = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
                 "TypeError": "Exception", "StopIteration": "Exception", "NotImplementedError": "RuntimeError",
                 "RuntimeError": "Exception", "AttributeError": "Exception", "Exception": "BaseException",
                 "AssertionError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
                 "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception"}

    def find_handler(self, handlers, exc, st, cx):
        chain = [exc]
        while chain[-1] in self.EXC_BASES:
            chain.append(self.EXC_BASES[chain[-1]])
        for h in handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, st.fork() if st.live else self._revive(st), cx)
            names = [x.args[0].split(".")[-1] if x.op == "ext" else x.args[0]
                     for x in ([s.args[0] for s in t.args[1]] if t.op == "seq" else [t])]
            if any(c in names for c in chain):
                return h
        return None

    def _revive(self, st):
        s = st.fork()
        s.pc = TRUE
        return s

    def st_Match(self, n, st, cx):
        subj = self.ev(n.subject, st, cx)

        def rec(s, i):
            if i == len(n.cases):
                return None
            case = n.cases[i]
            cond, binds = self.pattern(case.pattern, subj, s, cx)

            def then(s2):
                for k, val in binds:
                    self.bind(k, val, s2, cx)
                if case.guard is not None:
                    g = self.truth(case.guard, s2, cx)
                    return self.branch(s2, g, lambda s3: self.block(case.body, s3, cx), lambda s3: rec(s3, i + 1))
                return self.block(case.body, s2, cx)

            return self.branch(s, cond, then, lambda s2: rec(s2, i + 1))

        rec(st, 0)

    def pattern(self, p, t, st, cx):
        if isinstance(p, ast.MatchValue):
            return T.eq(self.freeze(st, t), self.ev(p.value, st, cx)), []
        if isinstance(p, ast.MatchSingleton):
            return (T.is_none(t) if p.value is None else T.eq(t, T.const(p.value))), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, t)] if p.name else [])
            c, b = self.pattern(p.pattern, t, st, cx)
            return c, b + ([(p.name, t)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            c, b = FALSE, {}
            for q in p.patterns:
                c1, b1 = self.pattern(q, t, st, cx)
                for k, v in b1:
                    b[k] = ite(c, b[k], v) if k in b else v
                c = OR(c, c1)
            return c, list(b.items())
        if t.op == "ite":
            c1, b1 = self.pattern(p, t.args[1], st, cx)
            c2, b2 = self.pattern(p, t.args[2], st, cx)
            b1, b2 = dict(b1), dict(b2)
            a = T.atom(t.args[0])
            return (OR(AND(a, c1), AND(NOT(a), c2)),
                    [(k, ite(a, b1[k], b2[k]) if k in b1 and k in b2 else b1.get(k, b2.get(k))) for k in {**b1, **b2}])
        if isinstance(p, ast.MatchSequence):
            v = self.content(st, t)
            if v.op == "ite":
                return self.pattern(p, v, st, cx)
            if t.op == "ref" and (st.heap[t][0] not in ("list", "deque") or t in self.oneshot) or v.op in ("cstr", "str", "dict", "set", "num", "poly", "lam", "fn", "clo") or v is NONE:
                return FALSE, []
            es = T.seq_elements(v) if v.op == "seq" else None
            if es is None:
                typ = self.typeof(v)
                if typ and typ[0] == "tuple":
                    es = [T.item(v, T.num(i)) for i in range(len(typ[1]))]
                elif typ and typ[0] in ("str", "int", "float", "bool", "none", "dict", "set"):
                    return FALSE, []
                elif typ and self.type_is(typ, mk("ext", "collections.abc.Sequence")) is False:
                    return FALSE, []
            if es is None:
                raise Unsupported("sequence pattern on unknown value")
            ps = list(p.patterns)
            stars = [i for i, q in enumerate(ps) if isinstance(q, ast.MatchStar)]
            c, b = TRUE, []
            if stars:
                i, n = stars[0], len(ps) - 1
                if len(es) < n:
                    return FALSE, []
                rest = es[i:len(es) - (n - i)]
                if ps[i].name:
                    b.append((ps[i].name, self.new_list(st, T.seq("list", [T.el(x) for x in rest]))))
                es = es[:i] + es[len(es) - (n - i):]
                del ps[i]
            if len(es) != len(ps):
                return FALSE, []
            for q, e in zip(ps, es):
                c1, b1 = self.pattern(q, e, st, cx)
                c, b = AND(c, c1), b + b1
            return c, b
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, st, cx)
            c = self.models.isinstance_term(self, st, t, cls)
            b = []
            names = list(p.kwd_attrs)
            ps = list(p.kwd_patterns)
            if p.patterns:
                if cls.op == "ext" and cls.args[0].split(".")[-1] in ("int", "str", "float", "bool", "tuple", "list", "dict", "set"):
                    c1, b1 = self.pattern(p.patterns[0], t, st, cx)
                    c, b = AND(c, c1), b + b1
                elif cls.op == "cls" and cls.args[0] in self.cls and len(self.all_fields(cls.args[0])) >= len(p.patterns):
                    names = [f.name for f in self.all_fields(cls.args[0])][:len(p.patterns)] + names
                    ps = list(p.patterns) + ps
                else:
                    raise Unsupported("positional class pattern")
            if c is FALSE:
                return FALSE, []
            for k, q in zip(names, ps):
                c1, b1 = self.pattern(q, self.getattr(st, cx, t, k), st, cx)
                c, b = AND(c, c1), b + b1
            return c, b
        raise Unsupported(f"pattern {type(p).__name__}")

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, cx) -> Term:
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        t = m(n, st, cx)
        if t.op in ("app", "poly", "mcall", "str", "rec", "dict", "ite", "raise") and not self.reading_spec and cx.ex is not None:
            if t not in self.loc and not cx.is_spec:
                self.loc[t] = (cx.module, cx.qual, getattr(n, "lineno", 0))
        return t

    def truth(self, n, st, cx):
        t = self.ev(n, st, cx)
        return self.truth_of(st, cx, t)

    def truth_of(self, st, cx, t):
        if not st.live:
            return FALSE
        if t.op == "ite" or t.op == "ref":
            t = lift(lambda x: x if x.op != "ref" else self._truth_ref(st, x), t)
        return T.truthy(t)

    def _truth_ref(self, st, x):
        c = st.heap[x]
        if c[0] in ("list", "dict", "set") and x not in self.oneshot:
            return T.nonempty(c[1])
        return TRUE

    def ex_Constant(self, n, st, cx):
        return T.const(n.value)

    def lookup(self, name, st, cx):
        if name in cx.globals:
            fr = st.frames.get(("glob", cx.module)) or st.frames[("mod", cx.module)]
            if name in fr:
                return fr[name]
        for f in cx.frames:
            fr = st.frames.get(f)
            if f[0] == "mod" and name in st.frames.get(("glob", f[1]), ()):
                fr = st.frames[("glob", f[1])]
            if fr is not None and name in fr:
                t = fr[name]
                if t.op == "imp":
                    t = self.resolve_import(t)
                return t
        if name in BUILTIN_NAMES:
            return mk("ext", "builtins." + name)
        if name == "__file__":
            return self.file_of(cx.module)
        if name in ("__name__", "__doc__"):
            return T.sym(f"{cx.module}.{name}", ("str",))
        raise Unsupported(f"unresolved name {name} in {cx.qual}")

    def ex_Name(self, n, st, cx):
        return self.lookup(mangle(cx.cls, n.id) if n.id.startswith("__") and self._has_mangled(n.id, st, cx) else n.id, st, cx)

    def _has_mangled(self, name, st, cx):
        m = mangle(cx.cls, name)
        return any(m in st.frames.get(f, {}) for f in cx.frames)

    def ex_Tuple(self, n, st, cx):
        return self.display("tuple", n.elts, st, cx)

    def ex_List(self, n, st, cx):
        return self.new_list(st, self.display("list", n.elts, st, cx))

    def ex_Set(self, n, st, cx):
        s = self.display("list", n.elts, st, cx)
        return self.new_set(st, self.to_set(st, s))

    def to_set(self, st, s):
        s = self.freeze(st, s)
        return lift(lambda x: T.mkset(x.args[1]) if x.op == "seq" else (x if x.op == "set" else T.mkset(T.as_segments(x))), s)

    def display(self, kind, elts, st, cx):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                t = self.ev(e.value, st, cx)
                src = self.iter_source(st, t)
                parts.append(lift(lambda x: T.seq("list", T.as_segments(x)), src))
            else:
                t = self.ev(e, st, cx)
                parts.append(lift(lambda x: T.seq("list", [T.el(x)]), t) if kind != "tuple" or True else t)
        if not st.live:
            return UNDEF
        if len([p for p in parts if p.op == "ite"]) > 3 and all(p.op == "ite" or True for p in parts):
            pass
        return T.concat(kind, *parts)

    def ex_Dict(self, n, st, cx):
        d = T.mkdict([])
        for k, v in zip(n.keys, n.values):
            if k is None:
                e = self.ev(v, st, cx)
                e = self.content(st, e)
                d = T.dict_update(d, e)
            else:
                kt = self.freeze(st, self.ev(k, st, cx))
                vt = self.ev(v, st, cx)
                d = T.dict_store(d, kt, vt)
        return self.new_dict(st, d)

    def ex_JoinedStr(self, n, st, cx):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(T.string(v.value))
            else:
                parts.append(self.ex_FormattedValue(v, st, cx))
        return T.strcat(*parts) if st.live else UNDEF

    def ex_FormattedValue(self, v, st, cx):
        t = self.freeze(st, self.ev(v.value, st, cx))
        conv = {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]
        spec = ""
        if v.format_spec is not None:
            f = self.ex_JoinedStr(v.format_spec, st, cx)
            if f.op != "cstr":
                return mk("str", mk("fmt", t, conv, f))
            spec = f.args[0]
        return T.fmt(t, conv, spec)

    def ex_Lambda(self, n, st, cx):
        return self.make_function(n, st, cx)

    def ex_IfExp(self, n, st, cx):
        c = self.truth(n.test, st, cx)
        if not st.live:
            return UNDEF
        return self.branch(st, c, lambda s: self.ev(n.body, s, cx), lambda s: self.ev(n.orelse, s, cx))

    def ex_BoolOp(self, n, st, cx):
        is_and = isinstance(n.op, ast.And)

        def rec(s, i):
            t = self.ev(n.values[i], s, cx)
            if i == len(n.values) - 1 or not s.live:
                return t
            c = self.truth_of(s, cx, t)
            if T.is_bool_diagram(t):
                c = t
            if is_and:
                return self.branch(s, c, lambda x: rec(x, i + 1), lambda x: t if not T.is_bool_diagram(t) else FALSE)
            return self.branch(s, c, lambda x: t if not T.is_bool_diagram(t) else TRUE, lambda x: rec(x, i + 1))

        return rec(st, 0)

    def ex_UnaryOp(self, n, st, cx):
        if isinstance(n.op, ast.Not):
            return NOT(self.truth(n.operand, st, cx)) if st.live else UNDEF
        t = self.freeze(st, self.ev(n.operand, st, cx))
        if not st.live:
            return UNDEF
        if isinstance(n.op, ast.USub):
            return T.neg(t)
        if isinstance(n.op, ast.UAdd):
            return t
        return T.app("invert", (t,))

    def ex_BinOp(self, n, st, cx):
        a = self.ev(n.left, st, cx)
        b = self.ev(n.right, st, cx)
        if not st.live:
            return UNDEF
        return self.binop(st, cx, type(n.op).__name__, a, b)

    DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "Pow": "__pow__",
              "BitOr": "__or__", "BitAnd": "__and__", "Mod": "__mod__", "FloorDiv": "__floordiv__", "BitXor": "__xor__",
              "MatMult": "__matmul__"}

    def binop(self, st, cx, op, a, b, inplace=False):
        if op == "Add" and st.live and (a.op == "ite" or b.op == "ite") and all(
                x is not UNDEF and (T.is_str(x) or self.typeof(x) == ("str",)) for t in (a, b) for x in T.leafset(t)):
            return T.strcat(a, b)
        return self.cases(st, a, lambda s, x: self.cases(s, b, lambda s2, y: self._binop(s2, cx, op, x, y, inplace)))

    def kind(self, st, x):
        if x in self.oneshot:
            return "iter"
        if x.op == "ref":
            return st.heap[x][0]
        if x.op == "seq":
            return x.args[0]
        if x.op in ("set", "dict"):
            return x.op
        if T.is_str(x):
            return "str"
        if x.op in ("rec",):
            return "rec"
        typ = self.typeof(x)
        if typ is None:
            return None
        if typ[0] in ("tuple", "tuple*"):
            return "tuple"
        if typ[0] == "iter":
            return None
        if typ[0] == "cls" and self.cls.get(typ[1]) and self.cls[typ[1]].kind != "typeddict":
            return "rec"
        return typ[0]

    def obj_class(self, st, x):
        if x.op == "ref" and st.heap[x][0] == "obj":
            return st.heap[x][1]
        if x.op == "rec":
            return x.args[0]
        typ = self.typeof(x)
        if typ is not None and typ[0] == "cls":
            return typ[1]
        return None

    def _binop(self, st, cx, op, a, b, inplace):
        if a is UNDEF or b is UNDEF or not st.live:
            return UNDEF
        d = self.DUNDER.get(op)
        ca, cb = self.obj_class(st, a), self.obj_class(st, b)
        if ca is not None and d:
            if inplace:
                m = self.find_method(ca, "__i" + d[2:])
                if m:
                    return self.call(st, cx, m[0], [a, b], {})
            m = self.find_method(ca, d)
            if m:
                return self.call(st, cx, m[0], [a, b], {})
        if cb is not None and d:
            m = self.find_method(cb, "__r" + d[2:])
            if m:
                return self.call(st, cx, m[0], [b, a], {})
        ka, kb = self.kind(st, a), self.kind(st, b)
        if op == "Add" and ("list" in (ka, kb) or "tuple" in (ka, kb)) and not {ka, kb} & {"int", "num", "str"}:
            if inplace and a.op == "ref":
                sb = self.iter_source(st, b)
                c = st.heap[a]
                st.heap[a] = ("list", T.concat("list", c[1], lift(lambda x: T.seq("list", T.as_segments(x)), sb)))
                return a
            kind = "tuple" if ka == "tuple" else "list"
            r = T.concat(kind, self.content(st, a), self.content(st, b))
            return self.new_list(st, r) if kind == "list" else r
        if op == "Mult" and (ka in ("list", "tuple") and kb in ("int",) or kb in ("list", "tuple") and ka == "int"):
            s, k = (a, b) if ka in ("list", "tuple") else (b, a)
            if T.is_int(k):
                c = self.content(st, s)
                r = T.concat(c.args[0], *[c] * T.int_of(k))
                return self.new_list(st, r) if c.args[0] == "list" else r
        if op == "Mult" and "str" in (ka, kb):
            s, k = (a, b) if ka == "str" else (b, a)
            if T.is_int(k) and s.op == "cstr":
                return T.string(s.args[0] * T.int_of(k))
            return T.app("strrep", (s, k))
        if op == "Add" and "str" in (ka, kb):
            return T.strcat(T.fmt(a), T.fmt(b))
        if op == "Mod" and ka == "str":
            r = self.models.percent(self, st, a, b)
            return T.app("strmod", (a, self.freeze(st, b))) if r is None else r
        if "set" in (ka, kb) and op in ("Sub", "BitOr", "BitAnd", "BitXor"):
            r = self.models.set_op(self, op, self.content(st, a), self.content(st, b))
            if inplace and a.op == "ref":
                st.heap[a] = ("set", r)
                return a
            return self.new_set(st, r)
        if "dict" in (ka, kb) and op == "BitOr":
            r = T.dict_update(self.content(st, a), self.content(st, b))
            if inplace and a.op == "ref":
                st.heap[a] = ("dict", r, st.heap[a][2])
                return a
            return self.new_dict(st, r)
        a, b = self.freeze(st, a), self.freeze(st, b)
        if op == "Div" and a.op == "app" and a.args[0] == "pathlib.Path":
            p = self.models.path_parts(self, st, [a, b])
            return T.app("/", (a, b)) if p is None else T.app("pathlib.Path", (T.string(p),))
        if op == "Add":
            return T.add(a, b)
        if op == "Sub":
            if a.op in ("mcall", "app") and self.models.is_keys(a) or b.op in ("mcall", "app") and self.models.is_keys(b):
                return self.new_set(st, self.models.set_op(self, op, a, b))
            return T.sub(a, b)
        if op == "Mult":
            return T.mul(a, b)
        if op == "Div":
            return T.div(a, b)
        if op == "Pow":
            return T.power(a, b)
        if op in ("BitOr", "BitAnd") and T.is_bool_diagram(a) and T.is_bool_diagram(b):
            return OR(a, b) if op == "BitOr" else AND(a, b)
        if op == "BitOr" and (a.op in ("cls", "ext", "none") or b.op in ("cls", "ext", "none")):
            return mk("app", "typeunion", (a, b), ())
        return T.app(op.lower(), (a, b))

    def ex_Compare(self, n, st, cx):
        left = self.ev(n.left, st, cx)
        r = TRUE
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st, cx)
            if not st.live:
                return UNDEF
            r = AND(r, self.compare(st, cx, type(op).__name__, left, right))
            left = right
        return r

    def compare(self, st, cx, op, a, b):
        if op in ("Is", "IsNot"):
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                x = lift(lambda y: FALSE if y.op in ("ref",) else T.is_none(y), x)
                return x if op == "Is" else NOT(x)
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            r = T.eq(fa, fb)
            return r if op == "Is" else NOT(r)
        if op in ("In", "NotIn"):
            for x in T.leafset(b):
                if x in self.oneshot:
                    it_b = self.content(st, x)
                    self.consume(st, x, None)
                    b = it_b if x is b else b
            b = self.content(st, b)
            b = lift(lambda x: self.models.iter_normal(self, x) if x.op not in ("seq", "set", "dict") else x, b)
            r = T.contains(self.freeze(st, a), lift(lambda x: self.known_set(st, x), self.freeze(st, b)))
            return r if op == "In" else NOT(r)
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if op in ("Eq", "NotEq"):
            r = self.equal(st, cx, fa, fb)
            return r if op == "Eq" else NOT(r)

        def go(x, y):
            ka, kb = self.kind(st, x), self.kind(st, y)
            if "set" in (ka, kb):
                sub_ = lambda p, q: NOT(T.exists(p, lambda e: NOT(T.contains(e, q))))
                le = sub_(x, y) if op in ("LtE", "Lt") else sub_(y, x)
                if op in ("LtE", "GtE"):
                    return le
                return AND(le, NOT(T.eq(x, y)))
            if ka == "rec" or kb == "rec" or ka == "str" or kb == "str":
                if op == "Lt":
                    return atom(mk("olt", x, y))
                if op == "Gt":
                    return atom(mk("olt", y, x))
                if op == "LtE":
                    return NOT(atom(mk("olt", y, x)))
                return NOT(atom(mk("olt", x, y)))
            if op == "Lt":
                return T.lt(x, y)
            if op == "Gt":
                return T.lt(y, x)
            if op == "LtE":
                return T.le(x, y)
            return T.le(y, x)

        return lift(go, fa, fb)

    def equal(self, st, cx, a, b):
        def go(x, y):
            for p, q in ((x, y), (y, x)):
                c = self.obj_class(st, p)
                if c is not None and p.op != "ref":
                    m = self.find_method(c, "__eq__")
                    if m is not None:
                        return T.truthy(self.call(st, cx, m[0], [p, q], {}))
            return self.models.equal(self, x, y)

        return lift(go, a, b)

    def ex_Attribute(self, n, st, cx):
        o = self.ev(n.value, st, cx)
        if not st.live:
            return UNDEF
        return self.getattr(st, cx, o, mangle(cx.cls, n.attr))

    def getattr(self, st, cx, o, name):
        return self.cases(st, o, lambda s, x: self._getattr(s, cx, x, name))

    def _getattr(self, st, cx, o, name):
        if o is UNDEF or not st.live:
            return UNDEF
        op = o.op
        if op == "mod":
            r = self.lookup_module_attr(o.args[0], name)
            if r is None:
                raise Unsupported(f"{o.args[0]} has no attribute {name}")
            return r
        if op == "ext":
            if name in st.frames.get(("ext", o.args[0]), ()):
                return st.frames[("ext", o.args[0])][name]
            return self.models.ext_attr(self, o, name)
        if op == "cls":
            return self.class_attr(o, name)
        if op == "ref":
            c = st.heap[o]
            if c[0] == "obj":
                if name in c[2]:
                    return c[2][name]
                return self.instance_attr(st, cx, o, c[1], name)
            return mk("bmeth", o, name)
        if op in ("fn", "clo", "lam"):
            if name in ("register", "dispatch", "cache_clear", "__wrapped__"):
                return mk("bmeth", o, name)
            if name in ("__name__", "__qualname__"):
                return T.string(self.fn[o.args[0]].name if op == "fn" else "closure")
            raise Unsupported(f"function attribute {name}")
        if op == "rec":
            v = T.rec_field(o, name)
            if v is not None:
                return v
        arity = self.arity(o)
        if arity is not None:
            from . import classes

            v = classes.tuple_member(self, st, cx, o, name, arity)
            if v is not None:
                return v
        if op == "super":
            m = None
            for c in self.mro(o.args[0])[1:]:
                if c in self.cls and name in self.cls[c].methods:
                    m = self.cls[c].methods[name]
                    break
            if m is None:
                return mk("ext", "builtins.object." + name)
            return mk("bound", o.args[1], m[0])
        cls = self.obj_class(st, o)
        if cls is not None and cls in self.cls:
            if self.cls[cls].kind == "typeddict":
                return mk("bmeth", o, name)
            return self.instance_attr(st, cx, o, cls, name)
        if op == "num" and not o.args[1] and name in self.NUM_ATTRS:
            r = self.NUM_ATTRS[name](o.args[0])
            return T.boolean(r) if isinstance(r, bool) else T.num(r)
        if op == "app":
            r = self.models.app_attr(self, o, name)
            if r is not None:
                return r
        if name == "__class__":
            return self.models.type_of(self, st, o)
        return self.attr_term(o, name)

    NUM_ATTRS = {
        "numerator": lambda q: q.numerator, "denominator": lambda q: q.denominator, "p": lambda q: q.numerator,
        "q": lambda q: q.denominator, "real": lambda q: q, "imag": lambda q: 0,
        "is_integer": lambda q: q.denominator == 1, "is_Integer": lambda q: q.denominator == 1,
        "is_zero": lambda q: q == 0, "is_positive": lambda q: q > 0, "is_negative": lambda q: q < 0,
        "is_nonnegative": lambda q: q >= 0, "is_nonpositive": lambda q: q <= 0, "is_nonzero": lambda q: q != 0,
        "is_even": lambda q: q.denominator == 1 and q.numerator % 2 == 0,
        "is_odd": lambda q: q.denominator == 1 and q.numerator % 2 == 1,
    }

    def arity(self, o):
        """Number of elements of a tuple"""
        if o.op == "seq":
            return len(T.seq_elements(o)) if o.args[0] == "tuple" and T.seq_elements(o) is not None else None
        typ = self.typeof(o) if o.op not in ("set", "dict", "num", "poly", "cstr", "str") else None
        return len(typ[1]) if typ and typ[0] == "tuple" and typ[1] is not None else None

    def instance_attr(self, st, cx, o, cls, name):
        m = self.find_method(cls, name)
        if m is not None:
            fn, kind = m
            if kind == "property":
                return self.call(st, cx, fn, [o], {})
            if kind == "static":
                return fn
            if kind == "class":
                return mk("bound", mk("cls", cls), fn)
            return mk("bound", o, fn)
        f = self.find_field(cls, name)
        if f is not None:
            if o.op == "ref":
                return st.heap[o][2].get(name, UNDEF)
            return self.attr_term(o, name)
        a = self.find_class_attr(cls, name)
        if a is not None:
            return a
        if name == "__class__":
            return mk("cls", cls)
        ci = self.cls[cls]
        if name == "args" and any(self.cls[c].kind == "unevaluated" for c in self.mro(cls) if c in self.cls):
            fs = [f for f in self.all_fields(cls) if f.sympify]
            return T.seq_lift("tuple", [self._getattr(st, cx, o, f.name) for f in fs])
        if any(b not in self.cls for b in self.mro(cls)):
            return mk("bmeth", o, name) if o.op == "ref" else self.attr_term(o, name)
        if name in self.private_like(cls, name):
            return self.attr_term(o, name)
        self.raise_(st, cx, "AttributeError")
        return UNDEF

    def private_like(self, cls, name):
        return ()

    def class_attr(self, o, name):
        q = o.args[0]
        if name in ("__name__", "__qualname__"):
            return T.string(q.split(".")[-1])
        m = self.find_method(q, name)
        if m is not None:
            if m[1] == "class":
                return mk("bound", o, m[0])
            return m[0]
        a = self.find_class_attr(q, name)
        if a is not None:
            return a
        for b in self.mro(q):
            if b not in self.cls:
                return self.models.ext_attr(self, mk("ext", b), name)
        raise Unsupported(f"class attribute {q}.{name}")

    def ev_index(self, s, st, cx):
        if isinstance(s, ast.Slice):
            return self.slice_term(s, st, cx)
        if isinstance(s, ast.Tuple):
            parts = []
            for e in s.elts:
                parts.append(self.slice_term(e, st, cx) if isinstance(e, ast.Slice) else None)
            if any(p is not None for p in parts):
                raise Unsupported("slices in a tuple index")
        return self.ev(s, st, cx)

    def slice_term(self, s, st, cx):
        xs = [NONE if x is None else self.ev(x, st, cx) for x in (s.lower, s.upper, s.step)]
        return lift(lambda *ys: T.seq("slice", [T.el(y) for y in ys]), *xs)

    def ex_Subscript(self, n, st, cx):
        o = self.ev(n.value, st, cx)
        if o.op in ("cls", "ext", "tyalias") and not (o.op == "ext" and o.args[0].startswith("sympy")):
            return o
        i = self.ev_index(n.slice, st, cx)
        if not st.live:
            return UNDEF
        return self.getitem(st, cx, o, i)

    def getitem(self, st, cx, o, i):
        i = self.freeze(st, i)
        return self.cases(st, o, lambda s, x: self._getitem(s, cx, x, i))

    def _getitem(self, st, cx, o, i):
        if o is UNDEF:
            return UNDEF
        if o in self.oneshot:
            raise Unsupported("subscript of an iterator")
        if o.op == "ref":
            c = st.heap[o]
            if c[0] == "dict" and c[2] is not None:
                return self.default_get(st, cx, o, c, i)
            if c[0] == "obj":
                m = self.find_method(c[1], "__getitem__")
                if m:
                    return self.call(st, cx, m[0], [o, i], {})
                raise Unsupported("subscript of an object")
            r = self.item_of(st, cx, c[1], i)
            if i.op == "seq" and i.args[0] == "slice" and c[0] == "list":
                return lift(lambda x: self.new_list(st, x) if x.op == "seq" else x, r)
            return r
        cls = self.obj_class(st, o)
        if cls is not None and cls in self.cls and self.cls[cls].kind != "typeddict":
            m = self.find_method(cls, "__getitem__")
            if m:
                return self.call(st, cx, m[0], [o, i], {})
        return self.item_of(st, cx, o, i)

    def item_of(self, st, cx, c, i):
        """Item with KeyError/IndexError where the collection is known not to have it."""
        c = self.prune(st, c)
        i = self.prune(st, i)
        r = T.item(c, i) if c.op != "ite" or True else None
        r = self.prune(st, r)
        ls = T.leafset(r)
        if any(x is UNDEF for x in ls):
            miss = T.condition_of_leaf(r, lambda x: x is UNDEF)
            is_dict = any(x.op == "dict" for x in T.leafset(c))
            self.raise_(st, cx, "KeyError" if is_dict else "IndexError", miss)
            r = T.drop_undef(r)
        elif getattr(cx, "in_try", False) or cx.strict_keys:
            for x in T.leafset(c):
                if x.op == "dict" or (self.typeof(x) or ("",))[0] == "dict":
                    miss = NOT(T.contains(i, x))
                    if c.op == "ite":
                        miss = AND(T.condition_of_leaf(c, lambda y: y is x), miss)
                    self.raise_(st, cx, "KeyError", miss)
        return r

    def default_get(self, st, cx, o, c, i):
        d, factory = c[1], c[2]
        cur = T.dict_get(d, i, UNDEF)
        ls = T.leafset(cur)
        if not any(x is UNDEF for x in ls):
            return mk("ditem", o, i) if any(x.op in ("seq", "set", "dict") or x.op == "item" for x in ls) else cur
        if T.is_num(ls[0]) or True:
            # lvalue: resolved by the operation applied to it
            return mk("ditem", o, i)

    def ditem_value(self, st, cx, x):
        o, i = x.args
        c = st.heap[o]
        dflt = self.freeze(st, self.call(st, cx, c[2], [], {}))
        return T.dict_get(c[1], i, dflt)

    def ex_NamedExpr(self, n, st, cx):
        v = self.ev(n.value, st, cx)
        self.bind(n.target.id, v, st, cx)
        return v

    def ex_Starred(self, n, st, cx):
        raise Unsupported("starred expression")

    def ex_Await(self, n, st, cx):
        raise Unsupported("await")

    def ex_Yield(self, n, st, cx):
        v = NONE if n.value is None else self.ev(n.value, st, cx)
        if st.live:
            r = st.frames[cx.frames[0]]["<yield>"]
            c = st.heap[r]
            st.heap[r] = ("list", T.concat("list", c[1], lift(lambda x: T.seq("list", [T.el(x)]), v)))
        return NONE

    def ex_YieldFrom(self, n, st, cx):
        v = self.ev(n.value, st, cx)
        src = self.iter_source(st, v)
        r = st.frames[cx.frames[0]]["<yield>"]
        c = st.heap[r]
        st.heap[r] = ("list", T.concat("list", c[1], lift(lambda x: T.seq("list", T.as_segments(x)), src)))
        return NONE

    # comprehensions are loops that collect into a fresh cell
    def comp(self, n, st, cx, emit):
        fid = ("comp", next(_IDS))
        st.frames[fid] = {}
        c = cx.nested(fid)

        def gen(i, s, c):
            if i == len(n.generators):
                emit(s, c)
                return
            g = n.generators[i]
            it = self.ev(g.iter, s, c if i else c)
            if not s.live:
                return

            def body(s2, elem, c2):
                self.assign(g.target, elem, s2, c2)

                def conds(s3, j):
                    if j == len(g.ifs):
                        gen(i + 1, s3, c2)
                        return None
                    t = self.truth(g.ifs[j], s3, c2)
                    if not s3.live:
                        return None
                    return self.branch(s3, t, lambda s4: conds(s4, j + 1), lambda s4: None)

                conds(s2, 0)

            self.loop(it, s, c, body)

        gen(0, st, c)
        st.frames.pop(fid, None)

    def ex_ListComp(self, n, st, cx):
        r = self.new_list(st, [])

        def emit(s, c):
            t = self.ev(n.elt, s, c)
            if s.live:
                s.heap[r] = ("list", T.concat("list", s.heap[r][1], lift(lambda x: T.seq("list", [T.el(x)]), t)))

        self.comp(n, st, cx, emit)
        return r if st.live else UNDEF

    def ex_GeneratorExp(self, n, st, cx):
        return self.one_shot(self.ex_ListComp(n, st, cx))

    def ex_SetComp(self, n, st, cx):
        r = self.new_set(st, T.mkset([]))

        def emit(s, c):
            t = self.freeze(s, self.ev(n.elt, s, c))
            if s.live:
                s.heap[r] = ("set", lift(lambda a, x: T.mkset(a.args[0] + (T.el(x),)), s.heap[r][1], t))

        self.comp(n, st, cx, emit)
        return r if st.live else UNDEF

    def ex_DictComp(self, n, st, cx):
        r = self.new_dict(st)

        def emit(s, c):
            k = self.freeze(s, self.ev(n.key, s, c))
            v = self.ev(n.value, s, c)
            if s.live:
                s.heap[r] = ("dict", T.dict_store(s.heap[r][1], k, v), None)

        self.comp(n, st, cx, emit)
        return r if st.live else UNDEF

    # ------------------------------------------------------------ calls
    def ex_Call(self, n, st, cx):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super" and not n.args:
            return mk("super", cx.cls, st.frames[cx.frames[0]][cx.self_name])
        if isinstance(f, ast.Attribute):
            o = self.lvalue_item(f, st, cx) or self.ev(f.value, st, cx)
            if not st.live:
                return UNDEF
            args, kwargs = self.call_args(n, st, cx)
            if not st.live:
                return UNDEF
            name = mangle(cx.cls, f.attr)
            return self.star_cases(st, args, lambda s1, args: self.cases(
                s1, o, lambda s, x: self.method_call(s, cx, x, name, list(args), dict(kwargs), n)))
        t = self.ev(f, st, cx)
        if not st.live:
            return UNDEF
        args, kwargs = self.call_args(n, st, cx)
        if not st.live:
            return UNDEF
        return self.star_cases(st, args, lambda s, args: self.call(s, cx, t, args, dict(kwargs), n))

    def star_cases(self, st, args, fn):
        """Call `fn` with the arguments; separately for each case of a gated star argument."""
        for i, x in enumerate(args):
            if x.op == "splat" and x.args[0].op == "ite":
                def one(s, leaf, i=i):
                    mid = []
                    for g in T.as_segments(leaf):
                        mid.append(g.args[0] if g.op == "el" else mk("splat", T.seq("list", [g])))
                    return self.star_cases(s, [*args[:i], *mid, *args[i + 1:]], fn)

                return self.cases(st, x.args[0], one)
        return fn(st, list(args))

    MUTATORS = frozenset(("append", "extend", "insert", "add", "update", "discard", "remove", "setdefault", "sort",
                          "reverse", "clear", "pop", "__setitem__"))

    def lvalue_item(self, f, st, cx):
        """`d[k].append(x)` where `d` is a dictionary of this program: `d[k]` as an lvalue."""
        if f.attr not in self.MUTATORS or not isinstance(f.value, ast.Subscript) or not isinstance(f.value.value, ast.Name):
            return None
        d = self.ev(f.value.value, st, cx)
        if d.op != "ref" or st.heap[d][0] != "dict" or st.heap[d][2] is not None:
            return None
        i = self.freeze(st, self.ev_index(f.value.slice, st, cx))
        if not st.live:
            return UNDEF
        v = self.item_of(st, cx, st.heap[d][1], i)
        if any(x.op == "ref" for x in T.leafset(v)) and v.op == "ref":
            return v
        return mk("ditem", d, i)

    def call_args(self, n, st, cx):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                t = self.ev(a.value, st, cx)
                src = self.prune(st, self.iter_source(st, t))
                if src.op == "ite":
                    src = T.align_leaves(src)
                if src.op == "ite":
                    args.append(mk("splat", src))
                    continue
                segs = T.as_segments(src)
                for s in segs:
                    if s.op == "el":
                        args.append(s.args[0])
                    else:
                        args.append(mk("splat", T.seq("list", [s])))
            else:
                args.append(self.ev(a, st, cx))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                t = self.content(st, self.ev(k.value, st, cx))
                if t.op == "dict" and all(s.op == "kv" and s.args[0].op == "cstr" for s in t.args[0]):
                    for s in t.args[0]:
                        kwargs[s.args[0].args[0]] = s.args[1]
                elif t.op == "ite" and self.same_names(t) is not None:
                    for name in self.same_names(t):
                        key = T.string(name)
                        kwargs[name] = lift(lambda d: UNDEF if d is UNDEF else next(s.args[1] for s in d.args[0] if s.args[0] is key), t)
                else:
                    kwargs["**"] = t
            else:
                kwargs[k.arg] = self.ev(k.value, st, cx)
        return args, kwargs

    def same_names(self, t):
        """Names of the entries of a gated dictionary with the same names in all cases."""
        found = None
        for d in T.leafset(t):
            if d is UNDEF:
                continue
            if d.op != "dict" or not all(s.op == "kv" and s.args[0].op == "cstr" for s in d.args[0]):
                return None
            names = [s.args[0].args[0] for s in d.args[0]]
            if found is not None and set(found) != set(names):
                return None
            found = found or names
        return found

    def method_call(self, st, cx, o, name, args, kwargs, node=None):
        if not st.live:
            return UNDEF
        r = self.models.method(self, st, cx, o, name, args, kwargs, node)
        if r is not NotImplemented:
            return r
        f = self._getattr(st, cx, o, name)
        if not st.live:
            return UNDEF
        return self.call(st, cx, f, args, kwargs, node)

    def call(self, st, cx, f, args, kwargs, node=None):
        return self.cases(st, f, lambda s, x: self._call(s, cx, x, list(args), dict(kwargs), node))

    def _call(self, st, cx, f, args, kwargs, node=None):
        if not st.live:
            return UNDEF
        op = f.op
        self.stats["calls"] += 1
        if op in ("fn", "clo"):
            return self.call_fn(st, f, args, kwargs, cx.ex)
        if op == "bound":
            return self._call(st, cx, f.args[1], [f.args[0], *args], kwargs, node)
        if op == "partial":
            return self.call(st, cx, f.args[0], list(f.args[1]) + args, {**dict(f.args[2]), **kwargs}, node)
        if op == "bmeth":
            r = self.models.method(self, st, cx, f.args[0], f.args[1], args, kwargs, node)
            if r is NotImplemented:
                r = self.generic_mcall(st, f.args[0], f.args[1], args, kwargs)
            return r
        if op == "cls":
            from .classes import construct

            return construct(self, st, cx, f, args, kwargs)
        if op == "ext":
            return self.models.call_ext(self, st, cx, f.args[0], args, kwargs, node)
        if op == "registrar":
            self.register(f.args[0], f.args[1], args[0])
            return args[0]
        if op == "ref" and st.heap[f][0] == "obj":
            m = self.find_method(st.heap[f][1], "__call__")
            if m:
                return self._call(st, cx, m[0], [f, *args], kwargs, node)
        if op == "rec":
            m = self.find_method(f.args[0], "__call__")
            if m:
                return self._call(st, cx, m[0], [f, *args], kwargs, node)
        cls = self.obj_class(st, f)
        if cls is not None and cls in self.cls:
            m = self.find_method(cls, "__call__")
            if m:
                return self._call(st, cx, m[0], [f, *args], kwargs, node)
        if op == "attr":
            typ = self.typeof(f.args[0])
            if typ is not None and typ[0] == "ext" and self.config.ext_field_type(typ, f.args[1]) is None:
                r = self.models.method(self, st, cx, f.args[0], f.args[1], args, kwargs, node)
                return self.generic_mcall(st, f.args[0], f.args[1], args, kwargs) if r is NotImplemented else r
        fa = [self.freeze(st, a) for a in args]
        fk = tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs.items()))
        return T.call_term(self.freeze(st, f), tuple(fa), fk)

    def generic_mcall(self, st, o, name, args, kwargs):
        if name == "subs" and not kwargs:
            # subs(old, new), subs([(old, new)]) and subs({old: new}) are the same
            if len(args) == 2:
                args = [T.mkdict([T.kv(self.freeze(st, args[0]), self.freeze(st, args[1]))])]
            elif len(args) == 1:
                pairs = T.seq_elements(self.content(st, args[0])) if self.content(st, args[0]).op == "seq" else None
                if pairs is not None and len(pairs) == 1:
                    pair = self.content(st, pairs[0])
                    es = T.seq_elements(pair) if pair.op == "seq" else None
                    if es is not None and len(es) == 2:
                        args = [T.mkdict([T.kv(self.freeze(st, es[0]), self.freeze(st, es[1]))])]
        return T.mcall(name, self.freeze(st, o), tuple(self.freeze(st, a) for a in args),
                       tuple((k, self.freeze(st, v)) for k, v in kwargs.items()))

    def bind_args(self, st, cx_ex, fi, args, kwargs):
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        extra = []
        i = 0
        for x in args:
            if x.op == "splat":
                if i < len(pos) or not a.vararg:
                    # an unknown number of positional arguments
                    rest = [p for p in pos[i:] if p not in kwargs]
                    rest = [p for p in rest if p not in fi.defaults] or rest
                    for j, p in enumerate(rest):
                        out[p] = self.seq_item(x.args[0], j)
                        i = pos.index(p) + 1
                    continue
                extra.append(x)
                continue
            if i < len(pos):
                out[pos[i]] = x
                i += 1
            else:
                extra.append(x)
        if a.vararg:
            segs = []
            for x in extra:
                if x.op == "splat":
                    segs.extend(x.args[0].args[1])
                else:
                    segs.append(T.el(x))
            out[a.vararg.arg] = T.seq("tuple", segs)
        elif extra:
            return None
        rest = {}
        posonly = {p.arg for p in a.posonlyargs}
        for k, v in kwargs.items():
            if k == "**":
                if a.kwarg:
                    rest[k] = v
                    continue
                raise Unsupported("unknown keyword arguments")
            if k in pos and k not in posonly or k in [p.arg for p in a.kwonlyargs]:
                if k in out:
                    return None
                out[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                return None
        if a.kwarg:
            d = T.mkdict([T.kv(T.string(k), v) for k, v in rest.items() if k != "**"])
            if "**" in rest:
                d = T.dict_update(d, rest["**"])
            out[a.kwarg.arg] = self.new_dict(st, d)
        for p in pos + [p.arg for p in a.kwonlyargs]:
            if p not in out:
                if p in fi.defaults:
                    out[p] = fi.defaults[p]
                else:
                    return None
        return out

    MAX_DEPTH = 60
    MAX_SAME = 6

    def call_fn(self, st, f, args, kwargs, ex, capture_raise=False):
        fi = self.fn[f.args[0]] if f.op == "fn" else self.clo[f.args[0]]
        if fi.dispatch is not None and args:
            return self.dispatch_call(st, f, fi, args, kwargs, ex)
        cut = self.config.cut(self, st, fi, args, kwargs)
        if cut is not None:
            return cut
        key = None
        if self.MEMO.intersection(fi.decorators):
            # one result per arguments: later calls get the same (possibly modified) object
            ident = "functools.cached_property" in fi.decorators
            key = (fi.qual, tuple(self.memo_key(st, a, ident) for a in args),
                   tuple((k, self.memo_key(st, v, ident)) for k, v in sorted(kwargs.items())))
            for r, _ in self.memo.get(key, ()):
                if all(x in st.heap for x in self.refs_in(r)):
                    return r
        same = sum(1 for q in self.stack if q[0] == fi.qual)
        if same >= self.MAX_SAME or len(self.stack) > self.MAX_DEPTH:
            fa = [self.freeze(st, a) for a in args]
            return T.app("rec:" + fi.qual, tuple(fa), tuple((k, self.freeze(st, v)) for k, v in kwargs.items()))
        bound = self.bind_args(st, ex, fi, args, kwargs)
        if bound is None:
            if ex is not None:
                self.raise_(st, Ctx(self, fi.module, (("x",),), None, ex), "TypeError")
            else:
                st.pc = FALSE
            return UNDEF
        v = self.run_fn(st, f, fi, bound, ex, capture_raise)
        if key is not None and st.live and (self._has_ref(v) or any(x.op == "ref" for x in key[1])):
            self.memo.setdefault(key, []).append((v, self.freeze(st, v)))
        return v

    def memo_key(self, st, a, ident):
        """What a cache compares: the identity of an object without its own comparison, or its value."""
        if a.op == "ref" and st.heap[a][0] == "obj":
            ci = self.cls.get(st.heap[a][1])
            if ident or ci is not None and ci.kind == "plain" and "__eq__" not in ci.methods and "__hash__" not in ci.methods:
                return a
        return self.freeze(st, a)

    MEMO = {"functools.cache", "functools.lru_cache", "call:functools.lru_cache", "functools.cached_property"}

    def lasting(self, st):
        """Cells that outlive the call: of modules, classes, default arguments and cached results."""
        return {r for r in st.heap if r in self.base.heap} | {
            x for k in self.memo for r, _ in self.memo[k] for x in self.refs_in(r) if x in st.heap}

    def refs_in(self, t):
        """References in a value (but not those in the cells that they refer to)."""
        out, todo = set(), [t] if self._has_ref(t) else []
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, list)):
                todo.extend(x)
            elif isinstance(x, Term):
                if x.op == "ref":
                    out.add(x)
                elif self._has_ref(x):
                    todo.extend(x.args)
        return out

    def state_changes(self, st):
        """What the analysed call has changed in state that later calls see."""
        out = []
        for r, c in self.base.heap.items():
            d = st.heap.get(r)
            if d is not c and d != c and self.freeze(st, r) is not self.freeze(self.base, r):
                out.append(f"{self.names_of(r)} becomes {T.show(self.freeze(st, r), 4)[:200]}")
        for (kind, *rest), fr in self.base.frames.items():
            if kind == "glob":
                for k, v in fr.items():
                    w = st.frames[(kind, *rest)].get(k, UNDEF)
                    if w is not v:
                        out.append(f"global {rest[0]}.{k} becomes {T.show(self.freeze(st, w), 4)[:200]}")
        for k, rs in self.memo.items():
            for r, v in rs:
                if self._has_ref(r) and all(x in st.heap for x in self.refs_in(r)) and self.freeze(st, r) is not v:
                    out.append(f"the cached result of {k[0]} becomes {T.show(self.freeze(st, r), 4)[:200]}")
        return out

    def note_escape(self, st, v):
        """The result of the analysed call must not give access to state that later calls see."""
        for r in self.reachable_refs(st, v) & self.lasting(st):
            kind = st.heap[r][0]
            if kind == "obj":
                ci = self.cls.get(st.heap[r][1])
                if (ci is None or ci.kind != "attrs_define") and st.heap[r][1] not in self.models.MUTABLE_EXT:
                    continue
            self.escaped.append(f"{self.names_of(r)}: {T.show(self.freeze(st, r), 4)[:200]}")

    def names_of(self, r):
        for fid, fr in self.base.frames.items():
            for k, v in fr.items():
                if v is r:
                    return f"{fid[1]}.{k}"
        for fi in self.fn.values():
            for k, v in fi.defaults.items():
                if v is r:
                    return f"the default value of {k} in {fi.qual}"
        for ci in self.cls.values():
            for k, v in ci.attrs.items():
                if v is r:
                    return f"{ci.qual}.{k}"
        return "a module-level object"

    def reachable_refs(self, st, t):
        seen, out, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, list)):
                todo.extend(x)
            elif isinstance(x, dict):
                todo.extend(x.values())
            elif isinstance(x, Term) and x not in seen:
                seen.add(x)
                if x.op == "ref":
                    out.add(x)
                    todo.extend(st.heap.get(x, ())[1:])
                elif self._has_ref(x):
                    todo.extend(x.args)
        return out

    def dispatch_call(self, st, f, fi, args, kwargs, ex):
        """functools.singledispatch: by the class of the first argument."""
        from .models import isinstance_term

        x = args[0]
        regs = list(fi.dispatch)
        # most specific first
        regs.sort(key=lambda r: -self.specificity(r[0]))

        def rec(s, i):
            if i == len(regs):
                bound = self.bind_args(s, ex, fi, args, kwargs)
                return self.run_fn(s, f, fi, bound, ex)
            typ, g = regs[i]
            c = isinstance_term(self, s, x, typ)
            return self.branch(s, c, lambda s2: self.call_fn(s2, g, list(args), dict(kwargs), ex), lambda s2: rec(s2, i + 1))

        same = sum(1 for q in self.stack if q[0] == fi.qual)
        typ = self.typeof(x) if x.op != "ref" else ("x",)
        if same >= 1 and (typ is None or typ[0] == "any"):
            return T.app("rec:" + fi.qual, tuple(self.freeze(st, a) for a in args),
                         tuple((k, self.freeze(st, v)) for k, v in kwargs.items()))
        if same >= self.MAX_SAME:
            return T.app("rec:" + fi.qual, tuple(self.freeze(st, a) for a in args),
                         tuple((k, self.freeze(st, v)) for k, v in kwargs.items()))
        self.stack.append((fi.qual, None))
        try:
            return rec(st, 0)
        finally:
            self.stack.pop()

    def specificity(self, typ):
        if typ.op == "cls":
            return 10 + len(self.mro(typ.args[0]))
        if typ.args[0].split(".")[-1] in ("Iterable", "Sequence", "Mapping", "object", "Hashable"):
            return 0
        return 5

    def run_fn(self, st, f, fi, bound, ex, capture_raise=False):
        self.stats["functions"].add(fi.qual)
        fid = ("fr", next(_IDS))
        callee = st.fork()
        callee.ctx = self.full(st)
        callee.pc = TRUE
        callee.frames[fid] = dict(bound)
        fx = Exits()
        cx = Ctx(self, fi.module, (fid, *fi.parents), fi.cls, fx)
        cx.qual = fi.qual
        pos = fi.node.args.posonlyargs + fi.node.args.args
        cx.self_name = pos[0].arg if pos else None
        self.stack.append((fi.qual, fid))
        self.cur.append((fi.module, fi.qual, fi.node))
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body, callee, cx)
                if callee.live:
                    fx.returns.append((callee.pc, v, callee))
            else:
                if fi.is_gen:
                    callee.frames[fid]["<yield>"] = self.new_list(callee, [])
                self.block(fi.node.body, callee, cx)
                if callee.live:
                    fx.returns.append((callee.pc, NONE, callee))
                if fi.is_gen:
                    fx.returns = [(pc, self.one_shot(s.frames[fid]["<yield>"]), s) for pc, _, s in fx.returns]
        finally:
            self.stack.pop()
            self.cur.pop()
        # join the returns
        outer_pc = st.pc
        outer_ctx = st.ctx
        if ex is not None:
            for pc, exc, s in fx.raises:
                s2 = s
                s2.ctx = outer_ctx
                s2.pc = AND(outer_pc, pc)
                s2.frames.pop(fid, None)
                if s2.live:
                    ex.raises.append((s2.pc, exc, s2))
        rets = [(pc, v, s) for pc, v, s in fx.returns if pc is not FALSE]
        val = UNDEF
        if capture_raise:
            for pc, exc, s in fx.raises:
                val = ite(pc, mk("raise", exc, ()), val) if pc is not TRUE else mk("raise", exc, ())
        if not rets:
            st.pc = FALSE
            return val
        if capture_raise:
            for pc, v, s in rets:
                if len(self.stack) == 0:
                    self.note_escape(s, v)
                val = ite(pc, self.freeze(s, v, final=not self.stack), val)
        elif len(rets) == 1:
            val = rets[0][1]
        else:
            val = rets[-1][1]
            for pc, v, s in reversed(rets[:-1]):
                val = ite(pc, v, val)
        states = []
        for pc, v, s in rets:
            s.pc = pc
            states.append(s)
        self.merge(callee, states)
        callee.frames.pop(fid, None) if not self._captured(fid) else None
        callee.ctx = outer_ctx
        callee.pc = AND(outer_pc, callee.pc)
        st.become(callee)
        return val

    def _captured(self, fid):
        return any(fid in fi.parents for fi in self.clo.values())


class NeedFold(Exception):
    pass


def None_():
    raise NeedFold


class Ctx:
    """Lexical context of the code that is being analysed."""

    __slots__ = ("it", "module", "frames", "cls", "ex", "qual", "globals", "nonlocals", "handling", "self_name",
                 "in_try", "is_spec", "strict_keys")

    def __init__(self, it, module, frames, cls, ex):
        self.it = it
        self.module = module
        self.frames = frames
        self.cls = cls
        self.ex = ex
        self.qual = module
        self.globals = set()
        self.nonlocals = set()
        self.handling = None
        self.self_name = None
        self.in_try = False
        self.strict_keys = False
        m = it.modules.get(module)
        self.is_spec = bool(m and m.is_spec)

    def copy(self):
        c = Ctx.__new__(Ctx)
        for k in Ctx.__slots__:
            setattr(c, k, getattr(self, k))
        return c

    def with_ex(self, ex):
        c = self.copy()
        c.ex = ex
        return c

    def nested(self, fid):
        c = self.copy()
        c.frames = (fid, *self.frames)
        return c
