"""Classes of the analysed program: definition and construction of instances."""

from __future__ import annotations

import ast

from . import terms as T
from .project import ClassInfo, FieldInfo, mangle
from .terms import FALSE, NONE, NOT, TRUE, UNDEF, lift, mk

FROZEN = {"attrs.frozen"}
DEFINE = {"attrs.define", "attrs.mutable", "attrs.s"}


def define_class(it, n, st, cx):
    from .interp import Ctx, Unsupported

    qual = f"{cx.qual}.{n.name}" if cx.frames[0][0] == "mod" else f"{cx.qual}.<locals>.{n.name}"
    decs = [it.ev(d, st, cx) for d in n.decorator_list]
    names = [it.dec_name(d) for d in decs]
    ci = ClassInfo(qual, n, cx.module, decorators=names)
    for b in n.bases:
        if isinstance(b, ast.Subscript):
            b = b.value
        t = it.ev(b, st, cx)
        if t.op in ("cls", "ext"):
            if t.args[0] not in ("typing.Generic", "builtins.object"):
                ci.bases.append(t.args[0])
    kind = "plain"
    dec_kw = {}
    for d, nm in zip(decs, names):
        base = nm.removeprefix("call:")
        kws = dict(d.args[2]) if d.op == "app" else {}
        if base in FROZEN or (base in DEFINE and kws.get("frozen") is TRUE):
            kind, dec_kw = "attrs_frozen", kws
        elif base in DEFINE:
            kind, dec_kw = "attrs_define", kws
        elif base == "dataclasses.dataclass":
            kind, dec_kw = ("attrs_frozen" if kws.get("frozen") is TRUE else "attrs_define"), kws
        elif base.endswith("sympy.unevaluated"):
            kind = "unevaluated"
    short_bases = [b.split(".")[-1] for b in ci.bases]
    if kind == "plain":
        if "TypedDict" in short_bases or any(b in it.cls and it.cls[b].kind == "typeddict" for b in ci.bases):
            kind = "typeddict"
        elif "Protocol" in short_bases:
            kind = "protocol"
        elif "NamedTuple" in short_bases or any(b in it.cls and it.cls[b].kind == "namedtuple" for b in ci.bases):
            kind = "namedtuple"
        elif any(b in it.cls and it.cls[b].kind in ("attrs_frozen", "attrs_define", "unevaluated") for b in ci.bases):
            kind = "plain"
    ci.kind = kind
    ci.order = dec_kw.get("order") is TRUE
    ci.eq = dec_kw.get("eq", TRUE) is not FALSE
    ci.dec_kw = dec_kw
    it.cls[qual] = ci
    fid = ("cls", qual)
    st.frames[fid] = {}
    c = cx.copy()
    c.frames = (fid, *cx.frames)
    c.cls = qual
    c.qual = qual
    for s in n.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if kind in ("attrs_frozen", "attrs_define", "unevaluated", "typeddict", "namedtuple"):
                ci.fields.append(make_field(it, s, st, c, kind))
                continue
            if s.value is not None:
                it.stmt(s, st, c)
        elif isinstance(s, ast.FunctionDef):
            define_method(it, ci, s, st, cx, c)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        else:
            it.stmt(s, st, c)
    for k, v in st.frames[fid].items():
        if k not in ci.methods:
            ci.attrs[k] = v
    it.bind(n.name, mk("cls", qual), st, cx)
    for d, nm in reversed(list(zip(decs, names))):
        base = nm.removeprefix("call:")
        if d.op in ("fn", "clo"):
            r = it.call(st, cx, d, [mk("cls", qual)], {})
            it.bind(n.name, r, st, cx)


def named_tuple(it, st, cx, args, kwargs):
    """collections.namedtuple() and the functional form of typing.NamedTuple"""
    from .interp import Unsupported

    name = args[0]
    spec = it.freeze(st, args[1] if len(args) > 1 else kwargs.get("field_names", kwargs.get("fields", NONE)))
    if not T.is_str(name) or set(kwargs) - {"field_names", "fields", "typename", "defaults", "module"}:
        raise Unsupported("named tuple")
    if spec.op == "cstr":
        names = spec.args[0].replace(",", " ").split()
    else:
        es = T.seq_elements(spec) if spec.op == "seq" else None
        names = [e if e.op == "cstr" else (T.seq_elements(e) or [NONE])[0] if e.op == "seq" else NONE for e in es or [NONE]]
        if any(n.op != "cstr" for n in names):
            raise Unsupported("fields of a named tuple")
        names = [n.args[0] for n in names]
    qual = f"{cx.qual}.<named>.{name.args[0]}"
    ci = ClassInfo(qual, None, cx.module, decorators=[], kind="namedtuple")
    ci.fields = [FieldInfo(n, None, module=cx.module) for n in names]
    if "defaults" in kwargs:
        ds = it.freeze(st, kwargs["defaults"])
        es = T.seq_elements(ds) if ds.op == "seq" else None
        if es is None:
            raise Unsupported("defaults of a named tuple")
        for f, d in zip(reversed(ci.fields), reversed(es)):
            f.default = d
    it.cls[qual] = ci
    return mk("cls", qual)


def field_position(it, name, arity):
    """Position of a field of the named tuples with this number of fields."""
    found = set()
    for q, ci in it.cls.items():
        if ci.kind == "namedtuple":
            names = [f.name for f in it.all_fields(q)]
            if len(names) == arity and name in names:
                found.add(names.index(name))
    return found.pop() if len(found) == 1 else None


def tuple_member(it, st, cx, o, name, arity):
    """Attribute of a tuple: a field or a member of a class of named tuples."""
    from .interp import Unsupported

    i = field_position(it, name, arity)
    if i is not None:
        return T.item(o, T.num(i))
    found = {}
    for q, ci in it.cls.items():
        if ci.kind == "namedtuple" and len(it.all_fields(q)) == arity:
            m = it.find_method(q, name)
            if m is not None:
                found[m[0]] = (q, m)
    if len(found) != 1:
        if found or any(ci.kind == "namedtuple" and name in [f.name for f in ci.fields] for ci in it.cls.values()):
            raise Unsupported(f"attribute {name} of a tuple")
        return None
    q, (fn, kind) = next(iter(found.values()))
    if kind == "property":
        return it.call(st, cx, fn, [o], {})
    if kind == "static":
        return fn
    return mk("bound", mk("cls", q) if kind == "class" else o, fn)


def define_method(it, ci, s, st, cx, c):
    from .interp import Unsupported

    decs = []
    for d in s.decorator_list:
        if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.attr in ("validator", "default", "setter"):
            fs = [f for f in ci.fields if f.name == d.value.id]
            if not fs:
                raise Unsupported(f"decorator {d.attr}")
            fc = c.copy()
            fc.frames = cx.frames
            t = it.make_function(s, st, fc, ())
            if d.attr == "validator":
                fs[0].validator = (fs[0].validator, t) if fs[0].validator is not None else t
            else:
                fs[0].factory = ("self", t)
            return
        decs.append(it.ev(d, st, c))
    names = [it.dec_name(d) for d in decs]
    if any(x == "typing.overload" for x in names):
        return
    fc = c.copy()
    fc.frames = cx.frames
    fc.cls = ci.qual
    fc.qual = ci.qual
    t = it.make_function(s, st, fc, names)
    kind = "method"
    for x in names:
        if x in ("builtins.property", "functools.cached_property", "abc.abstractproperty"):
            kind = "property"
        elif x == "builtins.staticmethod":
            kind = "static"
        elif x == "builtins.classmethod":
            kind = "class"
    for d, nm in reversed(list(zip(decs, names))):
        if nm in ("builtins.property", "builtins.staticmethod", "builtins.classmethod"):
            continue
        t = it.decorate(st, cx, d, nm, t, s)
    name = mangle(ci.qual, s.name)
    ci.methods[name] = (t, kind)
    st.frames[("cls", ci.qual)][s.name] = t


def make_field(it, s, st, c, kind):
    f = FieldInfo(s.target.id, s.annotation, module=c.module)
    v = s.value
    if kind == "typeddict":
        return f
    if v is None:
        return f
    t = it.ev(v, st, c)
    if t.op == "app" and t.args[0] in ("attrs.field", "dataclasses.field", "ampform.sympy.argument", "attrs.ib"):
        kw = dict(t.args[2])
        f.default = kw.get("default")
        f.factory = kw.get("factory", kw.get("default_factory"))
        f.converter = kw.get("converter")
        f.validator = kw.get("validator")
        f.init = kw.get("init", TRUE) is not FALSE
        f.kw_only = kw.get("kw_only", FALSE) is TRUE
        f.sympify = kw.get("sympify", TRUE) is not FALSE
        if f.default is not None and f.default.op == "app" and f.default.args[0] == "attrs.Factory":
            f.factory, f.default = f.default.args[1][0], None
        f.meta = kw
        return f
    if t.op == "ref":
        # mutable default shared between the instances
        f.default = it.freeze(st, t)
        f.shared_mutable = True
        return f
    f.default = t
    return f


def construct(it, st, cx, f, args, kwargs):
    from .interp import Unsupported

    q = f.args[0]
    ci = it.cls[q]
    kinds = [it.cls[c].kind for c in it.mro(q) if c in it.cls]
    kind = ci.kind
    if kind == "typeddict":
        return it.models._h_dict(it, st, cx, args, kwargs)
    if kind in ("attrs_frozen", "attrs_define", "unevaluated", "namedtuple"):
        return construct_fields(it, st, cx, q, ci, kind, args, kwargs)
    init = it.find_method(q, "__init__")
    ext = [b for b in it.mro(q) if b not in it.cls]
    if init is None and ext and any(b.split(".")[-1].endswith(("Error", "Exception", "Warning")) for b in ext):
        return mk("rec", q, ())
    if init is None and ext and any(b.split(".")[-1] in ("dict", "list", "Enum") for b in ext):
        raise Unsupported(f"instance of {q}")
    if init is None and any(k in ("attrs_frozen", "attrs_define") for k in kinds):
        base = next(c for c in it.mro(q) if c in it.cls and it.cls[c].kind in ("attrs_frozen", "attrs_define"))
        return construct_fields(it, st, cx, q, ci, it.cls[base].kind, args, kwargs)
    o = it.alloc(st, ("obj", q, {}))
    if init is not None:
        it.call(st, cx, init[0], [o, *args], kwargs)
    return o if st.live else UNDEF


def construct_fields(it, st, cx, q, ci, kind, args, kwargs):
    fields = [f for f in it.all_fields(q) if f.init]
    names = [f.name.lstrip("_") for f in fields]
    vals = {}
    pos = [f for f in fields if not f.kw_only]
    args = list(args)
    flat = []
    for i, a in enumerate(args):
        if a.op == "splat":
            # as for the unpacking into targets, the sequence is taken to have as many items as are needed
            base = a.args[0]
            open_ = [f for f in pos[len(flat):] if f.name.lstrip("_") not in kwargs]
            n = len([f for f in open_ if f.default is None and f.factory is None] or open_) - (len(args) - i - 1)
            for j in range(n):
                flat.append(it.seq_item(base, j))
        else:
            flat.append(a)
    if len(flat) > len(pos):
        it.raise_(st, cx, "TypeError")
        return UNDEF
    for f, a in zip(pos, flat):
        vals[f.name] = a
    for k, v in kwargs.items():
        if k == "**":
            from .interp import Unsupported

            raise Unsupported("unknown keyword arguments of a constructor")
        if k not in names or fields[names.index(k)].name in vals:
            if kind == "unevaluated" and k == "evaluate":
                continue
            it.raise_(st, cx, "TypeError")
            return UNDEF
        vals[fields[names.index(k)].name] = v
    for f in it.all_fields(q):
        if f.name in vals:
            continue
        if f.factory is not None:
            vals[f.name] = it.call(st, cx, f.factory, [], {}) if not isinstance(f.factory, tuple) else it.call(
                st, cx, f.factory[1], [NONE], {})
        elif f.default is not None:
            vals[f.name] = f.default
        else:
            it.raise_(st, cx, "TypeError")
            return UNDEF
    for f in it.all_fields(q):
        if f.converter is not None and st.live:
            vals[f.name] = it.call(st, cx, f.converter, [vals[f.name]], {})
    if not st.live:
        return UNDEF
    ordered = [(f.name, vals[f.name]) for f in it.all_fields(q)]
    if kind == "namedtuple":
        # instances are plain tuples: fields are found by name, see `field_position`
        return T.concat("tuple", *[lift(lambda x: T.seq("list", [T.el(x)]), v) for _, v in ordered])
    if kind == "unevaluated":
        ordered = [(n, sympify(it, st, v)) for n, v in ordered]
        obj = T.rec(q, ordered)
    elif kind == "attrs_frozen":
        # instances are immutable: keep containers by reference until frozen
        obj = T.rec(q, ordered)
    else:
        obj = it.alloc(st, ("obj", q, dict(ordered)))
    for f in it.all_fields(q):
        if f.validator is not None and st.live and not it.config.skip_validators:
            validate(it, st, cx, f.validator, obj, f, vals[f.name])
    post = it.find_method(q, "__attrs_post_init__") or it.find_method(q, "__post_init__")
    if post and it.config.skip_post_init and q in it.config.skip_post_init:
        post = None
    if post is not None and st.live:
        it.cases(st, obj, lambda s, o: it.call(s, cx, post[0], [o], {}))
    return obj if st.live else UNDEF


def sympify(it, st, v):
    return it.freeze(st, v)


def validate(it, st, cx, v, obj, f, val):
    if isinstance(v, tuple):
        for x in v:
            if x is not None:
                validate(it, st, cx, x, obj, f, val)
        return
    if v.op == "seq":
        for s in v.args[1]:
            validate(it, st, cx, s.args[0], obj, f, val)
        return
    if v.op == "ref":
        return validate(it, st, cx, it.content(st, v), obj, f, val)
    if v.op == "app" and v.args[0] == "attrs.validators.instance_of":
        ok = it.models.isinstance_term(it, st, val, v.args[1][0])
        it.raise_(st, cx, "TypeError", NOT(ok))
        return
    if v.op == "app" and v.args[0] == "attrs.validators.optional":
        s1 = T.is_none(val)
        it.branch(st, s1, lambda s: None, lambda s: validate(it, s, cx, v.args[1][0], obj, f, val))
        return
    if v.op == "app" and v.args[0] == "attrs.validators.in_":
        it.raise_(st, cx, "ValueError", NOT(T.contains(it.freeze(st, val), it.freeze(st, v.args[1][0]))))
        return
    if v.op == "app" and v.args[0] == "attrs.validators.and_":
        for x in v.args[1]:
            validate(it, st, cx, x, obj, f, val)
        return
    a = T.rec("attrs.Attribute", [("name", T.string(f.name))])
    it.call(st, cx, v, [obj, a, val], {})
