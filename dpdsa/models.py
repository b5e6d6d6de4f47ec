"""Transfer functions for built-in, standard-library and third-party callables."""

from __future__ import annotations

import builtins
import re
from fractions import Fraction

from . import terms as T
from .config import DISPLAY_ONLY, METHOD_TYPES, SIGNATURES
from .project import canonical_ext
from .terms import AND, FALSE, NONE, NOT, ONE, OR, TRUE, UNDEF, ZERO, Term, atom, ite, lift, mk

NUMERIC_ID = {"builtins.float", "decimal.Decimal", "sympy.Float", "sympy.sympify", "sympy.S", "sympy.nsimplify"}
ALIASES = {
    "sympy.core.symbol.symbols": "sympy.symbols",
    "sympy.functions.elementary.miscellaneous.sqrt": "sympy.sqrt",
    "sympy.I": "sympy.I",
    "attr.frozen": "attrs.frozen", "attr.define": "attrs.define", "attr.field": "attrs.field",
    "attr.evolve": "attrs.evolve", "attr.s": "attrs.define",
    "ampform.sympy._decorator.unevaluated": "ampform.sympy.unevaluated",
    "ampform.sympy._decorator.argument": "ampform.sympy.argument",
    "abc.Iterable": "collections.Iterable",
}
ABC = {"Iterable", "Sequence", "Mapping", "MutableMapping", "Callable", "Generator", "Collection", "Hashable", "Set",
       "Iterator", "Sized", "Container", "MutableSequence", "Reversible"}
EXC = None


def canon(name):
    name = ALIASES.get(name, name)
    name = canonical_ext(name)
    name = ALIASES.get(name, name)
    p = name.split(".")
    if p[0] in ("typing", "typing_extensions", "collections") and p[-1] in ABC:
        return "collections." + p[-1]
    if p[0] == "typing_extensions":
        return "typing." + p[-1]
    return name


def ext_const(name):
    """Constants of external modules."""
    if name in ("sympy.I", "sympy.S.ImaginaryUnit"):
        return T.IMAG
    if name in ("sympy.S.Zero",):
        return ZERO
    if name in ("sympy.S.One",):
        return ONE
    if name == "sympy.S.NegativeOne":
        return T.MINUS_ONE
    if name == "sympy.S.Half":
        return T.num(Fraction(1, 2))
    if name in ("sympy.pi", "sympy.S.Pi", "math.pi"):
        return mk("app", "pi", (), ())
    return None


def ext_name(mod, name):
    full = canon(f"{mod}.{name}")
    c = ext_const(full)
    return c if c is not None else mk("ext", full)


def ext_attr(it, o, name):
    base = o.args[0]
    full = canon(f"{base}.{name}")
    c = ext_const(full)
    if c is not None:
        return c
    if name in ("__name__", "__qualname__"):
        return T.string(base.split(".")[-1])
    return mk("ext", full)


def install(it):
    T.SIMPLIFY.clear()
    T.SIMPLIFY.update({
        "mod": T.divider(lambda x, y: x % y), "floordiv": T.divider(lambda x, y: x // y),
        "ampform.Kallen": lambda a, k: _sym_args("ampform.Kallen", a, k),
        "abs": _abs,
        "sorted": _sorted_simpl,
        "sympy.Rational": _rational,
        "delta": _delta,
        "max": lambda a, k: _minmax("max", a, k),
        "min": lambda a, k: _minmax("min", a, k),
    })


def _sym_args(name, a, k):
    if k:
        return None
    b = tuple(sorted(a, key=lambda t: t.key))
    if b == a:
        return None
    return mk("app", name, b, ())


def _abs(a, k):
    (x,) = a
    if T.is_num(x) and x.args[1] == 0:
        return T.num(abs(x.args[0]))
    if x.op == "app" and x.args[0] == "abs":
        return x
    n = T.neg(x)
    if n.key < x.key:
        return mk("app", "abs", (n,), ())
    return None


def _delta(a, k):
    d = T.sub(a[0], a[1]) if len(a) == 2 else a[0]
    if T.is_num(d):
        return ONE if d is ZERO else ZERO
    n = T.neg(d)
    return mk("app", "delta", (min(d, n, key=lambda t: t.key),), ())


def _rational(a, k):
    if len(a) == 2:
        return T.div(a[0], a[1])
    (x,) = a
    if T.is_num(x):
        return x
    if x.op == "cstr":
        try:
            return T.num(Fraction(x.args[0]))
        except ValueError:
            return None
    if x.op == "app" and x.args[0] == "sympy.Rational":
        return x
    typ = T.HOOKS["typeof"](x)
    if typ is not None and (typ[0] == "int" or (typ[0] == "ext" and typ[1] in ("sympy.Rational", "sympy.Integer"))):
        return x
    if x.op == "poly":
        # exact arithmetic of rationals stays rational
        if all(_is_rational_term(b) for m in T.to_poly(x) for b, _ in m):
            return x
    return None


def _is_rational_term(b):
    typ = T.HOOKS["typeof"](b)
    return typ is not None and (typ[0] == "int" or (typ[0] == "ext" and typ[1] in ("sympy.Rational", "sympy.Integer")))


def _sorted_simpl(a, k):
    (x,) = a
    if x.op == "app" and x.args[0] == "sorted" and x.args[2] == tuple(sorted(k.items())):
        return x
    return None


def _minmax(which, a, k):
    if k or not a:
        return None
    flat = []
    for x in a:
        flat.extend(x.args[1] if x.op == "app" and x.args[0] == which else [x])
    nums = [x for x in flat if T.is_num(x)]
    rest = sorted({x for x in flat if not T.is_num(x)}, key=lambda t: t.key)
    out = list(rest)
    if nums:
        f = max if which == "max" else min
        out.append(f(nums, key=lambda t: t.args[0]))
    if len(out) == 1:
        return out[0]
    if tuple(out) == tuple(a):
        return None
    return mk("app", which, tuple(out), ())


# ------------------------------------------------------------------ types
APP_TYPES = {
    "len": ("int",), "int": ("int",), "sympy.Symbol": ("ext", "sympy.Symbol", ()),
    "sympy.Rational": ("ext", "sympy.Rational", ()), "abs": ("num",), "sympy.IndexedBase": ("ext", "sympy.IndexedBase", ()),
    "complex": ("ext", "complex", ()), "sympy.latex": ("str",), "float": ("num",),
    "floordiv": ("num",), "mod": ("num",), "delta": ("num",), "sympy.WignerD": ("num",), "sympy.CG": ("num",),
    "pi": ("num",), "hash": ("int",), "arange_item": ("num",), "parity_int": ("int",),
}


def app_type(it, t):
    name, args, kw = t.args
    r = APP_TYPES.get(name)
    if r is not None:
        return r
    if name in ("sorted", "reversed", "tail"):
        return ("list", it.elem_type(args[0]))
    if name in ("enumerate", "zip", "range", "arange", "product", "items", "dict_values"):
        return ("iter", app_elem_type(it, t))
    if name in ("setop", "keyset"):
        return ("set", app_elem_type(it, t))
    if name in ("max", "min"):
        ts = [it.typeof(x) for x in args]
        return ts[0] if ts and all(repr(x) == repr(ts[0]) for x in ts) else None
    if name.startswith("str."):
        return ("list", ("str",)) if name in ("str.split", "str.splitlines") else ("str",)
    if name.startswith("rec:"):
        fi = it.fn.get(name[4:])
        if fi is not None and fi.node is not None and getattr(fi.node, "returns", None) is not None:
            typ = it.ann(fi.node.returns, fi.module)
            return None if typ[0] == "any" else typ
        return None
    if name.startswith("cut:"):
        fi = it.fn.get(name[4:])
        if fi is not None and getattr(fi.node, "returns", None) is not None:
            typ = it.ann(fi.node.returns, fi.module)
            return None if typ[0] == "any" else typ
        return None
    if name in SIGNATURES or "." in name and name.split(".")[-1][:1].isupper():
        return ("ext", name, ())
    return None


def app_elem_type(it, t):
    name, args, kw = t.args
    if name == "enumerate":
        return ("tuple", [("int",), it.elem_type(args[0])])
    if name in ("range",):
        return ("int",)
    if name == "arange":
        return ("num",)
    if name == "zip":
        return ("tuple", [it.elem_type(a) for a in args])
    if name in ("sorted", "reversed", "tail"):
        return it.elem_type(args[0])
    if name == "setop":
        return it.elem_type(args[1])
    if name == "combinations":
        n = T.int_of(args[1]) if T.is_int(args[1]) else None
        return ("tuple", [it.elem_type(args[0])] * n) if n else None
    if name == "dict_values":
        return it.val_type(args[0])
    if name == "items":
        return ("tuple", [it.elem_type(args[0]), it.val_type(args[0])])
    return None


def mcall_type(it, t):
    name, o, args, kw = t.args
    typ = it.typeof(o)
    if typ is not None and typ[0] == "ext":
        r = METHOD_TYPES.get((typ[1], name))
        if r is not None:
            return r
    if name in ("doit", "cleanup", "xreplace", "subs", "replace", "simplify"):
        return ("ext", "sympy.Expr", ())
    if name == "_print":
        return ("str",)
    if typ is not None and typ[0] == "str" and name in ("strip", "replace", "lower", "upper"):
        return ("str",)
    return None


def app_attr(it, x, name):
    n, args, kw = x.args
    sig = SIGNATURES.get(n)
    if sig and name in sig[0] and len(args) > sig[0].index(name):
        return args[sig[0].index(name)]
    if n == "sympy.Symbol" and name == "name":
        return args[0]
    if n == "pathlib.Path" and args[0].op == "cstr":
        head, _, tail = args[0].args[0].rpartition("/")
        if name == "parent":
            return T.app(n, (T.string(head),))
        if name == "parents":
            return T.seq("tuple", [T.el(T.app(n, (T.string(args[0].args[0].rsplit("/", i)[0]),)))
                                   for i in range(1, args[0].args[0].count("/") + 1)])
        if name == "name":
            return T.string(tail)
    if n in STATEFUL or n in ("pathlib.Path", "logging.Logger"):
        return mk("bmeth", x, name)
    if name == "args" and n in SIGNATURES:
        return T.seq("tuple", [T.el(a) for a in args])
    return None


def iter_normal(it, x):
    """Canonical collection for iterating over value `x`."""
    if x.op == "app" and x.args[0] == "cast":
        return iter_normal(it, x.args[1][0])
    return x


# ------------------------------------------------------------------ isinstance / type
def _types_of(typ):
    if typ.op == "seq":
        return [y for s in typ.args[1] for y in _types_of(s.args[0])]
    if typ.op == "app" and typ.args[0] == "typeunion":
        return [y for a in typ.args[1] for y in _types_of(a)]
    if typ is NONE:
        return [mk("ext", "types.NoneType")]
    return [typ]


HEAP_KIND = {"list": "list", "dict": "dict", "set": "set"}


def isinstance_term(it, st, x, typ):
    def one(v, t):
        if t.op == "cls" and t.args[0] in it.cls and it.cls[t.args[0]].kind == "namedtuple":
            if it.kind(st, v) in (None, "tuple"):
                raise_unsupported("type of a named tuple")
            return FALSE
        if v.op == "ref":
            c = st.heap[v]
            if c[0] == "obj":
                return T.boolean(it.type_is(("cls", c[1], None), t) is True)
            short = t.args[0].split(".")[-1]
            return T.boolean(t.op == "ext" and short in it.KINDS[c[0]])
        if v is NONE:
            return T.boolean(t.op == "ext" and t.args[0].split(".")[-1] in it.KINDS["none"])
        return T.isinst(v, t)

    ts = [y for leaf in [typ] for y in _types_of(leaf)]
    return lift(lambda v: OR(*[one(v, t) for t in ts]), x)


def type_of(it, st, o):
    if o.op == "ref":
        c = st.heap[o]
        return mk("cls", c[1]) if c[0] == "obj" else mk("ext", "builtins." + c[0])
    if o.op == "rec":
        return mk("cls", o.args[0])
    k = {"cstr": "str", "str": "str", "dict": "dict", "set": "set", "bool": "bool"}.get(o.op)
    if k:
        return mk("ext", "builtins." + k)
    if o.op == "seq":
        return mk("ext", "builtins." + o.args[0])
    if T.is_int(o):
        return mk("ext", "builtins.int")
    if o is NONE:
        return mk("ext", "builtins.NoneType")
    typ = it.typeof(o)
    if typ and typ[0] == "cls" and typ[1] in it.cls and (len(typ) > 3 or typ[1] not in it.base_names()):
        return mk("cls", typ[1])
    if typ and typ[0] == "str":
        return mk("ext", "builtins.str")
    return T.app("type", (o,))


def equal(it, x, y):
    return T.eq(x, y)


# ------------------------------------------------------------------ sets
def is_keys(t):
    return t.op == "app" and t.args[0] == "keyset"


def as_set(it, x):
    if x.op in ("set",):
        return x
    if x.op == "seq":
        return T.mkset(x.args[1])
    if x.op == "dict":
        return T.mkset(T.as_segments(x))
    if is_keys(x):
        return as_set(it, x.args[1][0])
    return T.mkset([mk("sp", x)])


def set_op(it, op, a, b):
    def go(a, b):
        a, b = as_set(it, a), as_set(it, b)
        if op == "BitOr":
            return T.mkset(a.args[0] + b.args[0])
        ea = T.set_elements(a)
        if op == "BitXor":
            return lift(lambda p, q: T.mkset(p.args[0] + q.args[0]), go2(a, b, False), go2(b, a, False))
        if op == "BitAnd":
            eb = T.set_elements(b)
            if ea is None and eb is not None:
                a, b = b, a
        return go2(a, b, op == "BitAnd")

    def go2(a, b, keep):
        ea = T.set_elements(a)
        if ea is not None and len(ea) <= 8:
            out = T.mkset([])
            for x in ea:
                c = T.contains(x, b)
                c = c if keep else NOT(c)
                out = lift(lambda o, add: T.mkset(o.args[0] + (T.el(x),)) if add is TRUE else o, out, c)
            return out
        r = T.flatmap(T.seq("list", a.args[0]), lambda v: ite(T.contains(v, b) if keep else NOT(T.contains(v, b)),
                                                             T.seq("list", [T.el(v)]), T.seq("list", [])))
        return lift(lambda s: T.mkset(s.args[1]), r)

    return lift(go, a, b)


# ------------------------------------------------------------------ dictionaries
def dict_items(it, d, what):
    """Sequence of keys, values or items of a dictionary value."""
    def one(k, v):
        return T.seq("list", [T.el({"keys": k, "values": v, "items": T.seq("tuple", [T.el(k), T.el(v)])}[what])])

    def pairs(k, v):
        return lift(lambda kk, vv: one(kk, vv), k, v)

    def go(d):
        if d.op == "dict":
            segs = d.args[0]
            if all(s.op == "kv" for s in segs):
                ks = [s.args[0] for s in segs]
                if all(T.distinct(a, b) for i, a in enumerate(ks) for b in ks[:i]) or len(ks) == 1:
                    return T.concat("list", *[pairs(s.args[0], s.args[1]) for s in segs]) if segs else T.seq("list", [])
            elif len(segs) == 1 and segs[0].op == "sp":
                return go(segs[0].args[0])
            elif len(segs) == 1 and segs[0].op == "dfor":
                level, src, body = segs[0].args
                v = T.fresh_bv(it.elem_type(src), src)
                b = T._replace_level(body, level, v)
                if all(x.op == "dict" and (not x.args[0] or (len(x.args[0]) == 1 and x.args[0][0].op == "kv"
                                                              and injective(it, x.args[0][0].args[0], v)))
                       for x in T.leafset(b)) and len({x.args[0][0].args[0] for x in T.leafset(b) if x.args[0]}) == 1:
                    inner = lift(lambda x: pairs(x.args[0][0].args[0], x.args[0][0].args[1]) if x.args[0]
                                 else T.seq("list", []), b)
                    return T.mkfor(v, src, inner)
        k = T.flatmap(T.seq("list", [mk("sp", d)]), lambda v: pairs(v, T.item(d, v)))
        return k

    return lift(go, d)


def injective(it, key, v):
    """Do different elements `v` of a duplicate-free source give different keys?"""
    if key is v:
        return True
    return False


# ------------------------------------------------------------------ helper: collect
def collect(it, st, cx, src, fn):
    """List of fn(state, element, ctx) over `src`; UNDEF results are skipped."""
    r = it.new_list(st, [])

    def body(s, elem, c):
        t = fn(s, elem, c)
        if s.live and t is not None:
            s.heap[r] = ("list", T.concat("list", s.heap[r][1], lift(
                lambda x: T.seq("list", [] if x is UNDEF else [T.el(x)]), t)))

    it.loop(src, st, cx, body)
    return r


def reduce_loop(it, st, cx, src, init, fn):
    fid = ("red", T.fresh_rho().args[0])
    st.frames[fid] = {"acc": init}

    def body(s, elem, c):
        s.frames[fid]["acc"] = fn(s, s.frames[fid]["acc"], elem, c)

    it.loop(src, st, cx, body)
    v = st.frames[fid]["acc"] if st.live else UNDEF
    st.frames.pop(fid, None)
    return v


def listof(it, st, x):
    src = it.iter_source(st, x)
    return lift(lambda s: T.seq("list", T.as_segments(s)), src)


def kw_norm(it, st, name, args, kwargs):
    """Positional form of the arguments of an external callable."""
    sig = SIGNATURES.get(name)
    if sig is None:
        return args, kwargs
    names, defaults = sig
    vals = dict(zip(names, args))
    if len(args) > len(names):
        return args, kwargs
    for k, v in kwargs.items():
        if k not in names or k in vals:
            return args, kwargs
        vals[k] = v
    out = []
    for n in names:
        if n in vals and (name, n) not in DISPLAY_ONLY:
            out.append(vals[n])
        elif n in defaults:
            d = defaults[n]
            if (name, n) in DISPLAY_ONLY:
                continue
            out.append(mk("ext", d[4:]) if isinstance(d, str) and d.startswith("ext:") else T.const(d))
        else:
            rest = {k: v for k, v in vals.items() if k not in names[: len(out)]}
            return out, rest
    return out, {}


# ------------------------------------------------------------------ methods
STR_METHODS = {"replace", "strip", "lstrip", "rstrip", "lower", "upper", "title", "split", "startswith", "endswith", "join",
               "format", "removeprefix", "removesuffix", "isdigit", "count", "find", "index", "splitlines", "encode", "capitalize",
               "ljust", "rjust", "center", "zfill"}


def method(it, st, cx, o, name, args, kwargs, node=None):
    if o.op == "app" and o.args[0] == "pathlib.Path" and o.args[1][0].op == "cstr":
        if name in ("resolve", "absolute", "expanduser") and not args:
            return o
        if name in ("joinpath", "with_name"):
            p = path_parts(it, st, [app_attr(it, o, "parent") if name == "with_name" else o, *args])
            if p is not None:
                return T.app("pathlib.Path", (T.string(p),))
    if o.op == "app" and o.args[0] == "logging.Logger" and name == "setLevel":
        it.effect(st, ("logging level", *[T.show(x) for x in o.args[1]], *[T.show(it.freeze(st, x)) for x in args]))
        return NONE
    if o.op == "app" and o.args[0] in STATEFUL and name in ("update", "add", "remove", "discard", "clear", "pop"):
        it.effect(st, ("mutate", T.show(o), name, *[T.show(it.freeze(st, x)) for x in args]))
    if o is UNDEF or not st.live:
        return UNDEF
    if o.op == "ditem":
        return ditem_method(it, st, cx, o, name, args, kwargs)
    if o.op == "ref":
        c = st.heap[o]
        if o in it.oneshot:
            if name == "__next__":
                return _h_next(it, st, cx, [o], {})
            if name == "__iter__":
                return o
            from .interp import Unsupported
            raise Unsupported(f"{name} of an iterator")
        if c[0] == "list":
            return list_method(it, st, cx, o, name, args, kwargs)
        if c[0] == "dict":
            return dict_method(it, st, cx, o, name, args, kwargs)
        if c[0] == "set":
            return set_method(it, st, cx, o, name, args, kwargs)
        if c[1] == BACKEND_FUNCTION and name == "update_parameters":
            new = T.app("updated", (c[2]["parameters"], it.freeze(st, it.content(st, args[0]))))
            st.heap[o] = (c[0], c[1], {**c[2], "parameters": new})
            return NONE
        return NotImplemented
    if o.op in ("fn", "clo") and name == "register":
        return register_call(it, o, args)
    if o.op == "ext" and name == "register":
        return register_call(it, o, args)
    if o.op == "ext" and name == "get_close_matches":
        return NotImplemented
    if o.op == "ext" and o.args[0] == "builtins.dict" and name == "fromkeys":
        val = args[1] if len(args) > 1 else NONE
        src = listof(it, st, args[0])
        return it.new_dict(st, lift(lambda v: T.dict_flatmap(src, lambda k: lift(lambda kk: T.mkdict([T.kv(kk, v)]), k)), val))
    if o.op == "ext" and o.args[0] == "itertools.chain" and name == "from_iterable":
        src = it.iter_source(st, args[0])
        r = T.flatmap(src, lambda x: lift(lambda y: T.seq("list", T.as_segments(y)), it.iter_source(st, x)))
        return it.one_shot(it.new_list(st, r))
    if o.op == "super":
        return NotImplemented
    if name == "__getitem__" and len(args) == 1:
        return it.getitem(st, cx, o, args[0])
    if T.is_str(o) or (it.kind(st, o) == "str"):
        return str_method(it, st, cx, o, name, args, kwargs)
    cls = it.obj_class(st, o)
    if cls is not None and cls in it.cls:
        if it.cls[cls].kind == "typeddict":
            return value_dict_method(it, st, cx, o, name, args, kwargs, typed=True)
        return NotImplemented
    k = it.kind(st, o)
    if k == "dict":
        return value_dict_method(it, st, cx, o, name, args, kwargs)
    if k == "set" or is_keys(o):
        return value_set_method(it, st, cx, o, name, args, kwargs)
    if k in ("list", "tuple") or o.op == "seq":
        return value_seq_method(it, st, cx, o, name, args, kwargs)
    if o.op in ("num",) and name == "is_integer":
        return T.boolean(o.args[0].denominator == 1)
    if name in ("items", "keys", "values") and not args and o.op in ("sym", "attr", "item", "bv", "app", "mcall", "call", "first"):
        return it.new_list(st, dict_items(it, o, name)) if name != "keys" else mk("app", "keyset", (o,), ())
    if o.op in ("ext", "mod", "cls", "fn", "clo", "bound", "rec", "super"):
        return NotImplemented
    if name == "doit" and not args and not kwargs and False:
        return NotImplemented
    # unknown object: uninterpreted (pure) method
    cls = it.obj_class(st, o)
    if cls is not None and cls in it.cls:
        return NotImplemented
    return it.generic_mcall(st, o, name, args, kwargs)


def register_call(it, disp, args):
    (typ,) = args[:1]
    if len(args) == 2:
        it.register(disp, typ, args[1])
        return args[1]
    if typ.op in ("fn", "clo"):
        fi = it.fn[typ.args[0]]
        p = (fi.node.args.posonlyargs + fi.node.args.args)[0]
        t = it.ann_name(p.annotation, fi.module)
        it.register(disp, t, typ)
        return typ
    return mk("registrar", disp, typ)


def list_method(it, st, cx, o, name, args, kwargs):
    cur = st.heap[o][1]

    def put(v):
        st.heap[o] = ("list", v)
        return NONE

    if name == "append":
        return put(T.concat("list", cur, lift(lambda x: T.seq("list", [T.el(x)]), args[0])))
    if name in ("extend", "__iadd__"):
        src = listof(it, st, args[0])
        return put(T.concat("list", cur, src))
    if name == "insert":
        i = args[0]
        es = T.seq_elements(cur) if cur.op == "seq" else None
        if i is ZERO:
            return put(T.concat("list", lift(lambda x: T.seq("list", [T.el(x)]), args[1]), cur))
        if es is not None and T.is_int(i):
            es = list(es)
            es.insert(T.int_of(i), args[1])
            return put(T.seq_lift("list", es))

        def ins(c, x):
            segs = list(c.args[1])
            n = T.int_of(i)
            if all(s.op == "el" for s in segs[:n]) and n <= len(segs) and n >= 0:
                return T.seq("list", segs[:n] + [T.el(x)] + segs[n:])
            raise_unsupported("insert")

        return put(lift(ins, cur, args[1]))
    if name == "copy":
        return it.new_list(st, cur)
    if name == "clear":
        return put(T.seq("list", []))
    if name == "sort":
        r = do_sorted(it, st, cx, o, kwargs)
        return put(it.content(st, r))
    if name == "reverse":
        return put(rev(cur))
    if name == "pop":
        end = not args or args[0] is T.MINUS_ONE
        if not end and not T.is_int(args[0]):
            raise_unsupported("pop")
        at = 0 if end else T.int_of(args[0])

        def pop(c):
            segs = list(c.args[1]) if c.op == "seq" else [mk("sp", c)]
            if not segs:
                return UNDEF, c
            if end and segs[-1].op == "el":
                return segs[-1].args[0], T.seq("list", segs[:-1])
            if not end and 0 <= at < len(segs) and all(x.op == "el" for x in segs[:at + 1]):
                return segs[at].args[0], T.seq("list", segs[:at] + segs[at + 1:])
            if not end and at >= 0 and all(x.op == "el" for x in segs):
                return UNDEF, c
            raise_unsupported("pop")

        v, r = lift(lambda c: pop(c)[0], cur), lift(lambda c: pop(c)[1], cur)
        miss = T.condition_of_leaf(v, lambda x: x is UNDEF)
        if miss is not FALSE:
            it.raise_(st, cx, "IndexError", miss)
            if not st.live:
                return UNDEF
            v = T.drop_undef(v)
        put(r)
        return v
    if name in ("index", "count"):
        return T.app("list." + name, (it.freeze(st, cur), it.freeze(st, args[0])))
    if name == "remove":
        raise_unsupported("list.remove")
    return it.generic_mcall(st, o, name, args, kwargs)


def raise_unsupported(what):
    from .interp import Unsupported

    raise Unsupported(what)


def rev(cur):
    def go(c):
        if c.op == "seq" and all(s.op == "el" for s in c.args[1]):
            return T.seq("list", tuple(reversed(c.args[1])))
        return T.seq("list", [mk("sp", mk("app", "reversed", (c,), ()))])

    return lift(go, cur)


def dict_method(it, st, cx, o, name, args, kwargs):
    cell = st.heap[o]
    cur = cell[1]
    if name in ("items", "values"):
        return it.new_list(st, dict_items(it, cur, name))
    if name == "keys":
        return mk("app", "keyset", (it.freeze(st, cur),), ()) if not it._has_ref(cur) else it.new_list(st, dict_items(it, cur, "keys"))
    if name == "get":
        k = it.freeze(st, args[0])
        d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        return T.dict_get(cur, k, d)
    if name in ("__getitem__",):
        return it.getitem(st, cx, o, args[0])
    if name in ("__setitem__",):
        it.setitem(st, cx, o, args[0], args[1])
        return NONE
    if name == "update":
        d = cur
        for a in args:
            d = T.dict_update(d, to_dict_value(it, st, a))
        for k, v in kwargs.items():
            d = T.dict_store(d, T.string(k), v)
        st.heap[o] = ("dict", d, cell[2])
        return NONE
    if name == "setdefault":
        k = it.freeze(st, args[0])
        d = args[1] if len(args) > 1 else NONE
        v = T.dict_get(cur, k, d)
        has = T.contains(k, cur)
        st.heap[o] = ("dict", ite(has, cur, T.dict_store(cur, k, d)), cell[2])
        if v.op != "ref" and any(x.op in ("ref", "seq", "set", "dict") for x in T.leafset(v)) \
                or has is not TRUE and any(x.op == "ref" for x in T.leafset(v)):
            # the stored container is used as an lvalue
            return mk("ditem", o, k)
        return v
    if name == "copy":
        return it.new_dict(st, cur, cell[2])
    if name == "clear":
        st.heap[o] = ("dict", T.mkdict([]), cell[2])
        return NONE
    if name == "pop":
        k = it.freeze(st, args[0])
        v = T.dict_get(cur, k, args[1] if len(args) > 1 else UNDEF)

        def rm(d):
            segs = d.args[0]
            if d.op == "dict" and all(s.op == "kv" and (s.args[0] is k or T.distinct(s.args[0], k)) for s in segs):
                return mk("dict", tuple(s for s in segs if s.args[0] is not k))
            raise_unsupported("dict.pop")

        st.heap[o] = ("dict", lift(rm, cur), cell[2])
        if any(x is UNDEF for x in T.leafset(v)):
            miss = T.condition_of_leaf(v, lambda x: x is UNDEF)
            it.raise_(st, cx, "KeyError", miss)
            v = T.drop_undef(v) if st.live else UNDEF
        return v
    return it.generic_mcall(st, o, name, args, kwargs)


def to_dict_value(it, st, a):
    a = it.content(st, a)

    def go(x):
        if x.op == "dict":
            return x
        typ = it.typeof(x)
        if typ is not None and typ[0] == "dict":
            return T.mkdict([mk("sp", x)])
        if x.op in ("seq",) or (typ is not None and typ[0] in ("list", "iter", "tuple*", "tuple")):
            return T.dict_flatmap(T.seq("list", T.as_segments(x)), lambda p: lift(
                lambda k, v: T.mkdict([T.kv(k, v)]), T.item(p, ZERO), T.item(p, ONE)))
        return T.mkdict([mk("sp", x)])

    return lift(go, a)


def set_method(it, st, cx, o, name, args, kwargs):
    cur = st.heap[o][1]

    def put(v):
        st.heap[o] = ("set", v)
        return NONE

    if name == "add":
        x = it.freeze(st, args[0])
        return put(lift(lambda s, v: T.mkset(s.args[0] + (T.el(v),)), cur, x))
    if name == "update":
        for a in args:
            src = it.freeze(st, listof(it, st, a))
            cur = lift(lambda s, q: T.mkset(s.args[0] + q.args[1]), cur, src)
        return put(cur)
    if name in ("discard", "remove"):
        x = it.freeze(st, args[0])
        if name == "remove":
            it.raise_(st, cx, "KeyError", NOT(T.contains(x, cur)))
        return put(set_op(it, "Sub", cur, T.mkset([T.el(x)])))
    if name == "copy":
        return it.new_set(st, cur)
    if name == "pop":
        return T.first(lift(lambda s: T.seq("list", T.as_segments(s)), cur))
    return value_set_method(it, st, cx, cur, name, args, kwargs)


def value_set_method(it, st, cx, o, name, args, kwargs):
    vals = [it.freeze(st, it.content(st, a)) for a in args]
    o = it.freeze(st, o)
    ops = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}
    if name in ops:
        for v in vals:
            o = set_op(it, ops[name], o, v)
        return it.new_set(st, o)
    if name in ("issubset", "issuperset", "isdisjoint"):
        (b,) = vals
        a, b = lift(lambda x: as_set(it, x), o), lift(lambda x: as_set(it, x), b)
        if name == "issuperset":
            a, b = b, a
        if name == "isdisjoint":
            return NOT(T.exists(a, lambda e: T.contains(e, b)))
        return NOT(T.exists(a, lambda e: NOT(T.contains(e, b))))
    if name == "copy":
        return it.new_set(st, o)
    return it.generic_mcall(st, o, name, args, kwargs)


def value_dict_method(it, st, cx, o, name, args, kwargs, typed=False):
    if name in ("items", "values"):
        return it.new_list(st, dict_items(it, o, name))
    if name == "keys":
        return mk("app", "keyset", (o,), ())
    if name == "get":
        k = it.freeze(st, args[0])
        d = args[1] if len(args) > 1 else NONE
        return T.dict_get(o, k, d)
    if name == "copy":
        return it.new_dict(st, o if o.op == "dict" else T.mkdict([mk("sp", o)]))
    if name in ("update", "pop", "clear", "setdefault", "__setitem__", "popitem"):
        it.effect(st, ("mutate", T.show(it.freeze(st, o), 4), name))
        return it.generic_mcall(st, o, name, args, kwargs)
    return it.generic_mcall(st, o, name, args, kwargs)


def value_seq_method(it, st, cx, o, name, args, kwargs):
    n = it.arity(o) if name in ("_replace", "_asdict") else None
    if n is not None:
        cs = [q for q, ci in it.cls.items() if ci.kind == "namedtuple" and len(it.all_fields(q)) == n]
        names = [f.name for f in it.all_fields(cs[0])] if len(cs) == 1 else []
        if args or len(cs) != 1 or set(kwargs) - set(names) or (name == "_asdict" and kwargs):
            raise_unsupported(f"{name} of a tuple")
        vals = [kwargs.get(f, T.item(o, T.num(i))) for i, f in enumerate(names)]
        if name == "_asdict":
            return it.new_dict(st, T.mkdict([T.kv(T.string(f), v) for f, v in zip(names, vals)]))
        return T.concat("tuple", *[lift(lambda x: T.seq("list", [T.el(x)]), v) for v in vals])
    if name in ("append", "extend", "insert", "sort", "reverse", "pop", "remove", "clear"):
        it.effect(st, ("mutate", T.show(it.freeze(st, o), 4), name))
        return NONE
    if name == "copy":
        return it.new_list(st, T.seq("list", T.as_segments(o)))
    return T.app("list." + name, (it.freeze(st, o), *[it.freeze(st, a) for a in args]))


def ditem_method(it, st, cx, o, name, args, kwargs):
    """Method call on the value stored under a (possibly missing) key."""
    ref, key = o.args
    cell = st.heap[ref]
    if cell[2] is not None:
        val = it.ditem_value(st, cx, o)
    else:
        val = T.dict_get(cell[1], key, UNDEF)
        val = T.drop_undef(val)
    if any(x.op == "ref" for x in T.leafset(val)):
        val = it.freeze(st, val)
    kinds = {x.op if x.op != "item" else None for x in T.leafset(val)}
    # operate on a temporary object, then store
    def on(v):
        return v

    first = T.leafset(val)
    kind = "set" if any(x.op == "set" for x in first) else "dict" if any(x.op == "dict" for x in first) else "list"
    tmp = it.alloc(st, (kind, val, None) if kind == "dict" else (kind, val))
    r = method(it, st, cx, tmp, name, args, kwargs)
    if not st.live:
        return UNDEF
    new = st.heap[tmp][1]
    cell = st.heap[ref]
    if new is not val:
        st.heap[ref] = ("dict", T.dict_store(cell[1], key, new), cell[2])
    return r


PERCENT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\d*)(\.\d+)?([a-zA-Z%])")


def percent(it, st, s, b):
    """`s % b` for a constant `s`, written as a format; None if it is not of a simple form."""
    if s.op != "cstr":
        return None
    v = it.content(st, b)
    named = v.op == "dict"
    es = None if named else T.seq_elements(v) if v.op == "seq" and v.args[0] == "tuple" else [b]
    typ = it.typeof(v)
    if v.op != "seq" and not named and typ and typ[0] == "tuple":
        es = [T.item(v, T.num(i)) for i in range(len(typ[1]))]
    if not named and (es is None or v.op == "ite"):
        return None
    parts, at, n = [], 0, 0
    for m in PERCENT.finditer(s.args[0]):
        if "%" in s.args[0][at:m.start()]:
            return None
        parts.append(T.string(s.args[0][at:m.start()]))
        at = m.end()
        key, flags, width, prec, kind = m.groups()
        if kind == "%":
            parts.append(T.string("%"))
            continue
        if named != (key is not None):
            return None
        if named:
            x = T.dict_get(v, T.string(key), T.UNDEF)
            if x is T.UNDEF:
                return None
        else:
            if n >= len(es):
                return None
            x = es[n]
            n += 1
        x = it.freeze(st, x)
        if flags or width or kind not in "sdirfgeE":
            return None
        if kind in "sr":
            parts.append(T.fmt(x, "r" if kind == "r" else "", ""))
        elif kind in "di":
            t = it.typeof(x)
            if not (T.is_int(x) or t and t[0] == "int"):
                return None
            parts.append(T.fmt(x, "", ""))
        else:
            parts.append(T.fmt(x, "", (prec or ".6") + kind))
    if "%" in s.args[0][at:] or not named and n != len(es):
        return None
    parts.append(T.string(s.args[0][at:]))
    return T.strcat(*parts)


def str_method(it, st, cx, o, name, args, kwargs):
    o = it.freeze(st, o)
    a = [it.freeze(st, it.content(st, x)) for x in args]
    if name == "join":
        return T.strjoin(o, lift(lambda x: T.seq("list", T.as_segments(x)) if x.op != "seq" else x,
                                 lift(lambda x: iter_normal(it, x), a[0])))
    if name == "format":
        def fm(s):
            if s.op != "cstr":
                return T.app("str.format", (s, *a), tuple(sorted((k, it.freeze(st, v)) for k, v in kwargs.items())))
            parts = []
            import string
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(s.args[0]):
                if lit:
                    parts.append(T.string(lit))
                if field is not None:
                    if field == "":
                        v = a[auto]
                        auto += 1
                    elif field.isdigit():
                        v = a[int(field)]
                    elif re.fullmatch(r"\w+", field) and field in kwargs:
                        v = it.freeze(st, kwargs[field])
                    else:
                        return T.app("str.format", (s, *a), tuple(sorted((k, it.freeze(st, v)) for k, v in kwargs.items())))
                    parts.append(T.fmt(v, conv or "", spec or ""))
            return T.strcat(*parts)

        return lift(fm, o)
    if name in STR_METHODS:
        def go(s, *xs):
            if s.op == "cstr" and all(x.op in ("cstr", "num") for x in xs):
                try:
                    r = getattr(s.args[0], name)(*[x.args[0] if x.op == "cstr" else T.int_of(x) for x in xs])
                except Exception:
                    return T.app("str." + name, (s, *xs))
                if isinstance(r, list):
                    return T.seq("list", [T.el(T.string(y)) for y in r])
                return T.const(r)
            if name == "replace" and len(xs) == 2:
                return T.replaced(s, *xs)
            return T.app("str." + name, (s, *xs))

        r = lift(go, o, *a)
        return r
    return it.generic_mcall(st, o, name, args, kwargs)


# ------------------------------------------------------------------ calls of external callables
STATEFUL = {"qrules.load_default_particles", "qrules.io.load"}
IGNORED = ("logging.", "builtins.print")
EFFECTS = {"warnings.filterwarnings", "warnings.simplefilter", "jax.config.update"}


def call_ext(it, st, cx, name, args, kwargs, node=None):
    name = canon(name)
    it.stats["external_calls"].add(name)
    h = HANDLERS.get(name)
    if h is not None:
        r = h(it, st, cx, args, kwargs)
        if r is not NotImplemented:
            return r
    short = name.split(".")[-1]
    if name.startswith("builtins.") and short in it_exc(it):
        return mk("app", "exc:" + short, (), ())
    if name.startswith("logging."):
        return mk("app", name, (), ())
    if name in EFFECTS:
        for i, a in enumerate(args[:6]):
            if name == "warnings.filterwarnings":
                kwargs = {**kwargs, ("action", "message", "category", "module", "lineno", "append")[i]: a}
        if name == "warnings.filterwarnings":
            args = [kwargs.pop("action", T.string(""))]
        it.effect(st, (name, *[T.show(it.freeze(st, a)) for a in args],
                       *[f"{k}={T.show(it.freeze(st, v))}" for k, v in sorted(kwargs.items())]))
        return NONE
    if name in it.dispatchers:
        return dispatch_ext(it, st, cx, name, args, kwargs)
    args, kwargs = kw_norm(it, st, name, args, kwargs)
    fa = tuple(it.freeze(st, a) for a in args)
    fk = tuple((k, it.freeze(st, v)) for k, v in kwargs.items())
    n = name[len("builtins."):] if name.startswith("builtins.") else name
    return T.app(n, fa, fk)


def it_exc(it):
    from .interp import BUILTIN_EXC

    return BUILTIN_EXC


def dispatch_ext(it, st, cx, name, args, kwargs):
    """External single-dispatch function that the program extends."""
    regs = sorted(it.dispatchers[name], key=lambda r: -it.specificity(r[0]))
    x = args[0]
    same = sum(1 for q in it.stack if q[0] == name)

    def default(s):
        v = it.content(s, x)
        v = iter_normal(it, v)

        def go(leaf):
            if T.is_str(leaf) or it.kind(s, leaf) == "str":
                return leaf
            return T.app(name, (it.freeze(s, leaf),), tuple((k, it.freeze(s, y)) for k, y in kwargs.items()))

        return lift(go, v)

    def rec(s, i, x):
        if i == len(regs):
            return default(s)
        typ, f = regs[i]
        c = isinstance_term(it, s, x, typ)
        return it.branch(s, c, lambda s2: it.call_fn(s2, f, [x, *args[1:]], dict(kwargs), cx.ex), lambda s2: rec(s2, i + 1, x))

    typ = it.typeof(x) if x.op != "ref" else ("x",)
    if same >= 4 or (same >= 1 and (typ is None or typ[0] in ("any",))):
        return default(st)
    it.stack.append((name, None))
    try:
        return it.cases(st, x, lambda s, leaf: rec(s, 0, leaf))
    finally:
        it.stack.pop()


def _h_len(it, st, cx, a, k):
    if any(x in it.oneshot for x in T.leafset(a[0])):
        from .interp import Unsupported
        raise Unsupported("length of an iterator")
    x = it.content(st, a[0])

    def go(v):
        if v.op == "seq" and T.seq_elements(v) is not None:
            return T.num(len(v.args[1]))
        if v.op == "set":
            es = T.set_elements(v)
            if es is not None and all(T.distinct(p, q) for i, p in enumerate(es) for q in es[:i]):
                return T.num(len(es))
        if v.op == "dict" and all(s.op == "kv" for s in v.args[0]):
            ks = [s.args[0] for s in v.args[0]]
            if all(T.distinct(p, q) for i, p in enumerate(ks) for q in ks[:i]):
                return T.num(len(ks))
        if v.op == "cstr":
            return T.num(len(v.args[0]))
        if v.op == "seq" and len(v.args[1]) == 1 and v.args[1][0].op == "sp" and v.args[1][0].args[0].op == "fold":
            u = T.uniques(v.args[1][0].args[0])
            if u is not None and u[1]:
                return lift(go, lift(lambda s: T.mkset(s.args[1]), u[0]))
        if v.op == "seq":
            parts = [segment(s) for s in v.args[1]]
            if all(p is not None for p in parts):
                return T.add(*parts)
        typ = it.typeof(v)
        if typ is not None and typ[0] == "tuple":
            return T.num(len(typ[1]))
        if is_keys(v):
            v = v.args[1][0]
        return T.app("len", (it.freeze(st, v),))

    def segment(s):
        """Number of elements of a segment of a sequence, in terms of its source."""
        if s.op == "el":
            return T.ONE
        if s.op == "sp":
            return lift(go, T.unordered(s.args[0]))
        if s.op == "for" and s.args[2].op == "seq":
            each = T.seq_elements(s.args[2])
            if each is not None and len(each):
                return T.mul(T.num(len(each)), lift(go, T.unordered(s.args[1])))
        return None

    return lift(go, x)


def do_sorted(it, st, cx, x, kwargs):
    src = it.freeze(st, it.iter_source(st, x))
    key = kwargs.get("key")
    reverse = kwargs.get("reverse", FALSE)
    key_memo = {}

    def keyof(s, e):
        if key is None or key is NONE:
            return e
        return it.freeze(s, it.call(s, cx, key, [e], {}))

    def go(s, v):
        if v.op == "app" and v.args[0] in ("sorted",) and key is None and reverse is FALSE:
            if not v.args[2]:
                return it.new_list(s, v)
            v = v.args[1][0]
        if v.op == "seq" and len(v.args[1]) == 1 and v.args[1][0].op == "sp":
            v = v.args[1][0].args[0]
            if v.op == "app" and v.args[0] == "sorted" and key is None and reverse is FALSE and not v.args[2]:
                return it.new_list(s, T.seq("list", [mk("sp", v)]))
        if is_keys(v):
            v = v.args[1][0]
        if v.op == "dict" and all(q.op == "kv" for q in v.args[0]) and (key is None or key is NONE):
            v = T.mkset([T.el(q.args[0]) for q in v.args[0]])
        es = T.seq_elements(v) if v.op == "seq" else T.set_elements(v) if v.op == "set" else None
        if es is None and v.op == "dict" and all(q.op == "kv" for q in v.args[0]):
            es = [q.args[0] for q in v.args[0]]
        if es is not None:
            if v.op == "set":
                # elements that are not known to be different may coincide
                distinct = all(T.distinct(p, q) for i, p in enumerate(es) for q in es[:i])
            else:
                distinct = True
            if len(es) <= 1:
                return it.new_list(s, [T.el(e) for e in es])
            ks = [keyof(s, e) for e in es]
            if v.op == "seq" and not all(_orderable(q) for q in ks):
                # pairs are compared from left to right: the first parts decide if they are different
                pre = [_prefix(q) for q in ks]
                n = min(map(len, pre))
                if n and len({tuple(q[:n]) for q in pre}) == len(ks):
                    order = sorted(range(len(es)), key=lambda i: tuple(pre[i][:n]), reverse=reverse is TRUE)
                    return it.new_list(s, [T.el(es[i]) for i in order])
            if distinct and all(_orderable(q) for q in ks):
                order = sorted(range(len(es)), key=lambda i: _okey(ks[i]), reverse=reverse is TRUE)
                return it.new_list(s, [T.el(es[i]) for i in order])
            if v.op == "seq" and 1 < len(es) <= 5:
                r = sort_network(es, ks, reverse is TRUE)
                if r is not None:
                    return it.new_list(s, r)
        kw = []
        if key is not None and key is not NONE:
            typ = it.elem_type(v)
            b = T.fresh_bv(typ)
            s2 = s.fork()
            kt = keyof(s2, b)
            kw.append(("key", T.mklam([b], kt)))
        if reverse is not FALSE:
            kw.append(("reverse", reverse))
        src = v if v.op != "seq" else T.seq("list", v.args[1])
        return it.new_list(s, T.seq("list", [mk("sp", T.app("sorted", (src,), tuple(kw)))]))

    return it.cases(st, src, go)


def sort_network(es, ks, reverse):
    """Sorting a short sequence of numbers with gates (ties keep the order)."""
    return None


def _orderable(k):
    if k.op == "seq":
        return all(s.op == "el" and _orderable(s.args[0]) for s in k.args[1])
    return T.is_num(k) or k.op == "cstr"


def _prefix(k):
    out = []
    if k.op == "seq":
        for s in k.args[1]:
            if s.op != "el" or not _orderable(s.args[0]):
                break
            out.append(_okey(s.args[0]))
    return out


def _okey(k):
    if k.op == "seq":
        return tuple(_okey(s.args[0]) for s in k.args[1])
    return k.args[0]


def _h_sorted(it, st, cx, a, k):
    return do_sorted(it, st, cx, a[0], k)


def _best(it, st, cx, which, a, k):
    key = k.get("key")
    default = k.get("default")
    if len(a) > 1:
        if key is None:
            return T.app(which, tuple(it.freeze(st, x) for x in a))
        src = T.seq("list", [T.el(x) for x in a])
    else:
        src = it.iter_source(st, a[0])
    src = it.freeze(st, src)

    def go(s, v):
        if is_keys(v):
            v = v.args[1][0]
        if v.op == "dict" and all(q.op == "kv" for q in v.args[0]):
            v = T.seq("list", [T.el(q.args[0]) for q in v.args[0]])
        es = T.seq_elements(v) if v.op == "seq" else T.set_elements(v) if v.op == "set" else None
        if es is not None:
            if not es:
                if default is not None:
                    return default
                it.raise_(s, cx, "ValueError")
                return UNDEF
            ks = [e if key is None or key is NONE else it.freeze(s, it.call(s, cx, key, [e], {})) for e in es]
            if len(es) == 1:
                return es[0]
            if all(_orderable(q) for q in ks):
                f = max if which == "max" else min
                i = f(range(len(es)), key=lambda i: _okey(ks[i]))
                return es[i]
            if key is None and all(it.typeof(e) and it.typeof(e)[0] in ("int", "num") for e in es):
                return T.app(which, tuple(es))
            if v.op == "seq" and len(es) <= 4:
                # comparison by comparison, first extremum wins
                best, bk = es[0], ks[0]
                for e, q in zip(es[1:], ks[1:]):
                    c = less(it, s, cx, bk, q) if which == "max" else less(it, s, cx, q, bk)
                    best, bk = ite(c, e, best), ite(c, q, bk)
                return best
        segs = T.as_segments(v)
        whole = T.seq("list", segs)
        if len(segs) == 1 and segs[0].op == "for":
            level, sr, body = segs[0].args
            b = T.fresh_bv(it.elem_type(sr), sr)
            bd = T._replace_level(body, level, b)
            if bd.op == "seq" and len(bd.args[1]) == 1 and bd.args[1][0].op == "el":
                res = bd.args[1][0].args[0]
                kt = res if key is None or key is NONE else it.freeze(s, it.call(s.fork(), cx, key, [res], {}))
                if kt.op != "ite" and res.op != "ite":
                    return T.mkarg(b, which, sr, kt, res)
        sr = segs[0].args[0] if len(segs) == 1 and segs[0].op == "sp" else whole
        b = T.fresh_bv(it.elem_type(sr), sr)
        kt = b if key is None or key is NONE else it.freeze(s, it.call(s.fork(), cx, key, [b], {}))
        r = T.mkarg(b, which, sr, kt, b)
        if default is not None:
            return ite(T.nonempty(sr), r, default)
        return r

    return it.cases(st, src, go)


def less(it, st, cx, a, b):
    return it.compare(st, cx, "Lt", a, b)


def _h_sum(it, st, cx, a, k):
    start = a[1] if len(a) > 1 else k.get("start", ZERO)
    src = it.iter_source(st, a[0])
    # objects with their own addition are added one by one
    s = lift(lambda v: T.seq("list", T.as_segments(v)), src)
    if any(any(g.op == "el" and it.kind(st, g.args[0]) in ("rec", "list", "tuple") for g in leaf.args[1]) for leaf in T.leafset(s)):
        return reduce_loop(it, st, cx, s, start, lambda s2, acc, e, c: it.binop(s2, c, "Add", acc, e))
    return T.add(start, T.big("SUM", it.freeze(st, s)))


def _h_prod(it, st, cx, a, k):
    start = a[1] if len(a) > 1 else k.get("start", ONE)
    s = it.freeze(st, listof(it, st, a[0]))
    return T.mul(start, T.big("PROD", s))


def part_of(it, st, x):
    """Contents of a collection of which as much is used as is needed."""
    src = listof(it, st, x)
    for r in T.leafset(x):
        if r in it.oneshot:
            st.heap[r] = ("list", mk("used", src))
    return src


def _h_any(it, st, cx, a, k):
    src = part_of(it, st, a[0])
    return T.exists(it.freeze(st, src), lambda x: it.truth_of(st, cx, x))


def _h_all(it, st, cx, a, k):
    src = part_of(it, st, a[0])
    return NOT(T.exists(it.freeze(st, src), lambda x: NOT(it.truth_of(st, cx, x))))


def _h_zip(it, st, cx, a, k):
    strict = k.get("strict", FALSE) is TRUE
    srcs = [listof(it, st, x) for x in a]

    def go(*vs):
        es = [T.seq_elements(v) for v in vs]
        if all(e is not None for e in es):
            n = min(len(e) for e in es)
            if strict and len({len(e) for e in es}) > 1:
                return mk("raise", "ValueError", ())
            return T.seq("list", [T.el(T.seq_lift("tuple", [e[i] for e in es])) for i in range(n)])
        known = [len(e) for e in es if e is not None]
        if known and not all(e is not None for e in es):
            n = min(known)
            out = []
            cols = []
            for v, e in zip(vs, es):
                if e is not None:
                    cols.append(e[:n])
                else:
                    base = v.args[1][0].args[0] if len(v.args[1]) == 1 and v.args[1][0].op == "sp" else v
                    cols.append([T.item(base, T.num(i)) for i in range(n)])
            # the lengths are assumed to agree (or zip truncates at the known one)
            if strict:
                pass
            return T.seq("list", [T.el(T.seq_lift("tuple", [c[i] for c in cols])) for i in range(n)])
        plain = [it.freeze(st, v) for v in vs]
        rows = parallel(plain)
        if rows is not None:
            return rows
        base = numbered(plain)
        if base is not None:
            # elements next to their positions: an enumeration
            e = mk("app", "enumerate", (bare(base),), ())
            v = T.fresh_bv(it.elem_type(e), e)
            parts = [T.item(v, ONE if p is base else ZERO) for p in plain]
            return T.mkfor(v, e, T.seq("list", [T.el(T.seq_lift("tuple", parts))]))
        return T.seq("list", [mk("sp", mk("app", "zip", tuple(plain), ()))])

    def parallel(vs):
        """Columns that are computed from the same collection, element by element."""
        source, cols = None, []
        for v in vs:
            segs = v.args[1] if v.op == "seq" else (mk("sp", v),)
            if len(segs) != 1 or segs[0].op not in ("sp", "for"):
                return None
            src = segs[0].args[0] if segs[0].op == "sp" else segs[0].args[1]
            if is_keys(src):
                src = src.args[1][0]
            if source is not None and src is not source:
                return None
            source = src
            cols.append(segs[0])
        if all(c.op == "sp" for c in cols):
            return None
        x = T.fresh_bv(it.elem_type(source), source)
        out = []
        for c in cols:
            if c.op == "sp":
                out.append(x)
                continue
            level, _, body = c.args
            b = T._replace_level(body, level, x)
            if any(len(leaf.args[1]) != 1 or leaf.args[1][0].op != "el" for leaf in T.leafset(b)):
                return None
            out.append(lift(lambda leaf: leaf.args[1][0].args[0], b))
        return T.mkfor(x, source, lift(lambda t: T.seq("list", [T.el(t)]), T.seq_lift("tuple", out)))

    def numbered(vs):
        rs = [bare(v) for v in vs]
        ranges = {r for r in rs if r.op == "app" and r.args[0] == "range"}
        others = [v for v, r in zip(vs, rs) if r not in ranges]
        if len(ranges) != 1 or not others or any(o is not others[0] for o in others):
            return None
        lo, hi, step = ranges.pop().args[1]
        if lo is ZERO and step is ONE and T.is_len(hi) and T.unordered(bare(others[0])) is hi.args[1][0]:
            return others[0]
        return None

    def bare(v):
        return v.args[1][0].args[0] if v.op == "seq" and len(v.args[1]) == 1 and v.args[1][0].op == "sp" else v

    r = lift(go, *srcs)
    bad = T.condition_of_leaf(r, lambda x: x.op == "raise") if any(x.op == "raise" for x in T.leafset(r)) else FALSE
    if bad is not FALSE:
        it.raise_(st, cx, "ValueError", bad)
        if not st.live:
            return UNDEF
        r = T.drop_undef(lift(lambda x: UNDEF if x.op == "raise" else x, r))
    return it.new_list(st, r)


def _h_enumerate(it, st, cx, a, k):
    start = a[1] if len(a) > 1 else k.get("start", ZERO)
    src = listof(it, st, a[0])

    def go(v):
        out = []
        for i, s in enumerate(v.args[1]):
            if s.op != "el":
                rest = T.seq("list", v.args[1][i:])
                rest = rest.args[1][0].args[0] if len(rest.args[1]) == 1 and rest.args[1][0].op == "sp" else rest
                off = T.add(start, T.num(i))
                out.append(mk("sp", mk("app", "enumerate", (it.freeze(st, rest),) + ((off,) if off is not ZERO else ()), ())))
                break
            out.append(T.el(T.seq_lift("tuple", [T.add(start, T.num(i)), s.args[0]])))
        return T.seq("list", out)

    return it.new_list(st, lift(go, src))


def _h_range(it, st, cx, a, k):
    a = [it.freeze(st, x) for x in a]
    if all(T.is_int(x) for x in a):
        return it.new_list(st, [T.el(T.num(i)) for i in range(*[T.int_of(x) for x in a])])

    def go(*xs):
        if all(T.is_int(x) for x in xs):
            return T.seq("list", [T.el(T.num(i)) for i in range(*[T.int_of(x) for x in xs])])
        lo, hi = (ZERO, xs[0]) if len(xs) == 1 else xs[:2]
        stp = xs[2] if len(xs) > 2 else ONE
        return T.seq("list", [mk("sp", mk("app", "range", (lo, hi, stp), ()))])

    return it.new_list(st, lift(go, *a))


def _h_map(it, st, cx, a, k):
    f = a[0]
    if len(a) > 2:
        z = _h_zip(it, st, cx, a[1:], {})
        return collect(it, st, cx, z, lambda s, e, c: it.call(s, c, f, [x.args[0] for x in e.args[1]] if e.op == "seq"
                                                              else [T.item(e, T.num(i)) for i in range(len(a) - 1)], {}))
    return collect(it, st, cx, a[1], lambda s, e, c: it.call(s, c, f, [e], {}))


def _h_filter(it, st, cx, a, k):
    f = a[0]

    def one(s, e, c):
        t = e if f is NONE else it.call(s, c, f, [e], {})
        cond = it.truth_of(s, c, t)
        return ite(cond, e, UNDEF)

    return collect(it, st, cx, a[1], one)


def _h_next(it, st, cx, a, k):
    if a[0] in it.oneshot:
        src = st.heap[a[0]][1]
        es = src.args[1] if src.op == "seq" else None
        it.consume(st, a[0], () if es == () else es[1:] if es and es[0].op == "el" else None)
    else:
        src = it.iter_source(st, a[0])
    r = T.first(src, default=a[1] if len(a) > 1 else UNDEF)
    ls = T.leafset(r)
    if any(x is UNDEF for x in ls):
        it.raise_(st, cx, "StopIteration", T.condition_of_leaf(r, lambda x: x is UNDEF))
        if not st.live:
            return UNDEF
        r = T.drop_undef(r)
    elif len(a) == 1 and cx.in_try:
        it.raise_(st, cx, "StopIteration", NOT(T.nonempty(src)))
    return r


def _h_iter(it, st, cx, a, k):
    if a[0] in it.oneshot:
        return a[0]
    return it.one_shot(it.new_list(st, listof(it, st, a[0])))


def one_shot(h):
    """Model of a callable that returns an iterator."""
    def handler(it, st, cx, a, k):
        used = [x for t in a for x in T.leafset(t) if x in it.oneshot]
        if len(set(used)) < len(used):
            from .interp import Unsupported
            raise Unsupported("one iterator given twice")
        r = h(it, st, cx, a, k)
        if h is _h_zip or h is ISLICE:
            for x in used:
                st.heap[x] = ("list", mk("used", st.heap[x][1]))
        return r if r is NotImplemented else it.one_shot(r)

    return handler


def _h_tuple(it, st, cx, a, k):
    if not a:
        return T.seq("tuple", [])
    src = it.iter_source(st, a[0])
    return lift(lambda v: T.seq("tuple", T.as_segments(v)), src)


def _h_list(it, st, cx, a, k):
    if not a:
        return it.new_list(st, [])
    return it.new_list(st, listof(it, st, a[0]))


def _h_set(it, st, cx, a, k):
    if not a:
        return it.new_set(st, T.mkset([]))
    src = it.freeze(st, it.iter_source(st, a[0]))
    return it.new_set(st, lift(lambda v: v if v.op == "set" else as_set(it, v), src))


def _h_frozenset(it, st, cx, a, k):
    return it.content(st, _h_set(it, st, cx, a, k))


def _h_dict(it, st, cx, a, k):
    d = T.mkdict([])
    for x in a:
        d = T.dict_update(d, to_dict_value(it, st, x))
    for n, v in k.items():
        d = T.dict_update(d, to_dict_value(it, st, v)) if n == "**" else T.dict_store(d, T.string(n), v)
    return it.new_dict(st, d)


def _h_frozendict(it, st, cx, a, k):
    r = it.freeze(st, it.content(st, _h_dict(it, st, cx, a, k)))
    return r


def _h_defaultdict(it, st, cx, a, k):
    r = _h_dict(it, st, cx, a[1:], k)
    st.heap[r] = ("dict", st.heap[r][1], a[0] if a and a[0] is not NONE else None)
    return r


def _h_isinstance(it, st, cx, a, k):
    return isinstance_term(it, st, a[0], a[1])


def _h_issubclass(it, st, cx, a, k):
    x, y = a
    if x.op == "cls" and y.op in ("cls", "ext"):
        return T.boolean(y.args[0] in it.mro(x.args[0]))
    if x.op == "ext" and y.op == "cls":
        return FALSE
    if x.op == "ext" and y.op == "ext" and x.args[0].startswith("builtins.") and y.args[0].startswith("builtins."):
        p, q = (getattr(builtins, z.args[0][9:], None) for z in (x, y))
        if isinstance(p, type) and isinstance(q, type):
            return T.boolean(issubclass(p, q))
    return atom(mk("issub", it.freeze(st, x), it.freeze(st, y)))


def _h_type(it, st, cx, a, k):
    return lift(lambda x: type_of(it, st, x), a[0])


def _h_abs(it, st, cx, a, k):
    return T.app("abs", (it.freeze(st, a[0]),))


def _h_numeric(it, st, cx, a, k):
    if not a:
        return ZERO

    def go(x):
        if T.is_num(x) or x.op == "poly":
            return x
        if x.op == "cstr":
            try:
                return T.num(Fraction(x.args[0]))
            except ValueError:
                return T.app("float", (x,))
        typ = it.typeof(x)
        if typ is not None and typ[0] in ("int", "num", "bool"):
            return x
        if typ is not None and typ[0] == "ext" and typ[1] in ("sympy.Rational", "sympy.Integer", "sympy.Float", "complex"):
            return x
        if typ is None or typ[0] in ("any", "ext", "cls"):
            return x if typ is None else T.app("float", (x,))
        return T.app("float", (x,))

    return lift(go, it.freeze(st, a[0]))


def _h_rational(it, st, cx, a, k):
    return T.app("sympy.Rational", tuple(it.freeze(st, x) for x in a))


def _h_int(it, st, cx, a, k):
    def go(x):
        if T.is_num(x) and x.args[1] == 0:
            q = x.args[0]
            return T.num(int(q))
        if x.op == "cstr":
            try:
                return T.num(int(x.args[0]))
            except ValueError:
                pass
        if x.op == "bool":
            return ONE if x is TRUE else ZERO
        typ = it.typeof(x)
        if typ is not None and typ[0] in ("int",):
            return x
        if typ is not None and typ[0] == "lit" and all(T.is_int(v) for v in typ[1]):
            return x
        return T.app("int", (x,))

    return lift(go, it.freeze(st, a[0])) if a else ZERO


def _h_str(it, st, cx, a, k):
    if not a:
        return T.string("")
    return lift(lambda x: x if x.op == "cstr" else T.strcat(T.fmt(x)), it.freeze(st, a[0]))


def _h_repr(it, st, cx, a, k):
    return T.strcat(T.fmt(it.freeze(st, a[0]), "r"))


def _h_bool(it, st, cx, a, k):
    return it.truth_of(st, cx, a[0]) if a else FALSE


def _h_complex(it, st, cx, a, k):
    a = [it.freeze(st, x) for x in a]
    if len(a) == 2 and T.is_num(a[0]) and T.is_num(a[1]):
        return T.add(a[0], T.mul(T.IMAG, a[1]))
    if len(a) == 2:
        return T.add(a[0], T.mul(T.IMAG, a[1]))
    return lift(lambda x: x if T.is_num(x) else T.app("complex", (x,)), a[0])


def _h_reversed(it, st, cx, a, k):
    return it.new_list(st, rev(listof(it, st, a[0])))


def _h_product(it, st, cx, a, k):
    rep = k.get("repeat", ONE)
    srcs = [listof(it, st, x) for x in a] * T.int_of(rep)

    def rec(i, acc):
        if i == len(srcs):
            return T.seq_lift("tuple", acc), True
        return T.flatmap(srcs[i], lambda e: lift(lambda r: r if r.op == "seq" and not _is_leaf(i, srcs) else T.seq("list", [T.el(r)]),
                                                 rec(i + 1, acc + [e])[0])), False

    def _is_leaf(i, srcs):
        return i == len(srcs) - 1

    if not srcs:
        return it.new_list(st, [T.el(T.seq("tuple", []))])
    unknown = [s for s in a if s.op == "splat"]
    if unknown:
        return it.new_list(st, T.seq("list", [mk("sp", mk("app", "product", tuple(it.freeze(st, x) for x in a), ()))]))
    return it.new_list(st, rec(0, [])[0])


def _h_combinations(it, st, cx, a, k):
    src = it.freeze(st, it.iter_source(st, a[0]))
    r = a[1]

    def go(v):
        es = T.seq_elements(v) if v.op == "seq" else T.set_elements(v) if v.op == "set" else None
        if es is not None and T.is_int(r):
            import itertools
            return T.seq("list", [T.el(T.seq("tuple", [T.el(x) for x in c])) for c in itertools.combinations(es, T.int_of(r))])
        if v.op == "seq" and len(v.args[1]) == 1 and v.args[1][0].op == "sp":
            v = v.args[1][0].args[0]
        return T.seq("list", [mk("sp", mk("app", "combinations", (v, r), ()))])

    return it.new_list(st, lift(go, src))


def unpacked(it, s, e, c):
    """Arguments from an element (a sequence)."""
    v = it.content(s, e)
    es = T.seq_elements(v) if v.op == "seq" else None
    if es is None:
        typ = it.typeof(v)
        if not typ or typ[0] != "tuple":
            from .interp import Unsupported
            raise Unsupported("unpacking of a sequence of unknown length")
        es = [T.item(v, T.num(i)) for i in range(len(typ[1]))]
    return es


def _h_starmap(it, st, cx, a, k):
    return collect(it, st, cx, a[1], lambda s, e, c: it.cases(s, e, lambda s2, x: it.call(s2, c, a[0], unpacked(it, s2, x, c), {})))


def _h_filterfalse(it, st, cx, a, k):
    f = a[0]

    def one(s, e, c):
        t = e if f is NONE else it.call(s, c, f, [e], {})
        return ite(it.truth_of(s, c, t), UNDEF, e)

    return collect(it, st, cx, a[1], one)


def on_elements(f):
    """Model of a function of one finite sequence, in terms of its elements."""
    def h(it, st, cx, a, k):
        ok = []

        def go(v):
            es = T.seq_elements(v)
            if es is None:
                return T.mk("raise", "?", ())
            r = f(it, st, es, a[1:], k)
            return r if isinstance(r, T.Term) else T.seq("list", [T.el(x) for x in r])

        r = lift(go, listof(it, st, a[0]))
        if any(x.op == "raise" for x in T.leafset(r)):
            return NotImplemented
        return it.new_list(st, r)

    return h


def _tuples(xs):
    return [T.seq_lift("tuple", list(x)) for x in xs]


def _islice(it, st, es, a, k):
    import itertools
    return list(itertools.islice(es, *[None if x is NONE else T.int_of(x) for x in a]))


def _permutations(it, st, es, a, k):
    import itertools
    return _tuples(itertools.permutations(es, T.int_of(a[0]) if a else None))


def _pairwise(it, st, es, a, k):
    return _tuples(zip(es, es[1:]))


def _h_not(it, st, cx, a, k):
    return NOT(it.truth_of(st, cx, a[0]))


def _h_methodcaller(it, st, cx, a, k):
    import ast as _ast

    fid = ("mc", T.fresh_rho().args[0])
    st.frames[fid] = {**{f"a{i}": x for i, x in enumerate(a[1:])}, **{f"k_{n}": x for n, x in k.items()}}
    args = ", ".join([f"a{i}" for i in range(len(a) - 1)] + [f"{n}=k_{n}" for n in k])
    node = _ast.parse(f"lambda x: x.{a[0].args[0]}({args})", mode="eval").body
    it._keep.append(node)
    c = cx.copy() if hasattr(cx, "copy") else cx
    c.frames = (fid, *cx.frames)
    return it.make_function(node, st, c)


def _h_chain(it, st, cx, a, k):
    return it.new_list(st, T.concat("list", *[listof(it, st, x) for x in a]))


def _h_reduce(it, st, cx, a, k):
    f, src = a[0], listof(it, st, a[1])
    init = a[2] if len(a) > 2 else None
    if f.op == "ext" and f.args[0] in ("operator.mul", "operator.add"):
        kinds = {it.kind(st, g.args[0]) for leaf in T.leafset(src) for g in leaf.args[1] if g.op == "el"}
        if not kinds & {"rec", "obj", "list", "tuple", "str"}:
            s = it.freeze(st, src)
            op, comb = ("PROD", T.mul) if f.args[0] == "operator.mul" else ("SUM", T.add)
            r = T.big(op, s)
            return r if init is None else comb(init, r)

    def go(s, v):
        segs = list(v.args[1])
        acc = init
        if acc is None:
            if not segs:
                it.raise_(s, cx, "TypeError")
                return UNDEF
            if segs[0].op != "el":
                fr = it.freeze(s, v)
                return T.app("reduce", (fr, it.freeze(s, f)))
            acc = segs.pop(0).args[0]
        return reduce_loop(it, s, cx, T.seq("list", segs), acc, lambda s2, ac, e, c: it.call(s2, c, f, [ac, e], {}))

    return it.cases(st, src, go)


def _h_partial(it, st, cx, a, k):
    return mk("partial", a[0], tuple(a[1:]), tuple(sorted(k.items())))


def _op(name):
    def h(it, st, cx, a, k):
        return it.binop(st, cx, name, a[0], a[1])

    return h


def _cmp(name):
    def h(it, st, cx, a, k):
        return it.compare(st, cx, name, a[0], a[1])

    return h


def _h_itemgetter(it, st, cx, a, k):
    v = T.fresh_bv()
    body = T.item(v, a[0]) if len(a) == 1 else T.seq("tuple", [T.el(T.item(v, x)) for x in a])
    return T.mklam([v], body)


def _h_attrgetter(it, st, cx, a, k):
    import ast as _ast

    src = "lambda x: x." + a[0].args[0] if len(a) == 1 else "lambda x: (" + ", ".join("x." + y.args[0] for y in a) + ")"
    node = _ast.parse(src, mode="eval").body
    it._keep.append(node)
    return it.make_function(node, st, cx)


def _h_warn(it, st, cx, a, k):
    cat = a[1] if len(a) > 1 else k.get("category", mk("ext", "builtins.UserWarning"))
    it.effect(st, ("warn", T.show(cat)))
    return NONE


def _h_cast(it, st, cx, a, k):
    x = a[1]
    t = a[0]
    if t.op == "cstr":
        import ast as _ast
        try:
            node = _ast.parse(t.args[0], mode="eval").body
            it._keep.append(node)
            typ = it.ann(node, cx.module)
        except Exception:
            return x
    elif t.op == "cls":
        typ = ("cls", t.args[0], None)
    else:
        return x
    old = it.typeof(x) if x.op != "ref" else None
    if typ[0] == "cls" and old is not None and old[0] == "cls" and x.op in ("item", "attr", "bv", "first", "sym", "app", "mcall") \
            and it.cls.get(typ[1]) is not None and it.cls[typ[1]].kind == "typeddict":
        it.cast_types.setdefault(x, typ)
    return x


def _h_evolve(it, st, cx, a, k):
    x = a[0]

    def go(s, v):
        if v.op == "rec":
            from .classes import construct

            inits = {f.name for f in it.all_fields(v.args[0]) if f.init} if v.args[0] in it.cls else None
            kw = {n.lstrip("_"): y for n, y in v.args[1] if inits is None or n in inits}
            kw.update(k)
            return construct(it, s, cx, mk("cls", v.args[0]), [], kw)
        q = it.obj_class(s, v)
        if q is not None and q in it.cls:
            from .classes import construct

            kw = {f.name.lstrip("_"): it._getattr(s, cx, v, f.name) for f in it.all_fields(q) if f.init}
            kw.update(k)
            return construct(it, s, cx, mk("cls", q), [], kw)
        typ = it.typeof(v)
        if typ is not None and typ[0] == "ext" and typ[1] in SIGNATURES:
            names, _ = SIGNATURES[typ[1]]
            vals = [it.freeze(s, k[n]) if n in k else it.attr_term(v, n) for n in names]
            return T.app(typ[1], tuple(vals))
        return T.app("attrs.evolve", (it.freeze(s, v),), tuple((n, it.freeze(s, y)) for n, y in k.items()))

    return it.cases(st, x, go)


def _h_ctor_isinstance(it, st, cx, a, k):
    return mk("app", "attrs.validators.instance_of", tuple(a), ())


# -------- sympy
def _h_symbol(it, st, cx, a, k):
    return T.app("sympy.Symbol", (it.freeze(st, a[0]),), tuple(sorted((n, v) for n, v in k.items())))


def parse_symbols(s):
    """Names and 'is a sequence' flag of a sympy.symbols() string."""
    import itertools as itl
    import string as strmod

    marker = 0
    literals = [r"\,", r"\:", r"\ "]
    for i, lit in enumerate(literals):
        if lit in s:
            while chr(marker) in s:
                marker += 1
            lc = chr(marker)
            marker += 1
            s = s.replace(lit, lc)
            literals[i] = (lc, lit[1:])

    def literal(x):
        for q in literals:
            if isinstance(q, tuple):
                x = x.replace(*q)
        return x

    s = s.strip()
    as_seq = s.endswith(",")
    if as_seq:
        s = s[:-1].rstrip()
    names = [n.strip() for n in s.split(",")]
    for i in range(len(names) - 1, -1, -1):
        names[i: i + 1] = names[i].split()
    out = []
    rng = re.compile("([0-9]*:[0-9]+|[a-zA-Z]?:[a-zA-Z])")
    seq = as_seq
    for name in names:
        if ":" not in name:
            out.append(literal(name))
            continue
        split = rng.split(name)
        for i in range(len(split) - 1):
            if i and ":" in split[i] and split[i] != ":" and split[i - 1].endswith("(") and split[i + 1].startswith(")"):
                split[i - 1] = split[i - 1][:-1]
                split[i + 1] = split[i + 1][1:]
        for i, q in enumerate(split):
            if ":" in q:
                if q.endswith(":"):
                    raise ValueError(q)
                x, y = q.split(":")
                if y[-1] in strmod.digits:
                    x = 0 if not x else int(x)
                    split[i] = [str(c) for c in range(x, int(y))]
                else:
                    x = x or "a"
                    split[i] = [strmod.ascii_letters[c] for c in range(strmod.ascii_letters.index(x), strmod.ascii_letters.index(y) + 1)]
            else:
                split[i] = [q]
        seq = True
        out += [literal("".join(c)) for c in itl.product(*split)] if len(split) > 1 else [literal(split[0][0])]
    return out, (seq or len(out) > 1)


def _h_symbols(it, st, cx, a, k):
    k = dict(k)
    cls = k.pop("cls", None)
    k.pop("seq", None)
    assume = tuple(sorted(k.items()))
    cname = "sympy.Symbol" if cls is None else cls.args[0]

    def go(s):
        if s.op == "cstr":
            names, seq = parse_symbols(s.args[0])
            ts = [T.app(cname, (T.string(n),), assume) for n in names]
        elif s.op == "str":
            parts = [[]]
            for p in s.args:
                if p.op == "cstr":
                    if ":" in p.args[0] or "," in p.args[0]:
                        return T.app("sympy.symbols", (s,), assume)
                    bits = re.split(r"\s+", p.args[0])
                    parts[-1].append(T.string(bits[0]))
                    for b in bits[1:]:
                        parts.append([T.string(b)])
                else:
                    parts[-1].append(p)
            parts = [T.strcat(*p) for p in parts if p and not (len(p) == 1 and p[0] is T.string(""))]
            ts = [T.app(cname, (p,), assume) for p in parts]
            seq = len(ts) > 1
        else:
            return T.app("sympy.symbols", (s,), assume)
        return T.seq("tuple", [T.el(t) for t in ts]) if seq else ts[0]

    return lift(go, it.freeze(st, a[0]))


def _h_sqrt(it, st, cx, a, k):
    return T.sqrt(it.freeze(st, a[0]))


def _flat_args(it, st, a):
    segs = []
    for x in a:
        if x.op == "splat":
            segs.extend(x.args[0].args[1])
        else:
            segs.append(T.el(x))
    return segs


def _h_add(it, st, cx, a, k):
    r = ZERO
    for s in _flat_args(it, st, a):
        r = T.add(r, it.freeze(st, s.args[0]) if s.op == "el" else T.big("SUM", it.freeze(st, T.seq("list", [s]))))
    return r


def _h_mul(it, st, cx, a, k):
    r = ONE
    for s in _flat_args(it, st, a):
        r = T.mul(r, it.freeze(st, s.args[0]) if s.op == "el" else T.big("PROD", it.freeze(st, T.seq("list", [s]))))
    return r


def _h_pow(it, st, cx, a, k):
    return T.power(it.freeze(st, a[0]), it.freeze(st, a[1]))


def _h_delta(it, st, cx, a, k):
    return T.app("delta", (it.freeze(st, a[0]), it.freeze(st, a[1])))


def _h_rotation_d(it, st, cx, a, k):
    a = [it.freeze(st, x) for x in a]
    names = ["j", "m", "mp", "beta"]
    vals = dict(zip(names, a))
    vals.update({n: it.freeze(st, v) for n, v in k.items()})
    return T.app("sympy.WignerD", (vals["j"], vals["m"], vals["mp"], ZERO, vals["beta"], ZERO))


def _h_rotation_D(it, st, cx, a, k):
    a, k = kw_norm(it, st, "sympy.WignerD", a, k)
    return T.app("sympy.WignerD", tuple(it.freeze(st, x) for x in a))


def _h_third_mandelstam(it, st, cx, a, k):
    names = ["sigma1", "sigma2", "m0", "m1", "m2", "m3"]
    v = dict(zip(names, a))
    v.update(k)
    v = {n: it.freeze(st, x) for n, x in v.items()}
    sq = [T.mul(v[m], v[m]) for m in names[2:]]
    return T.sub(T.sub(T.add(*sq), v["sigma1"]), v["sigma2"])


def _h_abs_sympy(it, st, cx, a, k):
    return T.app("abs", (it.freeze(st, a[0]),))


def _h_getlogger(it, st, cx, a, k):
    return mk("app", "logging.Logger", tuple(it.freeze(st, x) for x in a), ())


def _h_identity(it, st, cx, a, k):
    return a[0]


def path_parts(it, st, xs):
    """Text of a path that is joined from constant parts, or None."""
    out = []
    for x in xs:
        x = it.freeze(st, x)
        if x.op == "app" and x.args[0] == "pathlib.Path":
            x = x.args[1][0]
        if x.op != "cstr":
            return None
        out.append(x.args[0])
    return "/".join(out)


def _h_path(it, st, cx, a, k):
    p = path_parts(it, st, a)
    return NotImplemented if p is None or k else T.app("pathlib.Path", (T.string(p),))


def _h_path_text(it, st, cx, a, k):
    p = path_parts(it, st, a)
    return NotImplemented if p is None or k else T.string(p)


def _h_dirname(it, st, cx, a, k):
    p = path_parts(it, st, a)
    return NotImplemented if p is None or k else T.string(p.rpartition("/")[0])


def _h_load(it, st, cx, a, k):
    p = path_parts(it, st, a) if len(a) == 1 and not k else None
    return NotImplemented if p is None else T.app("qrules.io.load", (T.string(p),))


def _h_getattr(it, st, cx, a, k):
    if a[1].op != "cstr":
        return NotImplemented
    name = a[1].args[0]
    if len(a) < 3:
        return it.getattr(st, cx, a[0], name)
    has = has_attribute(it, st, a[0], name)
    return it.branch(st, has, lambda s: it.getattr(s, cx, a[0], name), lambda s: a[2])


def _h_hasattr(it, st, cx, a, k):
    if a[1].op == "cstr":
        return has_attribute(it, st, a[0], a[1].args[0])
    return atom(mk("hasattr", it.freeze(st, a[0]), it.freeze(st, a[1])))


def has_attribute(it, st, o, name):
    """Does the value have an attribute with this name?"""

    def member(q):
        return it.find_method(q, name) is not None or it.find_field(q, name) is not None \
            or it.find_class_attr(q, name) is not None

    def one(v):
        unknown = atom(mk("hasattr", it.freeze(st, v), T.string(name)))
        if v.op == "ref" and st.heap[v][0] == "obj" and name in st.heap[v][2]:
            return TRUE
        if v is NONE:
            return FALSE if not name.startswith("__") else unknown
        q = it.obj_class(st, v)
        typ = None if v.op == "ref" else it.typeof(v)
        qs = [q] if q is not None else [t[1] for t in typ[1] if t[0] == "cls"] if typ and typ[0] == "union" else []
        if not qs or any(c not in it.cls or it.cls[c].kind in ("typeddict", "protocol") for c in qs) or name.startswith("__"):
            return unknown
        if typ is not None and typ[0] == "union" and any(t[0] not in ("cls", "none") for t in typ[1]):
            return unknown
        if any(b not in it.cls and not b.startswith(("typing.", "builtins.object")) for c in qs for b in it.mro(c)):
            return unknown
        if all(member(c) for c in qs) and q is not None:
            return TRUE
        if v.op in ("rec", "ref"):
            return FALSE
        found = [c for c in it.cls if any(p in it.mro(c) for p in qs) and member(c)]
        return OR(*[T.isinst(v, mk("cls", c)) for c in found])

    return lift(one, o)


def _h_callable(it, st, cx, a, k):
    return isinstance_term(it, st, a[0], mk("ext", "collections.Callable"))


def _h_divmod(it, st, cx, a, k):
    x, y = (it.freeze(st, v) for v in a)
    return T.seq("tuple", [T.el(T.app("floordiv", (x, y))), T.el(T.app("mod", (x, y)))])


def _h_groupby(it, st, cx, a, k):
    return NotImplemented


def _h_dedent(it, st, cx, a, k):
    return T.app("str.dedent", (it.freeze(st, a[0]),))


def _h_neg(it, st, cx, a, k):
    return T.neg(it.freeze(st, a[0]))


def _h_setattr(it, st, cx, a, k):
    it.setattr(st, cx, a[0], a[1].args[0], a[2])
    return NONE

# functions of which the parameters can be updated
BACKEND_FUNCTION = "tensorwaves.ParametrizedBackendFunction"
MUTABLE_EXT = {BACKEND_FUNCTION}
BACKEND_FIELDS = ("function", "argument_order", "parameters")


def _h_backend_function(it, st, cx, a, k):
    a, k = kw_norm(it, st, BACKEND_FUNCTION, a, k)
    if len(a) != 3 or k:
        return NotImplemented
    return backend_function(it, st, cx, a)


def backend_function(it, st, cx, a):
    a = [a[0], _h_tuple(it, st, cx, [a[1]], {}), _h_dict(it, st, cx, [a[2]], {})]
    return it.alloc(st, ("obj", BACKEND_FUNCTION, dict(zip(BACKEND_FIELDS, [it.freeze(st, it.content(st, x)) for x in a]))))


def _h_parametrized_function(it, st, cx, a, k):
    name = "tensorwaves.function.sympy.create_parametrized_function"
    a, k = kw_norm(it, st, name, a, k)
    made = T.app(name, tuple(it.freeze(st, it.content(st, x)) for x in a),
                 tuple((n, it.freeze(st, it.content(st, x))) for n, x in sorted(k.items())))
    return backend_function(it, st, cx, [T.app(f"{name}.{n}", (made,)) for n in BACKEND_FIELDS])


def copied(it, st, x, deep):
    """copy.copy and copy.deepcopy."""
    memo = {}

    def go(t):
        if not isinstance(t, Term):
            return tuple(map(go, t)) if isinstance(t, tuple) else {n: go(y) for n, y in t.items()} if isinstance(t, dict) else t
        if t.op == "ref":
            if t not in memo:
                cell = st.heap[t]
                memo[t] = it.alloc(st, cell)
                if t in it.oneshot:
                    it.oneshot.add(memo[t])
                if deep:
                    st.heap[memo[t]] = (cell[0], cell[1] if cell[0] == "obj" else go(cell[1]), *map(go, cell[2:]))
            return memo[t]
        return T.rebuild(t, go) if deep and it._has_ref(t) and t.op != "clo" else t

    return lift(go, x)


ISLICE = on_elements(_islice)
ITERATORS = ("builtins.zip", "builtins.enumerate", "builtins.map", "builtins.filter", "builtins.reversed", "itertools.product",
             "itertools.combinations", "itertools.chain", "itertools.starmap", "itertools.filterfalse", "itertools.islice",
             "itertools.permutations", "itertools.pairwise")


def _classes():
    from . import classes

    return classes


HANDLERS = {
    "pathlib.Path": _h_path, "os.path.join": _h_path_text, "os.path.dirname": _h_dirname, "os.path.abspath": _h_identity,
    "os.path.realpath": _h_identity, "os.fspath": _h_path_text, "qrules.io.load": _h_load,
    "builtins.len": _h_len, "builtins.sorted": _h_sorted,
    "builtins.min": lambda it, st, cx, a, k: _best(it, st, cx, "min", a, k),
    "builtins.max": lambda it, st, cx, a, k: _best(it, st, cx, "max", a, k),
    "builtins.sum": _h_sum, "math.prod": _h_prod, "builtins.any": _h_any, "builtins.all": _h_all, "builtins.zip": _h_zip,
    "builtins.enumerate": _h_enumerate, "builtins.range": _h_range, "builtins.map": _h_map, "builtins.filter": _h_filter,
    "builtins.next": _h_next, "builtins.iter": _h_iter, "builtins.tuple": _h_tuple, "builtins.list": _h_list,
    "builtins.set": _h_set, "builtins.frozenset": _h_frozenset, "builtins.dict": _h_dict,
    "collections.OrderedDict": _h_dict, "collections.deque": _h_list,
    "collections.namedtuple": lambda it, st, cx, a, k: _classes().named_tuple(it, st, cx, a, k),
    "typing.NamedTuple": lambda it, st, cx, a, k: _classes().named_tuple(it, st, cx, a, k),
    "frozendict.frozendict": _h_frozendict, "collections.defaultdict": _h_defaultdict,
    "builtins.isinstance": _h_isinstance, "builtins.issubclass": _h_issubclass, "builtins.type": _h_type,
    "builtins.abs": _h_abs, "builtins.float": _h_numeric, "decimal.Decimal": _h_numeric, "sympy.Float": _h_numeric,
    "sympy.sympify": _h_numeric, "sympy.S": _h_numeric, "fractions.Fraction": _h_rational, "sympy.Integer": _h_int,
    "sympy.Rational": _h_rational, "builtins.int": _h_int, "builtins.str": _h_str, "builtins.repr": _h_repr,
    "builtins.bool": _h_bool, "builtins.complex": _h_complex, "builtins.reversed": _h_reversed,
    "itertools.product": _h_product, "itertools.combinations": _h_combinations, "itertools.chain": _h_chain,
    "itertools.starmap": _h_starmap, "itertools.filterfalse": _h_filterfalse, "itertools.islice": ISLICE,
    "itertools.permutations": on_elements(_permutations), "itertools.pairwise": on_elements(_pairwise),
    "operator.not_": _h_not, "operator.pow": _op("Pow"), "operator.mod": _op("Mod"), "operator.floordiv": _op("FloorDiv"),
    "operator.xor": _op("BitXor"), "operator.is_": _cmp("Is"), "operator.is_not": _cmp("IsNot"),
    "operator.truth": lambda it, st, cx, a, k: it.truth_of(st, cx, a[0]), "operator.methodcaller": _h_methodcaller,
    "functools.reduce": _h_reduce, "functools.partial": _h_partial,
    "operator.mul": _op("Mult"), "operator.add": _op("Add"), "operator.sub": _op("Sub"), "operator.truediv": _op("Div"),
    "operator.or_": _op("BitOr"), "operator.and_": _op("BitAnd"), "operator.eq": _cmp("Eq"), "operator.ne": _cmp("NotEq"),
    "operator.lt": _cmp("Lt"), "operator.gt": _cmp("Gt"), "operator.le": _cmp("LtE"), "operator.ge": _cmp("GtE"),
    "operator.neg": _h_neg, "operator.contains": lambda it, st, cx, a, k: it.compare(st, cx, "In", a[1], a[0]),
    "operator.getitem": lambda it, st, cx, a, k: it.getitem(st, cx, a[0], a[1]),
    "operator.itemgetter": _h_itemgetter, "operator.attrgetter": _h_attrgetter,
    "warnings.warn": _h_warn, "typing.cast": _h_cast, "attrs.evolve": _h_evolve,
    "attrs.validators.instance_of": _h_ctor_isinstance,
    "sympy.Symbol": _h_symbol, "sympy.symbols": _h_symbols, "sympy.sqrt": _h_sqrt, "math.sqrt": _h_sqrt,
    "sympy.Add": _h_add, "sympy.Mul": _h_mul, "sympy.Pow": _h_pow, "sympy.KroneckerDelta": _h_delta,
    "sympy.Rotation.d": _h_rotation_d, "sympy.Rotation.D": _h_rotation_D, "sympy.Abs": _h_abs_sympy,
    "ampform.kinematics.phasespace.compute_third_mandelstam": _h_third_mandelstam,
    "builtins.print": lambda it, st, cx, a, k: NONE, "logging.getLogger": _h_getlogger,
    "builtins.getattr": _h_getattr, "builtins.hasattr": _h_hasattr, "builtins.callable": _h_callable,
    "builtins.divmod": _h_divmod, "textwrap.dedent": _h_dedent, "builtins.setattr": _h_setattr,
    "builtins.pow": _h_pow, "copy.copy": lambda it, st, cx, a, k: copied(it, st, a[0], False),
    "copy.deepcopy": lambda it, st, cx, a, k: copied(it, st, a[0], True),
    BACKEND_FUNCTION: _h_backend_function, "tensorwaves.function.sympy.create_parametrized_function": _h_parametrized_function,
    "types.MappingProxyType": _h_identity,
}
HANDLERS.update({k: one_shot(HANDLERS[k]) for k in ITERATORS})
