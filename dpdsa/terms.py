"""Hash-consed value terms with canonical forms.

The analysis represents every abstract value by a *term*.  Terms are built through the
smart constructors in this module only, which keep them in a normal form:

* numbers and arithmetic: exact polynomials over atoms with (rational or symbolic)
  exponents, Gaussian-rational coefficients;
* conditions and gated values: ordered, reduced multi-terminal decision diagrams
  ("gamma nodes" of gated SSA, op ``ite``) whose decision atoms are ordered by digest;
* collections: sequences of segments (element, splat of an unknown iterable,
  comprehension segment with a bound variable);
* bound variables: locally nameless (level of the binder), so alpha-equivalent
  comprehensions are one term.
"""

from __future__ import annotations

import hashlib
import itertools
import sys
from fractions import Fraction

sys.setrecursionlimit(20000)


class TooComplex(Exception):
    """The value graph grew beyond the analysis bound."""


class Term:
    __slots__ = ("op", "args", "key", "fv", "lvl", "size")

    def __repr__(self):
        return show(self)


_TABLE: dict = {}
_COUNTER = itertools.count(1)
_EMPTY = frozenset()
MAX_NODES = 3_000_000


def _kof(a):
    if isinstance(a, Term):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_kof(x) for x in a) + ")"
    return type(a).__name__ + ":" + repr(a)


def _collect(a, fv, lv):
    if isinstance(a, Term):
        if a.fv:
            fv |= a.fv
        if a.lvl > lv[0]:
            lv[0] = a.lvl
        lv[1] += a.size
    elif isinstance(a, tuple):
        for x in a:
            _collect(x, fv, lv)


def mk(op, *args) -> Term:
    k = (op, args)
    t = _TABLE.get(k)
    if t is not None:
        return t
    if len(_TABLE) > MAX_NODES:
        raise TooComplex("value graph too large")
    t = Term()
    t.op = op
    t.args = args
    fv: set = set()
    lv = [0, 1]
    _collect(args, fv, lv)
    if op in ("bv", "rho"):
        fv.add(args[0])
    if op in BINDERS:
        lv[0] = max(lv[0], max(args[i] for i in BINDERS[op]))
    t.fv = frozenset(fv) if fv else _EMPTY
    t.lvl = lv[0]
    t.size = lv[1]
    t.key = hashlib.sha1((op + "|" + _kof(args)).encode()).hexdigest()
    _TABLE[k] = t
    return t


# op -> positions of the binder levels
BINDERS = {"for": (0,), "dfor": (0,), "ex": (0,), "first": (0,), "lam": (0,), "fold": (0, 1),
           "arg": (0,), "last": (0,), "wh": (0,)}

BV_TYPE: dict = {}
BV_SRC: dict = {}
SYM_TYPE: dict = {}


def fresh_bv(typ=None, src=None) -> Term:
    uid = next(_COUNTER)
    BV_TYPE[uid] = typ
    BV_SRC[uid] = src
    return mk("bv", uid)


def fresh_rho(typ=None) -> Term:
    uid = next(_COUNTER)
    BV_TYPE[uid] = typ
    return mk("rho", uid)


# ---------------------------------------------------------------- constants
NONE = mk("none")
ELLIPSIS = mk("ellipsis")
UNDEF = mk("undef")


def boolean(b) -> Term:
    return TRUE if b else FALSE


TRUE = mk("bool", True)
FALSE = mk("bool", False)


def num(re, im=0) -> Term:
    return mk("num", Fraction(re), Fraction(im))


ZERO = num(0)
ONE = num(1)
MINUS_ONE = num(-1)
IMAG = num(0, 1)


def string(s: str) -> Term:
    return mk("cstr", s)


def const(v) -> Term:
    if v is None:
        return NONE
    if v is True or v is False:
        return boolean(v)
    if v is Ellipsis:
        return ELLIPSIS
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("float", repr(v))
        return num(Fraction(repr(v)))
    if isinstance(v, complex):
        return num(Fraction(repr(v.real)), Fraction(repr(v.imag)))
    if isinstance(v, str):
        return string(v)
    if isinstance(v, bytes):
        return mk("bytes", v)
    raise TypeError(v)


def is_num(t):
    return t.op == "num"


def is_int(t):
    return t.op == "num" and t.args[1] == 0 and t.args[0].denominator == 1


def int_of(t):
    return int(t.args[0])


def is_const(t):
    return t.op in ("num", "bool", "cstr", "none", "ellipsis", "bytes", "float", "cls", "ext", "fn", "mod")


def sym(name, typ=None) -> Term:
    if typ is not None:
        SYM_TYPE[name] = typ
    return mk("sym", name)


# ---------------------------------------------------------------- decision diagrams
def _all_distinct(t: Term):
    """Elements whose pairwise distinctness `len({..}) == n` states, or None."""
    for n, m in (t.args, t.args[::-1]):
        if n.op == "num" and is_len(m) and m.args[1][0].op == "set":
            s = set_elements(m.args[1][0])
            if s is not None and n.args[0] == len(s):
                return s
    return None


def _distinctness(v: Term, val: bool, w: Term):
    a, b = _all_distinct(v), _all_distinct(w)
    if a is not None and b is not None:
        if val and set(b) <= set(a):
            return True
        if not val and set(a) <= set(b):
            return False
    elif a is not None:
        if val and w.args[0] in a and w.args[1] in a:
            return False
    elif b is not None:
        if val and v.args[0] in b and v.args[1] in b:
            return False
    return None


def _related(v: Term, val: bool, w: Term):
    """Truth value of atom `w` implied by atom `v` having value `val`, or None."""
    if v is w:
        return val
    vo, wo = v.op, w.op
    if vo == "eq" and val:
        a, b = v.args
        for x, c in ((a, b), (b, a)):
            if not _ground(c):
                continue
            if wo == "eq":
                for y, d in (w.args, w.args[::-1]):
                    if y is x and _ground(d) and d is not c and distinct(c, d):
                        return False
            elif wo == "none" and w.args[0] is x:
                return c is NONE
            elif wo == "truthy" and w.args[0] is x:
                r = truthy(c)
                if r is TRUE or r is FALSE:
                    return r is TRUE
            elif wo == "in" and w.args[0] is x and w.args[1].op == "set":
                return None
            elif wo == "isinst" and w.args[0] is x and c.op != "sym":
                r = isinst(c, w.args[1])
                if r is TRUE or r is FALSE:
                    return r is TRUE
    if vo == "eq" and wo == "eq":
        return _distinctness(v, val, w)
    if vo == "eq":
        return None
    if vo == "ex":
        if wo == "ex" and v.args[1] is w.args[1]:
            if val and _weaker(v, w):
                return True
            if not val and _weaker(w, v):
                return False
        return None
    if vo == "none":
        x = v.args[0]
        if val:
            if wo == "truthy" and w.args[0] is x:
                return False
            if wo == "isinst" and w.args[0] is x:
                return False
            if wo == "eq":
                for y, d in (w.args, w.args[::-1]):
                    if y is x and _ground(d) and d is not NONE:
                        return False
        return None
    if vo == "truthy":
        x = v.args[0]
        if val:
            if wo == "none" and w.args[0] is x:
                return False
            if wo == "eq":
                for y, d in (w.args, w.args[::-1]):
                    if y is x and _ground(d) and truthy(d) is FALSE:
                        return False
        elif wo == "eq":
            for y, d in (w.args, w.args[::-1]):
                if y is x and _ground(d) and truthy(d) is TRUE:
                    return False
        return None
    if vo == "isinst":
        x = v.args[0]
        if wo == "isinst" and w.args[0] is x:
            return HOOKS["isinst_implies"](x, v.args[1], val, w.args[1])
        if val and wo == "none" and w.args[0] is x:
            return False
        if val and wo == "eq":
            for y, d in (w.args, w.args[::-1]):
                if y is x and _ground(d):
                    r = isinst(d, v.args[1])
                    if r is FALSE:
                        return False
        return None
    if vo == "lt" and wo == "lt":
        a, c = v.args
        if w.args[0] is a and is_num(c) and is_num(w.args[1]):
            d = w.args[1]
            if val and c.args[0] <= d.args[0]:
                return True
            if not val and d.args[0] <= c.args[0]:
                return False
        return None
    return None


HOOKS = {"isinst_implies": lambda x, t1, val, t2: None,
         "isinst": lambda x, t: None,
         "truthy": lambda x: None,
         "typeof": lambda x: None}


def _ground(t):
    return t.op in ("num", "bool", "cstr", "none", "cls", "ext", "fn")


def unguarded_additions(new: Term, held: Term) -> Term:
    """`S if x in S else {*S, x}` is `{*S, x}`, for a set S under construction."""
    for a in atoms_of(new):
        if a.op != "in" or a.args[1] is not held and a.args[1] is not held.args[0][0].args[0]:
            continue
        hi, lo = restrict(new, a, True), restrict(new, a, False)
        same = lift(lambda p, q: TRUE if p is q or (
            p.op == "set" and q.op == "set" and set(q.args[0]) == {*p.args[0], el(a.args[0])}) else FALSE, hi, lo)
        if same is TRUE:
            new = lo
    return new


_ASSUME_MEMO: dict = {}


def assume(t: Term, v: Term, val: bool) -> Term:
    """Simplify the decision diagram `t` under `v == val`."""
    if t.op != "ite":
        return t
    k = (t, v, val)
    r = _ASSUME_MEMO.get(k)
    if r is not None:
        return r
    a, hi, lo = t.args
    imp = _related(v, val, a)
    if imp is True:
        r = assume(hi, v, val)
    elif imp is False:
        r = assume(lo, v, val)
    else:
        h2, l2 = assume(hi, v, val), assume(lo, v, val)
        r = t if (h2 is hi and l2 is lo) else (h2 if h2 is l2 else mk("ite", a, h2, l2))
    _ASSUME_MEMO[k] = r
    return r


def _node(v, hi, lo):
    hi = assume(hi, v, True)
    lo = assume(lo, v, False)
    if hi is lo:
        return hi
    return mk("ite", v, hi, lo)


def _cof(t, v, val):
    if t.op == "ite" and t.args[0] is v:
        return t.args[1] if val else t.args[2]
    return t


def _min_top(ts):
    best = None
    for t in ts:
        if t.op == "ite" and (best is None or t.args[0].key < best.key):
            best = t.args[0]
    return best


_ITE_MEMO: dict = {}
MAX_LEAVES = 6000


def ite(c: Term, a: Term, b: Term) -> Term:
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ITE_MEMO.get(k)
    if r is not None:
        return r
    v = _min_top((c, a, b))
    if v is None:
        raise AssertionError(f"condition is not a decision diagram: {c.op}")
    # cofactors are pruned by the theory before they are combined
    ch, cl = assume(_cof(c, v, True), v, True), assume(_cof(c, v, False), v, False)
    ah, al = assume(_cof(a, v, True), v, True), assume(_cof(a, v, False), v, False)
    bh, bl = assume(_cof(b, v, True), v, True), assume(_cof(b, v, False), v, False)
    r = _node(v, ite(ch, ah, bh), ite(cl, al, bl))
    _ITE_MEMO[k] = r
    return r


def atom(t: Term) -> Term:
    """Decision diagram for a boolean atom."""
    return mk("ite", t, TRUE, FALSE)


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def lift(fn, *args):
    """Apply `fn` to the leaves of the decision diagrams `args`."""
    for a in args:
        if a.op == "ite":
            break
    else:
        return fn(*args)
    memo: dict = {}

    def go(xs):
        v = _min_top(xs)
        if v is None:
            r = memo.get(xs)
            if r is None:
                if len(memo) > MAX_LEAVES:
                    raise TooComplex("too many cases")
                r = memo[xs] = fn(*xs)
            return r
        k = ("n",) + xs
        r = memo.get(k)
        if r is None:
            hi = go(tuple(assume(_cof(x, v, True), v, True) for x in xs))
            lo = go(tuple(assume(_cof(x, v, False), v, False) for x in xs))
            # fn may itself return diagrams, so recombine with ite
            r = hi if hi is lo else ite(mk("ite", v, TRUE, FALSE), hi, lo)
            memo[k] = r
        return r

    return go(tuple(args))


def leaves(t: Term):
    """(condition literals, leaf) for each path of the diagram."""
    out = []

    def go(t, lits):
        if t.op == "ite":
            a, hi, lo = t.args
            go(hi, lits + ((a, True),))
            go(lo, lits + ((a, False),))
        else:
            out.append((lits, t))

    go(t, ())
    return out


def leafset(t):
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack.extend(x.args[1:])
        else:
            out.append(x)
    return out


def atoms_of(t):
    seen, out, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x in seen or x.op != "ite":
            continue
        seen.add(x)
        out.add(x.args[0])
        stack.extend(x.args[1:])
    return out


def restrict(t, v, val):
    """Cofactor of the diagram for an arbitrary atom."""
    if t.op != "ite":
        return t
    a, hi, lo = t.args
    if a is v:
        return restrict(hi if val else lo, v, val)
    h, l = restrict(hi, v, val), restrict(lo, v, val)
    return ite(atom(a), h, l)


def condition_of_leaf(t, pred):
    """Condition under which diagram `t` has a leaf satisfying `pred`."""
    memo: dict = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "ite":
                a, hi, lo = x.args
                r = ite(atom(a), go(hi), go(lo))
            else:
                r = boolean(pred(x))
            memo[x] = r
        return r

    return go(t)


def cubes(c: Term):
    """Prime implicants (Blake canonical form) of a boolean diagram."""
    cs = set()
    for lits, leaf in leaves(c):
        if leaf is TRUE:
            cs.add(frozenset(lits))
    if len(cs) > 64:
        raise TooComplex("condition has too many cubes")
    changed = True
    while changed:
        changed = False
        lst = list(cs)
        for p, q in itertools.combinations(lst, 2):
            opp = [(a, v) for a, v in p if (a, not v) in q]
            if len(opp) == 1:
                a, v = opp[0]
                r = (p - {(a, v)}) | (q - {(a, not v)})
                if not any(s <= r for s in cs):
                    cs.add(frozenset(r))
                    changed = True
        # absorption
        cs = {s for s in cs if not any(o < s for o in cs)}
        if len(cs) > 256:
            raise TooComplex("condition has too many prime implicants")
    # literals implied by others in the same cube are redundant
    out = set()
    for s in cs:
        keep = set(s)
        for lit in sorted(s, key=lambda l: l[0].key):
            others = keep - {lit}
            if any(_related(a, v, lit[0]) is lit[1] for a, v in others):
                keep = others
        out.add(frozenset(keep))
    return {s for s in out if not any(o < s for o in out)}


_WEAKER: dict = {}


def _weaker(v, w):
    """Does the existence of an element for `v` imply that of one for `w`, over the same elements?"""
    if (v, w) not in _WEAKER:
        _WEAKER[v, w] = False
        x = fresh_bv()
        a, b = _replace_level(v.args[2], v.args[0], x), _replace_level(w.args[2], w.args[0], x)
        _WEAKER[v, w] = AND(a, NOT(b)) is FALSE
    return _WEAKER[v, w]


# ---------------------------------------------------------------- arithmetic
def _cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def _cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def to_poly(t: Term) -> dict:
    if t.op == "num":
        c = (t.args[0], t.args[1])
        return {} if c == (0, 0) else {(): c}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, ONE),): (Fraction(1), Fraction(0))}


def from_poly(p: dict) -> Term:
    p = {m: c for m, c in p.items() if c != (0, 0)}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return mk("num", *c)
        if c == (1, 0) and len(m) == 1 and m[0][1] is ONE:
            return m[0][0]
    return mk("poly", tuple(sorted(p.items(), key=lambda mc: _kof(mc[0]))))


def _mono_mul(m1, m2):
    d: dict = {}
    for b, e in m1 + m2:
        d[b] = add(d[b], e) if b in d else e
    return d


def _mono_to_poly(d: dict, coef) -> dict:
    """Polynomial of a product of powers, folding what can be folded."""
    extra = []
    items = []
    for b, e in d.items():
        if e is ZERO:
            continue
        if b.op == "num" and is_num(e) or (b.op == "poly" and is_int(e) and int_of(e) > 0):
            extra.append(power(b, e))
        else:
            items.append((b, e))
    items.sort(key=lambda be: be[0].key)
    p = {tuple(items): coef}
    for x in extra:
        if x.op == "poly" and len(x.args[0]) == 1 and x.args[0][0][0] == ((d and x), ):
            pass
        q = to_poly(x)
        if any(m and m[0][0].op == "num" for m in q) and len(q) == 1:
            # an irreducible numeric power: plain juxtaposition
            (m, c), = q.items()
            p = {tuple(sorted(k + m, key=lambda be: be[0].key)): _cmul(c0, c) for k, c0 in p.items()}
        else:
            p = _poly_mul(p, q)
    return p


def _poly_mul(p, q):
    out: dict = {}
    if len(p) * len(q) > 4000:
        raise TooComplex("polynomial too large")
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c = _cmul(c1, c2)
            if not m1 or not m2:
                r = {m1 or m2: c}
            else:
                d = _mono_mul(m1, m2)
                r = _mono_to_poly(d, c)
            for m, cc in r.items():
                out[m] = _cadd(out.get(m, (Fraction(0), Fraction(0))), cc)
    return out


def _add2(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = _cadd(p.get(m, (Fraction(0), Fraction(0))), c)
    return from_poly(p)


def add(*ts):
    r = ZERO
    for t in ts:
        r = lift(_add2, _numify(r), _numify(t))
    return r


def _numify(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def _mul2(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    return from_poly(_poly_mul(to_poly(a), to_poly(b)))


def mul(*ts):
    r = ONE
    for t in ts:
        r = lift(_mul2, _numify(r), _numify(t))
    return r


def neg(t):
    return mul(MINUS_ONE, t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, power(b, MINUS_ONE))


def _isqrt_frac(f: Fraction):
    from math import isqrt

    if f < 0:
        return None
    a, b = isqrt(f.numerator), isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)
    return None


def _pow2(b, e):
    if e is ZERO:
        return ONE
    if e is ONE:
        return b
    if b is ONE:
        return ONE
    if is_num(b) and is_num(e) and e.args[1] == 0:
        ex = e.args[0]
        if ex.denominator == 1:
            n = abs(int(ex))
            if n > 200:
                return mk("poly", ((((b, e),), (Fraction(1), Fraction(0))),))
            c = (Fraction(1), Fraction(0))
            for _ in range(n):
                c = _cmul(c, b.args)
            if ex < 0:
                d = c[0] ** 2 + c[1] ** 2
                if d == 0:
                    return mk("zoo")
                c = (c[0] / d, -c[1] / d)
            return mk("num", *c)
        if b.args[1] == 0 and ex.denominator == 2:
            s = _isqrt_frac(b.args[0])
            if s is not None:
                return _pow2(num(s), num(ex * 2))
        return mk("poly", ((((b, e),), (Fraction(1), Fraction(0))),))
    p = to_poly(b)
    if is_num(e) and e.args[1] == 0:
        ex = e.args[0]
        if len(p) == 0:
            return mk("zoo") if ex < 0 else ZERO
        if ex.denominator == 1:
            n = int(ex)
            if len(p) == 1:
                (m, c), = p.items()
                d = {bb: mul(ee, e) for bb, ee in m}
                cp = _pow2(mk("num", *c), e)
                return _mul2(cp, from_poly(_mono_to_poly(d, (Fraction(1), Fraction(0)))))
            if 0 < n <= 6:
                q = {(): (Fraction(1), Fraction(0))}
                for _ in range(n):
                    q = _poly_mul(q, p)
                return from_poly(q)
            # factor out the leading coefficient
            lead = min(p.items(), key=lambda mc: _kof(mc[0]))[1]
            if lead != (1, 0):
                inv = _pow2(mk("num", *lead), MINUS_ONE)
                b2 = _mul2(b, inv)
                return _mul2(_pow2(mk("num", *lead), e), _pow2(b2, e))
            return from_poly({((b, e),): (Fraction(1), Fraction(0))})
        # fractional exponent: pull out positive rational content of a monomial
        if len(p) == 1:
            (m, c), = p.items()
            if c[1] == 0 and c[0] > 0 and c != (1, 0) and m:
                return _mul2(_pow2(mk("num", *c), e), _pow2(from_poly({m: (Fraction(1), Fraction(0))}), e))
        if len(p) == 1 and len(next(iter(p))) == 1:
            (m, c), = p.items()
            bb, ee = m[0]
            if c == (1, 0) and ee is ONE:
                return from_poly({((bb, e),): (Fraction(1), Fraction(0))})
        return from_poly({((b, e),): (Fraction(1), Fraction(0))})
    return from_poly({((b, e),): (Fraction(1), Fraction(0))})


def power(b, e):
    return lift(_pow2, _numify(b), _numify(e))


def sqrt(t):
    return power(t, num(Fraction(1, 2)))


def poly_equal(a: Term, b: Term) -> bool:
    """Equality of two arithmetic terms as rational functions of their atoms."""
    if a is b:
        return True
    try:
        d = _add2(a, mul(MINUS_ONE, b))
    except TooComplex:
        return False
    for _ in range(6):
        if d is ZERO:
            return True
        worst = None
        for m in to_poly(d):
            for base, e in m:
                if base.op == "poly" and is_num(e) and e.args[0] < 0 and e.args[1] == 0:
                    worst = (base, e) if worst is None or e.args[0] < worst[1].args[0] else worst
        if worst is None:
            return False
        base, e = worst
        n = -e.args[0]
        n = Fraction(int(n) if n.denominator == 1 else n)
        try:
            d = _mul2(d, _pow2(base, num(n)))
        except TooComplex:
            return False
    return d is ZERO


# ---------------------------------------------------------------- strings
def strcat(*parts) -> Term:
    def go(*ps):
        out: list = []
        for p in ps:
            sub_ = p.args if p.op == "str" else (p,) if is_str(p) or p.op == "undef" else (mk("fmt", p, "", ""),)
            for q in sub_:
                if q.op == "cstr" and not q.args[0]:
                    continue
                if out and q.op == "cstr" and out[-1].op == "cstr":
                    out[-1] = string(out[-1].args[0] + q.args[0])
                else:
                    out.append(q)
        if any(q.op == "strjoin" for q in out):
            out = _rotate(out)
        if not out:
            return string("")
        if len(out) == 1 and out[0].op in ("cstr", "fmt", "strjoin"):
            if out[0].op == "cstr":
                return out[0]
            if out[0].op == "fmt" and out[0].args[1:] == ("", "") and is_text(out[0].args[0]):
                return out[0].args[0]
        return mk("str", *out)

    return lift(go, *parts)


def is_text(t):
    """Is the term (not a display of a string) known to be a string?"""
    return HOOKS["typeof"](t) == ("str",)


def _rotate(parts):
    """Normal form of `c + "".join(x + c for x in s)` is `"".join(c + x for x in s) + c`, with the longest such constant `c`."""
    out: list = []
    todo = list(reversed(parts))
    while todo:
        q = todo.pop()
        if q.op == "cstr" and out and out[-1].op == "cstr":
            q = string(out.pop().args[0] + q.args[0])
        elif q.op == "strjoin" and out and out[-1].op == "cstr" and q.args[0].op == "cstr" and not q.args[0].args[0]:
            tails = _tails(q.args[1])
            w = out[-1].args[0] if tails else ""
            for t in tails or ():
                while not t.endswith(w):
                    w = w[1:]
            if w:
                head = out.pop().args[0]
                if len(head) > len(w):
                    out.append(string(head[: len(head) - len(w)]))

                def move(x):
                    return seq("list", [el(strcat(string(w), *x.args[:-1], string(x.args[-1].args[0][: len(x.args[-1].args[0]) - len(w)])))])

                r = flatmap(q.args[1], lambda x: lift(lambda y: move(y if y.op == "str" else mk("str", y)), x))
                todo.append(string(w))
                todo.append(mk("strjoin", q.args[0], r))
                continue
        out.append(q)
    return out


def _tails(s):
    """Constants at the end of the elements of the sequence `s`, or None where an element does not end in a constant."""
    found: set = set()

    def walk(b):
        for x in leafset(b):
            if x.op != "seq":
                return False
            for g in x.args[1]:
                if g.op == "for":
                    if not walk(g.args[2]):
                        return False
                elif g.op == "el":
                    for y in leafset(g.args[0]):
                        z = y.args[-1] if y.op == "str" else y
                        if z.op != "cstr":
                            return False
                        found.add(z.args[0])
                else:
                    return False
        return True

    return found if walk(s) else None


def is_str(t):
    return t.op in ("cstr", "str", "fmt", "strjoin")


def _numstr(t):
    re, im = t.args
    if im == 0:
        if re.denominator == 1:
            return str(re.numerator)
        return f"{re.numerator}/{re.denominator}"
    return f"({re}+{im}j)"


def fmt(t: Term, conv: str = "", spec: str = "") -> Term:
    def go(t):
        if conv in ("", "s") and spec == "":
            if is_str(t):
                return t
            if t.op == "num" and (is_int(t)):
                return string(_numstr(t))
            if t.op == "none":
                return string("None")
            if t.op == "bool":
                return string(str(t.args[0]))
            if t.op == "app" and t.args[0] == "sympy.Str" and len(t.args[1]) == 1:
                return fmt(t.args[1][0])
            if t.op == "app" and t.args[0] == "pathlib.Path" and t.args[1][0].op == "cstr":
                return t.args[1][0]
        if spec and conv == "" and t.op == "num" and spec == "d" and is_int(t):
            return string(_numstr(t))
        if t.op == "undef" or conv in ("", "s") and spec == "" and is_text(t):
            return t
        return mk("str", mk("fmt", t, "" if conv == "s" else conv, spec))

    return lift(go, t)


# ---------------------------------------------------------------- predicates
_TYPED = {"sym", "attr", "item", "bv", "rho", "rec"}


def EXACT_CLASS(t):
    """Class of a value object of which the type is known exactly."""
    h = HOOKS.get("exact_class")
    return h(t) if h else None


def _objects_differ(ka, kb):
    """Do two values differ of which the classes (and possibly some attributes) are known?"""
    if not ka or not kb:
        return False
    if ka[0] != kb[0]:
        return True
    for n, x in ka[1].items():
        y = kb[1].get(n)
        if y is None:
            continue
        if isinstance(x, Term) and isinstance(y, Term):
            if distinct(x, y):
                return True
        elif _objects_differ(EXACT_CLASS(x), EXACT_CLASS(y)):
            return True
    return False


def distinct(a: Term, b: Term) -> bool:
    """Are the two values definitely different?"""
    if a is b:
        return False
    if is_const(a) and is_const(b):
        if a.op != b.op:
            if {a.op, b.op} == {"num", "bool"}:
                return _numify(a) is not _numify(b)
            return True
        return True
    ca, cb = _shape(a), _shape(b)
    if ca and cb and ca != cb:
        return True
    if a.op in _TYPED and b.op in _TYPED and (a.op != "rec" or b.op != "rec"):
        if _objects_differ(EXACT_CLASS(a), EXACT_CLASS(b)):
            return True
    for x, y in ((a, b), (b, a)):
        if x.op in _TYPED and x.op != "rec" and y.op in ("num", "cstr", "bool", "none", "seq", "dict", "set") and EXACT_CLASS(x):
            return True
    if a.op == "rec" and b.op == "rec":
        if a.args[0] != b.args[0]:
            return True
        da, db = dict(a.args[1]), dict(b.args[1])
        return any(distinct(da[k], db[k]) for k in da if k in db)
    if a.op == "seq" and b.op == "seq":
        if all(s.op == "el" for s in a.args[1] + b.args[1]):
            if len(a.args[1]) != len(b.args[1]):
                return True
            return any(distinct(x.args[0], y.args[0]) for x, y in zip(a.args[1], b.args[1]))
    if a.op == "app" and b.op == "app" and a.args[0] == b.args[0]:
        if a.args[0] in INJECTIVE and len(a.args[1]) == len(b.args[1]) and a.args[1]:
            return any(distinct(x, y) for x, y in zip(a.args[1], b.args[1]))
    if a.op == "item" and b.op == "item" and _indexed(a) and _indexed(b):
        return distinct(a.args[0], b.args[0]) or distinct(a.args[1], b.args[1])
    if is_str(a) and is_str(b):
        pa, pb = _affixes(a), _affixes(b)
        for x, y in ((pa[0], pb[0]),):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return True
        for x, y in ((pa[1], pb[1]),):
            n = min(len(x), len(y))
            if n and x[-n:] != y[-n:]:
                return True
    return False


INJECTIVE = {"sympy.Symbol", "sympy.IndexedBase", "sympy.Str"}


def _indexed(t):
    return t.args[0].op == "app" and t.args[0].args[0] == "sympy.IndexedBase"


def _affixes(s):
    if s.op == "cstr":
        return s.args[0], s.args[0]
    parts = s.args if s.op == "str" else (s,)
    return (parts[0].args[0] if parts[0].op == "cstr" else "",
            parts[-1].args[0] if parts[-1].op == "cstr" else "")


def _shape(t):
    if t.op in ("num", "poly", "SUM", "PROD"):
        return "num" if t.op == "num" else None
    if t.op in ("cstr", "str"):
        return "str"
    if t.op in ("seq", "set", "dict", "rec", "none", "cls", "lam", "fn"):
        return t.op + (str(t.args[0]) if t.op == "seq" else "")
    if t.op == "bool":
        return "num"
    if t.op == "app" and t.args[0] in INJECTIVE:
        return t.args[0]
    if t.op == "item" and _indexed(t):
        return "sympy.Indexed"
    return None


def eq(a: Term, b: Term) -> Term:
    return lift(_eq, a, b)


def _eq(a, b):
    a, b = (_numify(a), _numify(b)) if (is_num(a) or is_num(b)) else (a, b)
    if a is b:
        return TRUE
    if distinct(a, b):
        return FALSE
    if a.op == "bool" or b.op == "bool":
        pass
    if a.op == "seq" and b.op == "seq" and a.args[0] == b.args[0]:
        if all(s.op == "el" for s in a.args[1] + b.args[1]) and len(a.args[1]) == len(b.args[1]):
            return AND(*[eq(x.args[0], y.args[0]) for x, y in zip(a.args[1], b.args[1])])
    if a.op == "set" and b.op == "set":
        ea, eb = set_elements(a), set_elements(b)
        if ea is not None and eb is not None and all(map(is_const, ea + eb)):
            return boolean(set(ea) == set(eb))
        if ea is not None and eb is not None and not ea:
            return boolean(not eb)
        if ea is not None and eb is not None and len(ea) + len(eb) <= 16:
            # an element that differs from all elements of the other set
            for xs, ys in ((ea, eb), (eb, ea)):
                if any(all(x is not y and (distinct(x, y) or eq(x, y) is FALSE) for y in ys) for x in xs):
                    return FALSE
        if ea is not None and eb is not None and all(map(is_const, eb)) | all(map(is_const, ea)):
            # {a, b} == {1, 2}  <=>  every a, b is one of 1, 2 and every 1, 2 is one of a, b
            return AND(*[OR(*[eq(x, y) for y in eb]) for x in ea], *[OR(*[eq(x, y) for x in ea]) for y in eb])
    if a is NONE:
        return is_none(b)
    if b is NONE:
        return is_none(a)
    for x, y in ((a, b), (b, a)):
        if x.op == "seq" and not x.args[1] and y.op == "seq":
            return NOT(truthy(y))
        if is_len(x) and is_num(y):
            src = x.args[1][0]
            if y is ZERO:
                return NOT(nonempty(src))
            if src.op == "set" and set_elements(src) is not None and y.op == "num" and y.args[0] > len(src.args[0]):
                return FALSE
    if a.op == "poly" or b.op == "poly":
        d = _add2(a, _mul2(MINUS_ONE, b))
        if is_num(d):
            return boolean(d is ZERO)
        p = to_poly(d)
        lead = min(p.items(), key=lambda mc: _kof(mc[0]))[1]
        d = _mul2(d, _pow2(mk("num", *lead), MINUS_ONE))
        p = to_poly(d)
        c = p.pop((), (Fraction(0), Fraction(0)))
        if len(p) == 1:
            # x + c == 0  <=>  x == -c
            left = from_poly(p)
            if left.op != "poly":
                return _eq(left, num(-c[0], -c[1]))
        if len(p) == 2 and c == (0, 0):
            # x - y == 0  <=>  x == y
            (mx, cx), (my, cy) = p.items()
            if cx[0] == -cy[0] and cx[1] == -cy[1]:
                x, y = from_poly({mx: ONE.args}), from_poly({my: ONE.args})
                if x.op != "poly" and y.op != "poly":
                    return _eq(x, y)
        return atom(mk("eq", d, ZERO))
    if a.key > b.key:
        a, b = b, a
    r = mk("eq", a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == "set" and y.op == "set":
            e = set_elements(y)
            if e is not None and all(map(is_const, e)):
                SET_EQ.setdefault(x, {})[y] = r
    return atom(r)


SET_EQ: dict = {}  # set -> constant sets to which it was compared


def is_len(t):
    return t.op == "app" and t.args[0] == "len"


def lt(a, b):
    def go(a, b):
        a, b = _numify(a), _numify(b)
        if is_num(a) and is_num(b):
            return boolean(a.args[0] < b.args[0])
        if a is b:
            return FALSE
        if is_len(b) and is_int(a):
            # c < len  <=>  not (len < c + 1)
            return NOT(go(b, add(a, ONE)))
        if is_len(a) and is_int(b):
            if int_of(b) <= 0:
                return FALSE
            if int_of(b) == 1:
                return NOT(nonempty(a.args[1][0]))
            most = set_elements(a.args[1][0]) if a.args[1][0].op == "set" else None
            if most is not None and int_of(b) >= len(most):
                # a display of n elements has at most n different ones
                return NOT(eq(a, b)) if int_of(b) == len(most) else TRUE
            return atom(mk("lt", a, b))
        if a.op == "poly" or b.op == "poly":
            # move everything except a numeric constant to the left
            d = _add2(a, _mul2(MINUS_ONE, b))
            if is_num(d):
                return boolean(d.args[0] < 0)
            p = to_poly(d)
            c = p.pop((), (Fraction(0), Fraction(0)))
            lead = min(p.items(), key=lambda mc: _kof(mc[0]))[1]
            if lead[1] == 0 and lead[0] != 0:
                s = 1 / lead[0]
                left = _mul2(from_poly(p), num(s))
                right = num(-c[0] * s, -c[1] * s)
                if s > 0:
                    return atom(mk("lt", left, right))
                return atom(mk("lt", right, left))
        return atom(mk("lt", a, b))

    return lift(go, a, b)


def le(a, b):
    return NOT(lt(b, a))


def is_none(t):
    def go(t):
        if t is NONE:
            return TRUE
        if t.op in ("sym", "bv", "bx", "attr", "item", "mcall", "app", "first", "rho", "undef", "call", "arg", "last", "fold"):
            if t.op == "app" and t.args[0] in NOT_NONE:
                return FALSE
            r = HOOKS["typeof"](t)
            if r is not None and not _may_be_none(r):
                return FALSE
            return atom(mk("none", t))
        return FALSE

    return lift(go, t)


NOT_NONE = {"len", "sorted", "sympy.Symbol", "sympy.Rational", "sympy.IndexedBase"}


def _may_be_none(typ):
    if typ[0] == "union":
        return any(_may_be_none(x) for x in typ[1])
    return typ[0] in ("none", "any", "typevar")


def isinst(t, typ: Term):
    def go(t):
        r = HOOKS["isinst"](t, typ)
        if r is True:
            return TRUE
        if r is False:
            return FALSE
        u = HOOKS["typeof"](t)
        if u is not None and u[0] == "union" and ("none",) in u[1]:
            # an optional value is an instance where it is not None
            rest = [HOOKS["type_is"](m, typ) for m in u[1] if m[0] != "none"]
            if all(x is True for x in rest):
                return NOT(is_none(t))
        return atom(mk("isinst", t, typ))

    return lift(go, t)


def truthy(t):
    def go(t):
        if t.op == "bool":
            return t
        if t is NONE:
            return FALSE
        if t.op == "num":
            return boolean(t.args != (0, 0))
        if t.op == "cstr":
            return boolean(bool(t.args[0]))
        if t.op in ("seq", "set"):
            return nonempty(t)
        if t.op == "dict":
            return nonempty(t)
        if t.op == "str":
            if any(p.op == "cstr" and p.args[0] for p in t.args):
                return TRUE
            return NOT(eq(t, string("")))
        if t.op in ("lam", "fn", "cls", "ext", "mod"):
            return TRUE
        if is_len(t):
            return nonempty(t.args[1][0])
        r = HOOKS["truthy"](t)
        if r is not None:
            return r
        return atom(mk("truthy", t))

    return lift(go, t)


def is_bool_diagram(t):
    return all(x.op == "bool" for x in leafset(t))


# ---------------------------------------------------------------- binders
def subst(t: Term, mapping: dict) -> Term:
    """Simultaneous substitution, rebuilding through the smart constructors."""
    memo: dict = {}
    keys_fv = set()
    plain = True
    for k in mapping:
        if k.op in ("bv", "rho"):
            keys_fv.add(k.args[0])
        else:
            plain = False

    def go(x):
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        r = mapping.get(x)
        if r is not None:
            return r
        if plain and not (x.fv & keys_fv):
            return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r

    return go(t)


def _replace_level(t: Term, level: int, new: Term) -> Term:
    bx = mk("bx", level)
    memo: dict = {}

    def go(x):
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        if x is bx:
            return new
        r = memo.get(x)
        if r is None:
            if x.op in _ATOMIC:
                r = x
            elif not _has_bx(x, level):
                r = x
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


_HASBX: dict = {}


def _has_bx(t: Term, level: int) -> bool:
    k = (t, level)
    r = _HASBX.get(k)
    if r is None:
        if t.op == "bx":
            r = t.args[0] == level
        else:
            r = False
            stack = list(t.args)
            while stack:
                a = stack.pop()
                if isinstance(a, Term):
                    if _has_bx(a, level):
                        r = True
                        break
                elif isinstance(a, tuple):
                    stack.extend(a)
        _HASBX[k] = r
    return r


_ATOMIC = {"num", "bool", "cstr", "none", "ellipsis", "bytes", "float", "cls", "ext", "fn", "mod", "sym",
           "bv", "bx", "rho", "undef", "ref", "clo", "zoo", "meth", "opaque"}


def close(t: Term, var: Term, level: int) -> Term:
    return subst(t, {var: mk("bx", level)})


def level_for(*ts) -> int:
    return 1 + max((t.lvl for t in ts), default=0)


def open_binder(t: Term, src=None):
    """Body of a single-variable binder with a fresh variable."""
    level = t.args[0]
    v = fresh_bv(None, src)
    return v


# ---------------------------------------------------------------- sequences
def el(t):
    return mk("el", t)


def seq(kind, segs) -> Term:
    return mk("seq", kind, tuple(segs))


def seq_lift(kind, elems) -> Term:
    """Sequence display whose elements may be gated."""
    return lift(lambda *xs: seq(kind, [el(x) for x in xs]), *elems)


def seq_elements(t):
    """Elements of a sequence without unknown parts, or None."""
    if t.op == "seq" and all(s.op == "el" for s in t.args[1]):
        return [s.args[0] for s in t.args[1]]
    return None


def set_elements(t):
    if t.op == "set" and all(s.op == "el" for s in t.args[0]):
        return [s.args[0] for s in t.args[0]]
    return None


def unordered(src: Term) -> Term:
    """The collection `src` up to the order of its elements."""
    while src.op == "app" and src.args[0] in ("sorted", "reversed", "list", "tuple") and src.args[1]:
        src = src.args[1][0]
    return src


_UNIQUES: dict = {}


def uniques(fold):
    """The fold appends each new element to a list: list of all elements, repetitions included (and whether
    the collected list has no repetitions)."""
    if fold not in _UNIQUES:
        _UNIQUES[fold] = _uniques(fold)
    return _UNIQUES[fold]


def _uniques(fold):
    l1, l2, src, init, body = fold.args
    if init.op != "seq" or init.args[0] != "list":
        return None
    v = fresh_bv(HOOKS["elem_type"](src), src)
    body = _replace_level(_replace_level(body, l1, v), l2, _ACC)
    has = [a for a in atoms_of(body) if a.op == "in" and a.args[1] is _ACC]
    if len(has) != 1 or any(a.fv & _ACC.fv for a in atoms_of(body) if a is not has[0]):
        return None
    keep = (_ACC, seq("list", [mk("sp", _ACC)]))
    more = seq("list", [mk("sp", _ACC), el(has[0].args[0])])
    if any(x not in keep for x in leafset(restrict(body, has[0], True))):
        return None
    rest = restrict(body, has[0], False)
    if any(x not in keep and x is not more for x in leafset(rest)):
        return None
    rest = lift(lambda x: seq("list", [more.args[1][1]]) if x is more else seq("list", []), rest)
    first_ = seq_elements(init)
    alone = first_ is not None and all(distinct(x, y) for i, x in enumerate(first_) for y in first_[:i])
    return concat("list", init, mkfor(v, src, rest)), alone


def _unorder_segment(s):
    """Sequence diagram with the elements of segment `s` in some order."""
    if s.op == "sp" and s.args[0].op == "fold":
        u = uniques(s.args[0])
        if u is not None:
            return u[0]
    if s.op == "sp":
        u = unordered(s.args[0])
        if u is not s.args[0]:
            return lift(lambda x: seq("list", x.args[0]) if x.op == "set" else (
                x if x.op == "seq" else seq("list", [mk("sp", x)])), u)
    if s.op == "for":
        u = unordered(s.args[1])
        if u is not s.args[1]:
            v = fresh_bv(HOOKS["elem_type"](u), u)
            b = _replace_level(s.args[2], s.args[0], v)

            def go(x):
                if x.op == "set":
                    x = seq("list", x.args[0])
                return flatmap(x, lambda y: subst(b, {v: y}))

            return lift(go, u)
        v = fresh_bv(HOOKS["elem_type"](u), u)
        b = _replace_level(s.args[2], s.args[0], v)
        if v.args[0] not in b.fv and b.op == "seq" and seq_elements(b) is not None:
            # every element of the source gives the same elements
            return ite(nonempty(u), seq("list", b.args[1]), seq("list", []))
    return None


def mkset(segs) -> Term:
    segs = list(segs)
    alt = [_unorder_segment(s) for s in segs]
    if any(a is not None for a in alt):
        whole = concat("list", *[a if a is not None else seq("list", [s]) for a, s in zip(alt, segs)])
        return lift(lambda x: mkset(x.args[1]), whole)
    seen: dict = {}
    for s in segs:
        if s.op == "el" and s.args[0].op == "bool":
            s = el(s.args[0])
        seen[s] = True
    order = sorted(seen, key=_set_key)
    return mk("set", tuple(order))


def _set_key(s):
    if s.op == "el" and is_num(s.args[0]):
        return (0, s.args[0].args[0], "")
    if s.op == "el" and s.args[0].op == "cstr":
        return (1, 0, s.args[0].args[0])
    return (2, 0, s.key)


def as_segments(t: Term):
    """Segments of an iterable value (a non-gated term), as used by loops."""
    if t.op == "seq":
        return t.args[1]
    if t.op == "set":
        if set_elements(t) is not None and all(is_const(x) or is_num(x) for x in set_elements(t)):
            return t.args[0]
        # a set comprehension may merge elements: it is an opaque source,
        # except when it is just the set of another source
        return (mk("sp", t),)
    if t.op == "dict":
        if all(s.op == "kv" for s in t.args[0]) and not _may_coincide([s.args[0] for s in t.args[0]]):
            return tuple(el(s.args[0]) for s in t.args[0])
        return (mk("sp", t),)
    if t.op == "cstr":
        return tuple(el(string(c)) for c in t.args[0])
    return (mk("sp", t),)


def _may_coincide(keys):
    """Are there numbers among the keys of a dictionary that may be equal?"""
    def number(k):
        typ = HOOKS["typeof"](k)
        return is_num(k) or typ is not None and typ[0] in ("num", "int", "float")

    ks = [k for k in keys if number(k)]
    return any(not distinct(p, q) for i, p in enumerate(ks) for q in ks[:i])


def flatmap(src: Term, f, kind="list", typ=None) -> Term:
    """[y for x in src for y in f(x)] where f maps an element to a sequence diagram."""

    def go(src):
        out = []
        for s in as_segments(src):
            out.append(_flat_segment(s, f, typ))
        return concat(kind, *out)

    return lift(go, src)


def _flat_segment(s, f, typ=None):
    if s.op == "el":
        return f(s.args[0])
    if s.op == "sp":
        v = fresh_bv(typ if typ is not None else HOOKS["elem_type"](s.args[0]), s.args[0])
        return mkfor(v, s.args[0], f(v))
    if s.op == "for":
        level, src, body = s.args
        v = fresh_bv(HOOKS["elem_type"](src), src)
        b = _replace_level(body, level, v)
        inner = lift(lambda leaf: concat("list", *[_flat_segment(x, f, typ) for x in leaf.args[1]]), b)
        return mkfor(v, src, inner)
    raise AssertionError(s.op)


HOOKS["elem_type"] = lambda t: None


def concat(kind, *seqs) -> Term:
    def go(*xs):
        out = []
        for x in xs:
            if x.op == "seq":
                out.extend(x.args[1])
            else:
                out.extend(as_segments(x))
        return seq(kind, out)

    return lift(go, *seqs) if seqs else seq(kind, [])


def plain_source(v, src, body):
    """Iterate over the elements themselves where their position is not used."""
    if src.op != "app" or v.args[0] not in body.fv:
        return v, src, body
    if src.args[0] == "enumerate" and src.args[1]:
        inner = src.args[1][0]
        w = fresh_bv(HOOKS["elem_type"](inner), inner)
        b = subst(body, {mk("item", v, ONE): w})
        if v.args[0] not in b.fv:
            return w, inner, b
    if src.args[0] == "range" and src.args[1][0] is ZERO and src.args[1][2] is ONE and is_len(src.args[1][1]):
        whole = src.args[1][1].args[1][0]
        found = _indexed_by(body, v)
        inner = found.pop() if len(found) == 1 else None
        if inner is not None and unordered(inner) is whole and v.args[0] not in inner.fv:
            w = fresh_bv(HOOKS["elem_type"](inner), inner)
            b = subst(body, {mk("item", inner, v): w})
            if v.args[0] not in b.fv:
                return w, inner, b
    return v, src, body


def _indexed_by(t, v):
    """The sequences of which an element at position `v` occurs in `t`."""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, Term) and x not in seen and v.args[0] in x.fv:
            seen.add(x)
            if x.op == "item" and x.args[1] is v:
                out.add(x.args[0])
            todo.extend(x.args)
    return out


def mkfor(v: Term, src: Term, body: Term) -> Term:
    """Sequence diagram of a comprehension with bound variable `v` over `src`."""
    v, src, body = plain_source(v, src, body)
    # conditions that do not depend on the variable are lifted out of the binder
    for a in sorted(atoms_of(body), key=lambda a: a.key):
        if v.args[0] not in a.fv:
            return ite(atom(a), mkfor(v, src, restrict(body, a, True)), mkfor(v, src, restrict(body, a, False)))
    body = lift(lambda x: seq("list", x.args[1]) if x.op == "seq" else x, body)
    if all(x.op == "seq" and not x.args[1] for x in leafset(body)):
        return seq("list", [])
    if body.op == "seq" and len(body.args[1]) == 1 and body.args[1][0] is el(v):
        return seq("list", [mk("sp", src)])
    level = level_for(body)
    closed = close(body, v, level)
    level2 = level_for(closed)
    if level2 != level + 0 and closed.lvl >= level:
        level = closed.lvl + 1
        closed = close(body, v, level)
    return seq("list", [mk("for", level, src, closed)])


def exists(src: Term, f, typ=None) -> Term:
    """Is there an element of `src` for which the condition f(x) holds?"""

    def seg(s):
        u = _unorder_segment(s)
        if u is not None:
            return lift(lambda leaf: OR(*[seg(x) for x in leaf.args[1]]), u)
        if s.op == "el":
            return f(s.args[0])
        if s.op == "sp":
            v = fresh_bv(typ if typ is not None else HOOKS["elem_type"](s.args[0]), s.args[0])
            return mkexists(v, s.args[0], f(v))
        if s.op == "for":
            level, sr, body = s.args
            v = fresh_bv(HOOKS["elem_type"](sr), sr)
            b = _replace_level(body, level, v)
            inner = lift(lambda leaf: OR(*[seg(x) for x in leaf.args[1]]), b)
            return mkexists(v, sr, inner)
        raise AssertionError(s.op)

    return lift(lambda x: OR(*[seg(s) for s in (x.args[0] if x.op == "set" else as_segments(x))]), src)


def mkexists(v, src, cond) -> Term:
    if cond is FALSE:
        return FALSE
    v, src, cond = plain_source(v, src, cond)
    if src.op == "seq":
        return exists(src, lambda x: subst(cond, {v: x}))
    out = FALSE
    for cube in cubes(cond):
        inside = TRUE
        outside = TRUE
        for a, val in cube:
            lit = atom(a) if val else NOT(atom(a))
            if v.args[0] in a.fv:
                inside = AND(inside, lit)
            else:
                outside = AND(outside, lit)
        out = OR(out, AND(outside, _mkex(v, src, inside)))
    return out


NEVER_EMPTY = {"initial_states", "final_states"}  # of a transition of QRules


def _mkex(v, src, cond):
    if cond is FALSE:
        return FALSE
    if cond is TRUE:
        base = src
        while base.op == "app" and base.args[0] in ("keyset", "items", "dict_values", "sorted", "enumerate") and base.args[1]:
            base = base.args[1][0]
        if base.op == "attr" and base.args[1] in NEVER_EMPTY:
            return TRUE
    level = level_for(cond)
    closed = close(cond, v, level)
    if closed.lvl >= level and closed.lvl != 0:
        level = closed.lvl + 1
        closed = close(cond, v, level)
    return atom(mk("ex", level, src, closed))


def nonempty(t) -> Term:
    def go(t):
        if t.op == "set":
            if set_elements(t) is not None:
                return boolean(bool(t.args[0]))
            # a set is empty iff its segments are
            return exists(seq("list", t.args[0]), lambda x: TRUE)
        if t.op == "dict":
            r = FALSE
            for s in t.args[0]:
                if s.op == "kv":
                    return TRUE
                if s.op == "sp":
                    r = OR(r, nonempty(s.args[0]))
                if s.op == "dfor":
                    level, src, body = s.args
                    v = fresh_bv(HOOKS["elem_type"](src), src)
                    b = _replace_level(body, level, v)
                    r = OR(r, mkexists(v, src, lift(nonempty, b)))
            return r
        if t.op == "app" and t.args[0] in ("sorted", "reversed") and t.args[1]:
            return nonempty(t.args[1][0])
        return exists(t, lambda x: TRUE)

    return lift(go, t)


def first(src: Term, f=None, typ=None, default: Term = UNDEF) -> Term:
    """First element of `src` satisfying f (UNDEF when there is none)."""
    f = f or (lambda x: TRUE)

    def over(segs, src_t):
        if not segs:
            return default
        s, rest = segs[0], segs[1:]
        if s.op == "el":
            c = f(s.args[0])
            if c is TRUE:
                return s.args[0]
            return ite(c, s.args[0], over(rest, src_t))
        if s.op == "sp":
            sr = s.args[0]
            v = fresh_bv(typ if typ is not None else HOOKS["elem_type"](sr), sr)
            c = f(v)
            val = _mkfirst(v, sr, c)
            if not rest and default is UNDEF:
                return val
            return ite(mkexists(v, sr, c), val, over(rest, src_t))
        if s.op == "for":
            level, sr, body = s.args
            v = fresh_bv(HOOKS["elem_type"](sr), sr)
            b = _replace_level(body, level, v)
            # each leaf is a sequence; find its first matching element
            has = lift(lambda leaf: exists(leaf, f), b)
            got = lift(lambda leaf: over(leaf.args[1], leaf), b)
            w = _mkfirst(v, sr, has)
            val = assume_true(subst(got, {v: w}), subst(has, {v: w}))
            if not rest and default is UNDEF:
                return val
            return ite(mkexists(v, sr, has), val, over(rest, src_t))
        raise AssertionError

    return lift(lambda x: over(as_segments(x), x), src)


def assume_true(t: Term, cond: Term) -> Term:
    """Value of `t` where `cond` holds: prune the branches in which it does not."""
    t = ite(cond, t, UNDEF)
    return drop_undef(t)


def drop_undef(t: Term) -> Term:
    """Collapse branches that are never taken (UNDEF leaves)."""
    if t.op != "ite":
        return t
    memo: dict = {}

    def go(x):
        if x.op != "ite":
            return x
        r = memo.get(x)
        if r is None:
            a, hi, lo = x.args
            h, l = go(hi), go(lo)
            if h is UNDEF:
                r = l
            elif l is UNDEF:
                r = h
            else:
                r = ite(atom(a), h, l)
            memo[x] = r
        return r

    return go(t)


def _mkfirst(v, src, cond):
    # conditions that do not depend on the element do not select it
    if cond is FALSE:
        return UNDEF
    for a in sorted(atoms_of(cond), key=lambda a: a.key):
        if v.args[0] not in a.fv:
            h, l = restrict(cond, a, True), restrict(cond, a, False)
            return ite(atom(a), _mkfirst(v, src, h), _mkfirst(v, src, l))
    if cond is TRUE and src.op not in ("set",):
        return item(src, ZERO)
    level = level_for(cond)
    closed = close(cond, v, level)
    if closed.lvl >= level:
        level = closed.lvl + 1
        closed = close(cond, v, level)
    return mk("first", level, src, closed)


# ---------------------------------------------------------------- dictionaries
def kv(k, v):
    return mk("kv", k, v)


def mkdict(segs) -> Term:
    out: list = []
    for s in segs:
        if s.op == "kv":
            for i, o in enumerate(out):
                if o.op == "kv" and o.args[0] is s.args[0] and all(
                        x.op == "kv" and (x.args[0] is s.args[0] or distinct(x.args[0], s.args[0])) for x in out[i:]):
                    out[i] = s
                    break
            else:
                out.append(s)
        elif s.op == "sp" and s.args[0].op == "dict":
            out = list(mkdict(out + list(s.args[0].args[0])).args[0])
        else:
            out.append(s)
    return mk("dict", tuple(out))


def dict_update(d: Term, e: Term) -> Term:
    return lift(lambda a, b: mkdict((a.args[0] if a.op == "dict" else (mk("sp", a),))
                                    + (b.args[0] if b.op == "dict" else (mk("sp", b),))), d, e)


def dict_store(d, k, v) -> Term:
    return lift(lambda a, kk, vv: mkdict((a.args[0] if a.op == "dict" else (mk("sp", a),)) + (kv(kk, vv),)), d, k, v)


def align_leaves(t) -> Term:
    """A gated list of which all cases have the same number of elements, as a list of gated elements."""
    ls = [x for x in leafset(t) if x is not UNDEF]
    if not ls or not all(x.op == "seq" and all(s.op == "el" for s in x.args[1]) for x in ls):
        return t
    n = {len(x.args[1]) for x in ls}
    if len(n) != 1:
        return t

    def at(i):
        return lift(lambda x: x.args[1][i].args[0] if x.op == "seq" else x, t)

    return seq(ls[0].args[0], [el(at(i)) for i in range(n.pop())])


def mkdfor(v, src, body) -> Term:
    v, src, body = plain_source(v, src, body)
    for a in sorted(atoms_of(body), key=lambda a: a.key):
        if v.args[0] not in a.fv:
            return ite(atom(a), mkdfor(v, src, restrict(body, a, True)), mkdfor(v, src, restrict(body, a, False)))
    if all(x.op == "dict" and not x.args[0] for x in leafset(body)):
        return mkdict([])
    if all(x.op == "dict" and len(x.args[0]) == 1 and x.args[0][0].op == "kv" and x.args[0][0].args[0] is v
           for x in leafset(body)):
        copied = lift(lambda x: x.args[0][0].args[1], body)  # {k: d[k] for k in d}
        for d in {x for x in leafset(copied) if x.op == "item" and x.args[1] is v and x.args[0].op not in ("seq", "dict")}:
            if (src is d.args[0] or src is app("keyset", (d.args[0],))) and (
                    copied is d or copied is ite(is_none(d), NONE, d)):
                return mkdict([mk("sp", d.args[0])])
    level = level_for(body)
    closed = close(body, v, level)
    if closed.lvl >= level:
        level = closed.lvl + 1
        closed = close(body, v, level)
    return mk("dict", (mk("dfor", level, src, closed),))


def dict_flatmap(src: Term, f, typ=None) -> Term:
    """{k: v for x in src for k, v in f(x)} where f maps to a dict diagram."""

    def seg(s):
        if s.op == "el":
            return f(s.args[0])
        if s.op == "sp":
            v = fresh_bv(typ if typ is not None else HOOKS["elem_type"](s.args[0]), s.args[0])
            return mkdfor(v, s.args[0], f(v))
        if s.op == "for":
            level, sr, body = s.args
            v = fresh_bv(HOOKS["elem_type"](sr), sr)
            b = _replace_level(body, level, v)
            inner = lift(lambda leaf: fold_update([seg(x) for x in leaf.args[1]]), b)
            return mkdfor(v, sr, inner)
        raise AssertionError

    return lift(lambda x: fold_update([seg(s) for s in as_segments(x)]), src)


def fold_update(ds):
    r = mkdict([])
    for d in ds:
        r = dict_update(r, d)
    return r


MISSING = mk("sym", "<missing>")


def dict_get(d: Term, k: Term, default: Term) -> Term:
    """d[k] with `default` when the key is absent."""

    def go(d, k):
        if d.op != "dict":
            return ite(contains(k, d), mk("item", d, k), default)
        r = default
        segs = d.args[0]
        for i, s in enumerate(segs):
            if s.op == "kv":
                r = ite(eq(k, s.args[0]), s.args[1], r)
            elif s.op == "sp":
                r = ite(contains(k, s.args[0]), item(s.args[0], k), r)
            else:
                dd = mk("dict", (s,))
                inv = _dfor_lookup(s, k)
                r = ite(contains(k, dd), inv if inv is not None else mk("item", dd, k), r)
        return r

    return lift(go, d, k)


def _dfor_lookup(s, k):
    """{x: g(x) for x in src}[k] = g(k)."""
    level, src, body = s.args
    v = fresh_bv(HOOKS["elem_type"](src), src)
    b = _replace_level(body, level, v)
    if b.op == "dict" and len(b.args[0]) == 1 and b.args[0][0].op == "kv" and b.args[0][0].args[0] is v:
        return subst(b.args[0][0].args[1], {v: k})
    return None


def contains(x: Term, coll: Term) -> Term:
    def go(x, c):
        if c.op in ("seq", "set"):
            segs = c.args[1] if c.op == "seq" else c.args[0]
            r = FALSE
            for s in segs:
                if s.op == "el":
                    r = OR(r, eq(x, s.args[0]))
                elif s.op == "sp":
                    u = uniques(s.args[0]) if s.args[0].op == "fold" else None
                    r = OR(r, contains(x, u[0]) if u is not None else _in_atom(x, s.args[0]))
                else:
                    r = OR(r, exists(seq("list", [s]), lambda y: eq(x, y)))
            return r
        if c.op == "dict":
            r = FALSE
            for s in c.args[0]:
                if s.op == "kv":
                    r = OR(r, eq(x, s.args[0]))
                elif s.op == "sp":
                    r = OR(r, _in_atom(x, s.args[0]))
                else:
                    level, src, body = s.args
                    v = fresh_bv(HOOKS["elem_type"](src), src)
                    b = _replace_level(body, level, v)
                    if b.op == "dict" and len(b.args[0]) == 1 and b.args[0][0].op == "kv" and b.args[0][0].args[0] is v:
                        r = OR(r, _in_atom(x, src))
                    else:
                        r = OR(r, mkexists(v, src, lift(lambda bb: contains(x, bb), b)))
            return r
        if is_str(c) and is_str(x):
            if c.op == "cstr" and x.op == "cstr":
                return boolean(x.args[0] in c.args[0])
        return _in_atom(x, c)

    return lift(go, x, coll)


def _in_atom(x, c):
    if x.op == "bv":
        src = BV_SRC.get(x.args[0])
        while src is not None and src is not c and src.op == "app" and src.args[0] in ("sorted", "reversed") and src.args[1]:
            src = src.args[1][0]
        if src is c:
            return TRUE
    if x.op in ("first",) and x.args[1] is c:
        return TRUE
    if x.op == "item" and x.args[0] is c and HOOKS["typeof"](c) and HOOKS["typeof"](c)[0] in ("list", "tuple*", "set"):
        return TRUE
    if c.op in ("seq", "set", "dict"):
        return contains(x, c)
    if c.op == "app" and c.args[0] in ("sorted", "reversed") and c.args[1]:
        return contains(x, c.args[1][0])
    g = grouping(c) if c.op == "fold" else None
    if g is not None:
        v, src, key, chosen, _ = g
        return mkexists(v, src, AND(chosen, eq(key, x)))
    return atom(mk("in", x, c))


def member(x, src):
    """Is `x` one of the values of a collection of known elements? (true if these are not known)"""
    while src.op == "app" and src.args[0] in ("keyset", "sorted", "reversed") and src.args[1]:
        src = src.args[1][0]
    segs = src.args[1] if src.op == "seq" else src.args[0] if src.op in ("set", "dict") else ()
    if not segs or not all(s.op in ("el", "kv") for s in segs):
        return TRUE
    return OR(*[eq(x, s.args[0]) for s in segs])


_ACC = fresh_bv(("dict",))
_GROUPING: dict = {}


def grouping(fold):
    """The fold collects {key(x): [value(x), ...]} for the elements of a sequence: (x, source, key, condition, value)"""
    if fold not in _GROUPING:
        _GROUPING[fold] = _grouping(fold)
    return _GROUPING[fold]


def _grouping(fold):
    l1, l2, src, init, body = fold.args
    if init.op != "dict" or init.args[0]:
        return None
    v = fresh_bv(HOOKS["elem_type"](src), src)
    body = _replace_level(_replace_level(body, l1, v), l2, _ACC)
    has = [a for a in atoms_of(body) if a.op == "in" and a.args[1] is _ACC]
    if len(has) != 1:
        return None
    key = has[0].args[0]
    old, new = restrict(body, has[0], True), restrict(body, has[0], False)
    found = []
    for b, known in ((old, True), (new, False)):
        if any(a.fv & _ACC.fv for a in atoms_of(b)):
            return None
        for x in leafset(b):
            if x is _ACC:
                continue
            if x.op != "dict" or len(x.args[0]) != 2 or x.args[0][0] is not mk("sp", _ACC):
                return None
            e = x.args[0][1]
            if e.op != "kv" or e.args[0] is not key or e.args[1].op != "seq" or e.args[1].args[0] != "list":
                return None
            segs = e.args[1].args[1]
            if known:
                if not segs or segs[0] is not mk("sp", mk("item", _ACC, key)):
                    return None
                segs = segs[1:]
            if len(segs) != 1 or segs[0].op != "el" or segs[0].fv & _ACC.fv:
                return None
            found.append((known, condition_of_leaf(b, lambda y, x=x: y is x), segs[0].args[0]))
    if len(found) != 2 or found[0][1:] != found[1][1:]:
        return None
    return v, src, key, found[0][1], found[0][2]


# ---------------------------------------------------------------- access
def item(obj: Term, idx: Term) -> Term:
    def go(o, i):
        if o.op == "seq" and is_int(i):
            n = int_of(i)
            segs = o.args[1]
            if n >= 0:
                if all(s.op == "el" for s in segs[: n + 1]) and n < len(segs):
                    return segs[n].args[0]
                if all(s.op == "el" for s in segs) and n >= len(segs):
                    return UNDEF
                if n == 0 and segs:
                    return first(o)
                if len(segs) == 1 and segs[0].op == "sp":
                    return item(segs[0].args[0], i)
                if len(segs) == 1 and segs[0].op == "for":
                    level, sr, body = segs[0].args
                    if body.op == "seq" and len(body.args[1]) == 1 and body.args[1][0].op == "el":
                        # one item for each item of the source
                        v = fresh_bv(HOOKS["elem_type"](sr), sr)
                        return subst(_replace_level(body.args[1][0].args[0], level, v), {v: item(sr, i)})
            else:
                if all(s.op == "el" for s in segs[n:]) and -n <= len(segs):
                    return segs[n].args[0]
                if all(s.op == "el" for s in segs):
                    return UNDEF
        if o.op == "app" and o.args[0] == "sorted" and is_int(i):
            r = extreme_of_sorted(o, int_of(i))
            if r is not None:
                return r
        if o.op == "seq" and i.op == "seq" and i.args[0] == "slice":
            r = slice_seq(o, i)
            if r is not None:
                return r
        if o.op == "seq" and seq_elements(o) is not None and not is_num(i) and i.op != "seq":
            es = seq_elements(o)
            if es and len(es) <= 8:
                # symbolic index into a sequence of known length
                r = mk("item", o, i)
                for n in reversed(range(len(es))):
                    r = ite(eq(i, num(n)), es[n], r)
                return r
        g = grouping(o) if o.op == "fold" and not (i.op == "bv" and BV_SRC.get(i.args[0]) is o) else None
        if g is not None:
            v, src, key, chosen, value = g
            return mkfor(v, src, ite(AND(chosen, eq(key, i)), seq("list", [el(value)]), seq("list", [])))
        if o.op == "cstr" and is_int(i):
            try:
                return string(o.args[0][int_of(i)])
            except IndexError:
                return UNDEF
        if o.op == "dict":
            segs = o.args[0]
            if segs and all(s.op == "kv" for s in segs):
                if all(distinct(i, s.args[0]) for s in segs):
                    return UNDEF
            return drop_undef(dict_get(o, i, UNDEF))
        if o is UNDEF or i is UNDEF:
            return UNDEF
        if o.op == "arg" :
            return _map_arg(o, lambda r: item(r, i))
        return mk("item", o, i)

    return lift(go, obj, idx)


def extreme_of_sorted(o, i):
    """sorted(x)[0] is min(x), sorted(x)[-1] is max(x)."""
    kw = dict(o.args[2])
    rev = kw.get("reverse", FALSE)
    key = kw.get("key")
    if i not in (0, -1) or rev not in (TRUE, FALSE) or i == -1 and key is not None:
        return None
    which = "min" if (i == 0) == (rev is FALSE) else "max"
    src = o.args[1][0]
    segs = as_segments(src)
    if len(segs) == 1 and segs[0].op == "for":
        level, sr, body = segs[0].args
        b = fresh_bv(HOOKS["elem_type"](sr), sr)
        bd = _replace_level(body, level, b)
        if bd.op == "seq" and len(bd.args[1]) == 1 and bd.args[1][0].op == "el":
            res = bd.args[1][0].args[0]
            kt = res if key is None else apply_lam(key, [res])
            if kt.op != "ite" and res.op != "ite":
                return mkarg(b, which, sr, kt, res)
    sr = segs[0].args[0] if len(segs) == 1 and segs[0].op == "sp" else seq("list", segs)
    b = fresh_bv(HOOKS["elem_type"](sr), sr)
    return mkarg(b, which, sr, b if key is None else apply_lam(key, [b]), b)


def slice_seq(o, i):
    lo, hi, st = (x.args[0] for x in i.args[1])
    segs = o.args[1]
    if all(x is NONE or is_int(x) for x in (lo, hi, st)):
        vals = [None if x is NONE else int_of(x) for x in (lo, hi, st)]
        if all(s.op == "el" for s in segs):
            return seq(o.args[0], segs[slice(*vals)])
        if vals[2] in (None, 1) and vals[1] is None and vals[0] is not None and vals[0] >= 0:
            if all(s.op == "el" for s in segs[: vals[0]]):
                return seq(o.args[0], segs[vals[0]:])
    return None


def _map_arg(o, f):
    """Apply f to the result expression of an argmax/argmin node."""
    level, which, src, key, res = o.args
    v = fresh_bv(None, src)
    k = _replace_level(key, level, v)
    r = f(_replace_level(res, level, v))
    return mkarg(v, which, src, k, r)


def mkarg(v, which, src, key, res):
    level = level_for(key, res)
    ck, cr = close(key, v, level), close(res, v, level)
    if max(ck.lvl, cr.lvl) >= level:
        level = max(ck.lvl, cr.lvl) + 1
        ck, cr = close(key, v, level), close(res, v, level)
    return mk("arg", level, which, src, ck, cr)


def rec(cls: str, fields) -> Term:
    names = tuple(n for n, _ in fields)
    return lift(lambda *vs: mk("rec", cls, tuple(zip(names, vs))), *[v for _, v in fields])


def rec_field(t, name):
    for n, v in t.args[1]:
        if n == name:
            return v
    return None


def app(name, args=(), kwargs=()) -> Term:
    """Application of an uninterpreted function; gated arguments are lifted."""
    n = len(args)
    kn = tuple(k for k, _ in kwargs)

    def go(*xs):
        f = SIMPLIFY.get(name)
        a = tuple(xs[:n])
        k = tuple(sorted(zip(kn, xs[n:])))
        if f is not None:
            r = f(a, dict(k))
            if r is not None:
                return r
        return mk("app", name, a, k)

    return lift(go, *args, *[v for _, v in kwargs])


def divider(op):
    def go(a, k):
        x, y = a
        if x.op == y.op == "num" and not x.args[1] and not y.args[1] and y.args[0]:
            return num(op(x.args[0], y.args[0]))
        return None

    return go


SIMPLIFY: dict = {}


def mcall(name, obj, args=(), kwargs=()) -> Term:
    n = len(args)
    kn = tuple(k for k, _ in kwargs)

    def go(o, *xs):
        return mk("mcall", name, o, tuple(xs[:n]), tuple(sorted(zip(kn, xs[n:]))))

    return lift(go, obj, *args, *[v for _, v in kwargs])


def attr(obj, name) -> Term:
    def go(o):
        if o is UNDEF:
            return UNDEF
        if o.op == "rec":
            v = rec_field(o, name)
            if v is not None:
                return v
        return mk("attr", o, name)

    return lift(go, obj)


# sums and products over comprehensions
def big(op: str, s: Term) -> Term:
    """Sum ('SUM') or product ('PROD') of a sequence."""
    unit, comb = (ZERO, add) if op == "SUM" else (ONE, mul)

    def go(s):
        if s.op not in ("seq",):
            s = seq("list", as_segments(s))
        r = unit
        for g in s.args[1]:
            if g.op == "el":
                r = comb(r, g.args[0])
            else:
                r = comb(r, _big_seg(op, g, unit, comb))
        return r

    return lift(go, s)


def _big_seg(op, g, unit, comb):
    if g.op == "sp":
        return mk(op, seq("list", [g]))
    level, src, body = g.args
    v = fresh_bv(HOOKS["elem_type"](src), src)
    b = _replace_level(body, level, v)

    def leaf(x):
        t = unit
        for e in x.args[1]:
            t = comb(t, e.args[0] if e.op == "el" else _big_seg(op, e, unit, comb))
        return t

    tot = lift(leaf, b)
    nb = lift(lambda t: seq("list", [] if t is unit else [el(t)]), tot)
    s = mkfor(v, src, nb)
    return lift(lambda q: unit if not q.args[1] else mk(op, q), s)


# ---------------------------------------------------------------- rebuilding
def rebuild(t: Term, go) -> Term:
    op, a = t.op, t.args
    if op in _ATOMIC:
        return t
    f = _REBUILD.get(op)
    if f is not None:
        return f(t, go)
    # structural default: children are lifted
    return mk(op, *[go(x) for x in a])


def _rb_ite(t, go):
    a, hi, lo = t.args
    return ite(go(a), go(hi), go(lo)) if False else ite(_rb_atom(a, go), go(hi), go(lo))


def _rb_atom(a, go):
    """Rebuild a decision atom into a (boolean) diagram."""
    op = a.op
    if op == "eq":
        return eq(go(a.args[0]), go(a.args[1]))
    if op == "lt":
        return lt(go(a.args[0]), go(a.args[1]))
    if op == "in":
        return contains(go(a.args[0]), go(a.args[1]))
    if op == "none":
        return is_none(go(a.args[0]))
    if op == "isinst":
        return isinst(go(a.args[0]), go(a.args[1]))
    if op == "truthy":
        return truthy(go(a.args[0]))
    if op == "ex":
        level, src, cond = a.args
        s2 = go(src)
        return exists(s2, lambda x: go_with(cond, level, x, go))
    r = go(a)
    return r if r.op in ("ite", "bool") else atom(r)


def go_with(body, level, x, go):
    """Rebuild a binder body with its variable instantiated to `x`."""
    v = fresh_bv(BV_TYPE.get(x.args[0]) if x.op == "bv" else None)
    b = _replace_level(body, level, v)
    b = go(b)
    return subst(b, {v: x})


def _rb_for(t, go):
    raise AssertionError("for segment outside a sequence")


def _rb_segs(segs, go):
    out = []
    for s in segs:
        if s.op == "el":
            out.append(lift(lambda x: seq("list", [el(x)]), go(s.args[0])))
        elif s.op == "sp":
            src = go(s.args[0])
            out.append(lift(lambda x: seq("list", as_segments(x)), src))
        else:
            level, src, body = s.args
            src2 = go(src)
            out.append(flatmap(src2, lambda x: go_with(body, level, x, go)))
    return out


def _rb_seq(t, go):
    kind, segs = t.args
    return concat(kind, *_rb_segs(segs, go))


def _rb_set(t, go):
    parts = _rb_segs(t.args[0], go)
    return lift(lambda *xs: mkset([s for x in xs for s in x.args[1]]), *parts) if parts else mkset([])


def _rb_dict(t, go):
    r = mkdict([])
    for s in t.args[0]:
        if s.op == "kv":
            r = dict_store(r, go(s.args[0]), go(s.args[1]))
        elif s.op == "sp":
            r = dict_update(r, go(s.args[0]))
        else:
            level, src, body = s.args
            src2 = go(src)
            r = dict_update(r, dict_flatmap(src2, lambda x: go_with(body, level, x, go)))
    return r


def _rb_poly(t, go):
    r = ZERO
    for m, c in t.args[0]:
        p = mk("num", *c)
        for b, e in m:
            p = mul(p, power(go(b), go(e)))
        r = add(r, p)
    return r


def _rb_big(t, go):
    return big(t.op, go(t.args[0]))


def _rb_rec(t, go):
    return rec(t.args[0], [(n, go(v)) for n, v in t.args[1]])


def _rb_app(t, go):
    return app(t.args[0], tuple(go(x) for x in t.args[1]), tuple((k, go(v)) for k, v in t.args[2]))


def _rb_mcall(t, go):
    return mcall(t.args[0], go(t.args[1]), tuple(go(x) for x in t.args[2]), tuple((k, go(v)) for k, v in t.args[3]))


def _rb_attr(t, go):
    return HOOKS["attr"](go(t.args[0]), t.args[1])


HOOKS["attr"] = attr


def _rb_first(t, go):
    level, src, cond = t.args
    return first(go(src), lambda x: go_with(cond, level, x, go))


def _rb_last(t, go):
    level, src, cond = t.args
    s2 = go(src)
    v = fresh_bv(None, s2)
    return mklast(v, s2, go(_replace_level(cond, level, v)))


def mklast(v, src, cond):
    level = level_for(cond)
    closed = close(cond, v, level)
    if closed.lvl >= level:
        level = closed.lvl + 1
        closed = close(cond, v, level)
    return mk("last", level, src, closed)


def _rb_arg(t, go):
    level, which, src, key, res = t.args
    s2 = go(src)

    def fin(s2):
        v = fresh_bv(None, s2)
        return mkarg(v, which, s2, go(_replace_level(key, level, v)), go(_replace_level(res, level, v)))

    return lift(fin, s2)


def mklam(vs, body) -> Term:
    n = len(vs)
    base = level_for(body)
    closed = subst(body, {v: mk("bx", base + i) for i, v in enumerate(vs)})
    if closed.lvl >= base and closed.lvl != 0:
        base = closed.lvl + 1
        closed = subst(body, {v: mk("bx", base + i) for i, v in enumerate(vs)})
    return mk("lam", base, n, closed)


def apply_lam(t, args):
    base, n, body = t.args
    if len(args) != n:
        return mk("opaque", "arity")
    vs = [fresh_bv() for _ in range(n)]
    for i, v in enumerate(vs):
        body = _replace_level(body, base + i, v)
    return subst(body, dict(zip(vs, args)))


def _rb_lam(t, go):
    base, n, body = t.args
    vs = [fresh_bv() for _ in range(n)]
    for i, v in enumerate(vs):
        body = _replace_level(body, base + i, v)
    return mklam(vs, go(body))


def mkfold(v, acc, src, init, body) -> Term:
    l1 = level_for(body)
    closed = subst(body, {v: mk("bx", l1), acc: mk("bx", l1 + 1)})
    if closed.lvl >= l1 and closed.lvl != 0:
        l1 = closed.lvl + 1
        closed = subst(body, {v: mk("bx", l1), acc: mk("bx", l1 + 1)})
    return lift(lambda s, i: mk("fold", l1, l1 + 1, s, i, closed), src, init)


def _rb_fold(t, go):
    l1, l2, src, init, body = t.args
    v, acc = fresh_bv(), fresh_bv()
    b = _replace_level(_replace_level(body, l1, v), l2, acc)
    return mkfold(v, acc, go(src), go(init), go(b))


def _rb_str(t, go):
    return strcat(*[go(p) for p in t.args])


def _rb_fmt(t, go):
    return fmt(go(t.args[0]), t.args[1], t.args[2])


def _rb_item(t, go):
    return item(go(t.args[0]), go(t.args[1]))


def _rb_lifted(t, go):
    return lift(lambda *xs: mk(t.op, *xs), *[go(x) for x in t.args])


def _rb_raise(t, go):
    return lift(lambda *xs: mk("raise", t.args[0], tuple(xs)), *[go(x) for x in t.args[1]]) if t.args[1] else t


def _rb_strjoin(t, go):
    return strjoin(go(t.args[0]), go(t.args[1]))


def replaced(s, a, b):
    """str.replace; replacements of different characters that do not interact commute."""
    if s.op == "app" and s.args[0] == "str.replace" and all(x.op == "cstr" for x in (a, b, *s.args[1][1:])):
        inner, c, d = s.args[1]
        x, y, u, v = (t.args[0] for t in (a, b, c, d))
        if len(x) == len(u) == 1 and x != u and x not in v and u not in y and x < u:
            return app("str.replace", (replaced(inner, a, b), c, d))
    return app("str.replace", (s, a, b))


def strjoin(sep, s) -> Term:
    def go(sep, s):
        if s.op == "seq" and len(s.args[1]) == 1 and s.args[1][0].op == "sp":
            # joining the pieces between the occurrences of a text replaces the text
            src = s.args[1][0].args[0]
            if src.op == "app" and src.args[0] == "str.split" and len(src.args[1]) == 2 and src.args[1][1].op == "cstr" \
                    and src.args[1][1].args[0]:
                return replaced(*src.args[1], sep)
        es = seq_elements(s) if s.op == "seq" else None
        if es is not None:
            parts = []
            for i, e in enumerate(es):
                if i:
                    parts.append(sep)
                parts.append(fmt(e))
            return strcat(*parts) if parts else string("")
        if s.op == "seq" and sep.op == "cstr" and sep.args[0] == "":
            parts = []
            for g in s.args[1]:
                if g.op == "el":
                    parts.append(fmt(g.args[0]))
                else:
                    parts.append(mk("str", mk("strjoin", sep, seq("list", [g]))))
            return strcat(*parts)
        if s.op == "seq" and s.args[1][0].op == "el":
            # the separator precedes every element but the first
            head, rest = s.args[1][0], s.args[1][1:]
            parts = [fmt(head.args[0])]
            for g in rest:
                if g.op == "el":
                    parts += [sep, fmt(g.args[0])]
                else:
                    r = flatmap(seq("list", [g]), lambda x: seq_lift("list", [strcat(sep, fmt(x))]))
                    parts.append(strjoin(string(""), r))
            return strcat(*parts)
        return mk("str", mk("strjoin", sep, s))

    return lift(go, sep, s)


def _rb_call(t, go):
    f = go(t.args[0])
    args = tuple(go(x) for x in t.args[1])
    kw = tuple((k, go(v)) for k, v in t.args[2])
    return call_term(f, args, kw)


def call_term(f, args, kw=()):
    n = len(args)
    kn = tuple(k for k, _ in kw)

    def go(f, *xs):
        if f.op == "lam" and not kn and f.args[1] == n:
            return apply_lam(f, xs[:n])
        return mk("call", f, tuple(xs[:n]), tuple(zip(kn, xs[n:])))

    return lift(go, f, *args, *[v for _, v in kw])


_REBUILD = {
    "ite": _rb_ite, "for": _rb_for, "seq": _rb_seq, "set": _rb_set, "dict": _rb_dict, "poly": _rb_poly,
    "SUM": _rb_big, "PROD": _rb_big, "rec": _rb_rec, "app": _rb_app, "mcall": _rb_mcall, "attr": _rb_attr,
    "first": _rb_first, "arg": _rb_arg, "lam": _rb_lam, "fold": _rb_fold, "str": _rb_str, "fmt": _rb_fmt,
    "item": _rb_item, "strjoin": _rb_strjoin, "call": _rb_call, "last": _rb_last, "raise": _rb_raise,
    "eq": _rb_lifted, "lt": _rb_lifted,
}


# ---------------------------------------------------------------- printing
def show(t, depth=12) -> str:
    if not isinstance(t, Term):
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.args
    s = lambda x: show(x, d)
    if o == "num":
        return _numstr(t)
    if o == "cstr":
        return repr(a[0])
    if o == "bool":
        return str(a[0])
    if o == "none":
        return f"({s(a[0])} is None)" if a else "None"
    if o in ("sym", "cls", "ext", "mod", "fn"):
        return str(a[0])
    if o in ("bv", "rho"):
        return f"?{a[0]}"
    if o == "bx":
        return f"x{a[0]}"
    if o == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "poly":
        ts = []
        for m, c in a[0]:
            cs = _numstr(mk("num", *c))
            ms = "*".join(s(b) if e is ONE else f"{s(b)}^({s(e)})" for b, e in m)
            ts.append(ms if cs == "1" and ms else (f"-{ms}" if cs == "-1" and ms else (f"{cs}*{ms}" if ms else cs)))
        return "(" + " + ".join(ts) + ")"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "app":
        args = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
        return f"{a[0].split('.')[-1]}({', '.join(args)})"
    if o == "mcall":
        args = [s(x) for x in a[2]] + [f"{k}={s(v)}" for k, v in a[3]]
        return f"{s(a[1])}.{a[0]}({', '.join(args)})"
    if o == "call":
        return f"{s(a[0])}({', '.join([s(x) for x in a[1]] + [f'{k}={s(v)}' for k, v in a[2]])})"
    if o == "rec":
        return f"{a[0].split('.')[-1]}({', '.join(f'{n}={s(v)}' for n, v in a[1])})"
    if o == "seq":
        b = "()" if a[0] == "tuple" else "[]"
        return b[0] + ", ".join(s(x) for x in a[1]) + b[1]
    if o == "set":
        return "{" + ", ".join(s(x) for x in a[0]) + "}"
    if o == "dict":
        return "{" + ", ".join(s(x) for x in a[0]) + "}"
    if o == "el":
        return s(a[0])
    if o == "sp":
        return "*" + s(a[0])
    if o == "kv":
        return f"{s(a[0])}: {s(a[1])}"
    if o in ("for", "dfor"):
        return f"{s(a[2])} for x{a[0]} in {s(a[1])}"
    if o == "ex":
        return f"any({s(a[2])} for x{a[0]} in {s(a[1])})"
    if o == "first":
        return f"first(x{a[0]} in {s(a[1])} if {s(a[2])})"
    if o == "str":
        return "f" + repr("".join(p.args[0] if p.op == "cstr" else "{" + s(p) + "}" for p in a))
    if o == "fmt":
        return s(a[0]) + (":" + a[2] if a[2] else "")
    if o == "eq":
        return f"{s(a[0])} == {s(a[1])}"
    if o == "lt":
        return f"{s(a[0])} < {s(a[1])}"
    if o == "none":
        return f"{s(a[0])} is None"
    if o == "raise":
        return f"raise {a[0].split('.')[-1]}"
    return f"{o}({', '.join(s(x) if not isinstance(x, tuple) else '(' + ', '.join(show(y, d) if not isinstance(y, tuple) else str(y) for y in x) + ')' for x in a)})"
