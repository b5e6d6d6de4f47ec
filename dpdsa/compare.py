"""Equality of two value graphs, up to arithmetic normal form, and a description of a difference."""
from __future__ import annotations
from . import terms as T
from .terms import Term


class Diff:
    def __init__(self, cond, path, a, b):
        self.cond, self.path, self.a, self.b = cond, path, a, b

    def text(self):
        c = " and ".join(("" if v else "not ") + "(" + T.show(x, 8) + ")" for x, v in self.cond) or "always"
        p = "".join(self.path) or "result"
        return f"when {c}: {p} is {T.show(self.a, 10)[:600]} but must be {T.show(self.b, 10)[:600]}"


NUMERIC = {"poly", "num", "app", "attr", "item", "sym", "bv", "bx", "SUM", "PROD", "mcall", "call", "fold", "first"}


class Comparer:
    def __init__(self, erase_kind=True, limit=3, exc="class", unordered=False):
        self.exc = exc
        self.unordered = unordered
        self.erase_kind = erase_kind
        self.memo = {}
        self.active = []
        self.diffs = []
        self.limit = limit

    def equal(self, a, b, cond=(), path=()):
        if a is b:
            return True
        k = (a, b, tuple(v for v, val in cond if val and v.op in ("eq", "none")))
        if k in self.memo:
            return self.memo[k]
        n0 = len(self.diffs)
        r = self._eq(a, b, cond, path)
        if not r and a.op not in PARTS and b.op not in PARTS and k[2]:
            # use the equalities that are assumed on this path
            m = equalities(k[2])
            if m:
                a2, b2 = T.subst(a, m), T.subst(b, m)
                if (a2 is not a or b2 is not b) and (a2, b2, m.keys()) not in self.active:
                    keep = self.diffs[n0:]
                    del self.diffs[n0:]
                    self.active.append((a2, b2, m.keys()))
                    r = self.equal(a2, b2, tuple((v, x) for v, x in cond if not (x and v.op in ("eq", "none"))), path)
                    self.active.pop()
                    if not r and keep:
                        self.diffs[n0:] = keep
        if not r and len(self.diffs) == n0 and len(self.diffs) < self.limit:
            self.diffs.append(Diff(cond, path, a, b))
        self.memo[k] = r
        return r

    def _eq(self, a, b, cond, path):
        if a.op == "ite" or b.op == "ite":
            v = T._min_top((a, b))
            h = self.equal(T.assume(T._cof(a, v, True), v, True), T.assume(T._cof(b, v, True), v, True),
                           cond + ((v, True),), path)
            if not h and len(self.diffs) >= self.limit:
                return False
            l = self.equal(T.assume(T._cof(a, v, False), v, False), T.assume(T._cof(b, v, False), v, False),
                           cond + ((v, False),), path)
            return h and l
        if a.op == "raise" and b.op == "raise":
            return self.exc == "any" or exc_class(a) == exc_class(b)
        if a.op == b.op:
            n0 = len(self.diffs)
            if self._struct(a, b, cond, path):
                return True
            if a.op in ("seq", "rec", "dict", "set", "lam"):
                return False
            keep = self.diffs[n0:]
            del self.diffs[n0:]
            if a.op in NUMERIC and T.poly_equal(a, b):
                return True
            if a.op not in ("poly",):
                self.diffs.extend(keep)
            return False
        if a.op in NUMERIC and b.op in NUMERIC and (a.op in ("poly", "num") or b.op in ("poly", "num")):
            return T.poly_equal(a, b)
        return False

    def _args(self, xs, ys, cond, path):
        if isinstance(xs, Term) and isinstance(ys, Term):
            return self.equal(xs, ys, cond, path)
        if isinstance(xs, tuple) and isinstance(ys, tuple):
            if len(xs) != len(ys):
                return False
            ok = True
            for i, (x, y) in enumerate(zip(xs, ys)):
                if not self._args(x, y, cond, path):
                    ok = False
                    if len(self.diffs) >= self.limit:
                        return False
            return ok
        return xs == ys and type(xs) is type(ys)

    def _struct(self, a, b, cond, path):
        op = a.op
        if op == "seq":
            if not self.erase_kind and a.args[0] != b.args[0]:
                return False
            xs, ys = a.args[1], b.args[1]
            if len(xs) != len(ys):
                xs, ys = ([x for x in z if not without_elements(x, cond)] for z in (xs, ys))
            if len(xs) != len(ys):
                return False
            ok = True
            for i, (x, y) in enumerate(zip(xs, ys)):
                if not self.equal(x, y, cond, path + (f"[{i}]",)):
                    ok = False
            return ok
        if op in ("el", "sp"):
            return self.equal(a.args[0], b.args[0], cond, path)
        if op == "rec":
            if a.args[0] != b.args[0] or [n for n, _ in a.args[1]] != [n for n, _ in b.args[1]]:
                return False
            ok = True
            for (n, x), (_, y) in zip(a.args[1], b.args[1]):
                if not self.equal(x, y, cond, path + ("." + n,)):
                    ok = False
            return ok
        if op == "dict":
            return self._dict(a, b, cond, path)
        if op == "set":
            return self._args(a.args[0], b.args[0], cond, path)
        if op in ("for", "dfor"):
            if not self.equal(a.args[1], b.args[1], cond, path + ("<source>",)):
                return False
            n0 = len(self.diffs)
            x, y = a.args[2], b.args[2]
            if a.args[0] != b.args[0]:
                # align the binder levels
                v = T.fresh_bv()
                x, y = T._replace_level(x, a.args[0], v), T._replace_level(y, b.args[0], v)
            if self.equal(x, y, cond, path + ("<each>",)):
                return True
            # conditions that are known to hold for none of the elements
            m, none = excluded(a.args[1], cond)
            if none is T.FALSE:
                return False
            x, y = (T.ite(none, T.UNDEF, T._replace_level(t.args[2], t.args[0], m)) for t in (a, b))
            keep = self.diffs[n0:]
            del self.diffs[n0:]
            if self.equal(x, y, cond, path + ("<each>",)):
                return True
            if len(self.diffs) == n0:
                self.diffs.extend(keep)
            return False
        if op == "app":
            if a.args[0] != b.args[0]:
                return False
            nm = a.args[0].split(".")[-1].split(":")[-1]
            if len(a.args[1]) != len(b.args[1]):
                return False
            ok = True
            for i, (x, y) in enumerate(zip(a.args[1], b.args[1])):
                if not self._args(x, y, cond, path + (f"<{nm}#{i}>",)):
                    ok = False
            if [k for k, _ in a.args[2]] != [k for k, _ in b.args[2]]:
                return False
            for (k, x), (_, y) in zip(a.args[2], b.args[2]):
                if not self._args(x, y, cond, path + (f"<{nm}.{k}>",)):
                    ok = False
            return ok
        if op == "poly":
            return T.poly_equal(a, b)
        return self._args(a.args, b.args, cond, path)

    def _entries(self, a, b, cond, path):
        """Do the mappings have the same entries, whatever the order in which these are inserted?"""
        pa, pb = pieces(a), pieces(b)
        if pa is None or pb is None:
            return False
        ra = {k: c for k, c in pa.items() if pb.get(k) is not c}
        rb = {k: c for k, c in pb.items() if pa.get(k) is not c}
        if len(ra) != len(rb):
            return False
        for x, c in ra.items():
            for y, d in rb.items():
                sub = Comparer(self.erase_kind, 1, self.exc, True)
                if (c is d or sub.equal(c, d)) and x.op == y.op and sub._dict_ordered(T.mk("dict", (x,)), T.mk("dict", (y,)), cond, path):
                    del rb[y]
                    break
            else:
                return False
        return True

    def _dict(self, a, b, cond, path):
        if not self.unordered:
            return self._dict_ordered(a, b, cond, path)
        n0 = len(self.diffs)
        if self._dict_ordered(a, b, cond, path):
            return True
        keep = self.diffs[n0:]
        del self.diffs[n0:]
        if (len(a.args[0]) > 1 or len(b.args[0]) > 1 or any(s.op == "dfor" for s in a.args[0])) and self._entries(a, b, cond, path):
            return True
        self.diffs[n0:] = keep
        return False

    def _dict_ordered(self, a, b, cond, path):
        xs, ys = list(a.args[0]), list(b.args[0])
        if len(xs) != len(ys):
            ka = {s.args[0] for s in xs if s.op == "kv"}
            kb = {s.args[0] for s in ys if s.op == "kv"}
            for s in xs:
                if s.op == "kv" and s.args[0] not in kb and kb:
                    self.diffs.append(Diff(cond, path + (f"[{T.show(s.args[0])}]",), s.args[1], T.UNDEF))
                    break
            for s in ys:
                if s.op == "kv" and s.args[0] not in ka and ka:
                    self.diffs.append(Diff(cond, path + (f"[{T.show(s.args[0])}]",), T.UNDEF, s.args[1]))
                    break
            return False
        # order is irrelevant where all keys are known to be distinct
        if all(s.op == "kv" for s in xs) and all(s.op == "kv" for s in ys):
            db = {s.args[0]: s.args[1] for s in ys}
            if len(db) == len(ys) and all(s.args[0] in db for s in xs):
                ok = True
                for s in xs:
                    if not self.equal(s.args[1], db[s.args[0]], cond, path + (f"[{T.show(s.args[0])}]",)):
                        ok = False
                return ok
        ok = True
        for x, y in zip(xs, ys):
            if x.op != y.op:
                return False
            if x.op == "kv":
                ok = self.equal(x.args[0], y.args[0], cond, path + ("<key>",)) and ok
                ok = self.equal(x.args[1], y.args[1], cond, path + (f"[{T.show(x.args[0], 5)}]",)) and ok
            else:
                ok = self.equal(x, y, cond, path) and ok
        return ok


def pieces(d):
    """Independent insertions of which a mapping consists, with the conditions on which they are made."""
    out = {}

    def add(p, c):
        out[p] = T.OR(out[p], c) if p in out else c

    def go(t, c, wrap):
        if c is T.FALSE:
            return True
        if t.op == "ite":
            v = T._min_top((t,))
            if v is None:
                return False
            a = T.atom(v)
            return (go(T._cof(t, v, True), T.AND(c, a), wrap) and go(T._cof(t, v, False), T.AND(c, T.NOT(a)), wrap))
        if t.op != "dict":
            return False
        for s in t.args[0]:
            if s.op == "sp" and s.args[0].op in ("ite", "dict"):
                if not go(s.args[0], c, wrap):
                    return False
            elif s.op == "dfor":
                inner = pieces(s.args[2])
                if inner is None:
                    return False
                for p, q in inner.items():
                    add(T.mk("dfor", s.args[0], s.args[1], T.ite(q, T.mk("dict", (p,)), T.mk("dict", ()))), c)
            else:
                add(s, c)
        return True

    return out if go(d, T.TRUE, None) else None


def excluded(src, cond):
    """An element of `src` and the condition of which it is known that it holds for none of them."""
    m = T.fresh_bv(T.HOOKS["elem_type"](src), src)
    none = [T._replace_level(w.args[2], w.args[0], m) for w, val in cond if w.op == "ex" and not val and w.args[1] is src]
    return m, T.OR(*none, T.NOT(T.member(m, src)))


def without_elements(seg, cond):
    """Is it known that this part of a sequence is empty?"""
    if seg.op != "for":
        return False
    m, none = excluded(seg.args[1], cond)
    body = T.ite(none, T.UNDEF, T._replace_level(seg.args[2], seg.args[0], m))
    return all(x is T.UNDEF or x.op == "seq" and all(without_elements(y, cond) for y in x.args[1]) for x in T.leafset(body))


PARTS = {"ite", "el", "sp", "for", "dfor", "kv"}
GROUND = {"num", "cstr", "none", "bool", "cls", "ext", "fn"}


def ground(t):
    if t.op in GROUND:
        return True
    if t.op == "set":
        return all(s.op == "el" and ground(s.args[0]) for s in t.args[0])
    return t.op == "seq" and all(s.op == "el" and ground(s.args[0]) for s in t.args[1])


def equalities(atoms):
    """Substitution that follows from equations between a value and a constant."""
    m = {}
    for v in atoms:
        if v.op == "none":
            m[v.args[0]] = T.NONE
            continue
        x, y = v.args
        if x.op == "poly" and y is T.ZERO:
            # c*base + c0 == 0
            p = T.to_poly(x)
            lin = [mono for mono in p if len(mono) == 1 and mono[0][1] is T.ONE]
            if len(lin) == 1 and all(mono == () or mono is lin[0] for mono in p):
                c0 = p.get((), (0, 0))
                m[lin[0][0][0]] = T._mul2(T.mk("num", *c0), T._mul2(T.MINUS_ONE, T._pow2(T.mk("num", *p[lin[0]]), T.MINUS_ONE))) if c0 != (0, 0) else T.ZERO
        elif ground(y) and not ground(x):
            m[x] = y
        elif ground(x) and not ground(y):
            m[y] = x
    return m


def exc_class(t):
    return t.args[0].split(":")[-1].split(".")[-1]


def compare(a, b, erase_kind=True, limit=3):
    c = Comparer(erase_kind, limit)
    return c.equal(a, b), c.diffs
