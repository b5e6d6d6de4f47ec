"""Obligations: two functions analysed on the same abstract arguments must have the same value graph."""
from __future__ import annotations

import ast
import gc
import os
import pickle
import resource
import selectors
import signal
import sys
import time
import traceback
from pathlib import Path

from . import terms as T
from .compare import Comparer
from .config import Config
from .interp import Interp, Unsupported
from .project import Module, load_modules

sys.setrecursionlimit(30000)
VERIF = Path(__file__).resolve().parent.parent
SPECS = VERIF / "specs"
KNOWN = VERIF / "known_findings.txt"
SECONDS = int(os.environ.get("DPDSA_SECONDS", "200"))  # for one comparison
MEMORY = 3 << 30  # for one process


class Broken(Exception):
    """The analysis itself cannot give an answer (vanished anchor, unsupported construct)."""


class Engine:
    def __init__(self, src="/repo/src", package="ampform_dpd"):
        mods = load_modules(Path(src), package)
        for p in sorted(SPECS.glob("*.py")):
            name = "specs." + p.stem
            mods[name] = Module(name, str(p), ast.parse(p.read_text()), False, True)
        self.cfg = Config()
        self.it = Interp(mods, self.cfg)
        self.src = src

    def fn(self, path):
        if not isinstance(path, str):
            return path
        mod, _, name = path.rpartition(".")
        rest = []
        while mod and mod not in self.it.modules:
            mod, _, n = mod.rpartition(".")
            rest.insert(0, name)
            name = n
        if not mod:
            raise Broken(f"anchor {path} not found")
        t = self.it.lookup_module_attr(mod, name)
        if t is None:
            raise Broken(f"anchor {path} not found")
        return t

    def where_name(self, qual):
        owner = qual.rpartition(".")[0]
        t = self.fn(owner if owner not in self.it.modules else qual)
        fi = self.it.fn.get(qual)
        if fi is None:
            return self.where(t)
        return f"{self.it.modules[fi.module].path}:{fi.node.lineno}:{qual.split('.', 1)[-1]}"

    def where(self, t):
        fi = self.it.fn.get(t.args[0]) if t.op == "fn" else None
        if fi is None and t.op == "cls" and t.args[0] in self.it.cls:
            fi = self.it.cls[t.args[0]]
        if fi is None:
            return "?"
        return f"{self.it.modules[fi.module].path}:{fi.node.lineno}:{getattr(fi, 'name', t.args[0])}"


class Result:
    def __init__(self, value, eff, args, opaque):
        self.value, self.eff, self.args, self.opaque = value, eff, args, opaque
        self.changes, self.escaped, self.state, self.memo = [], [], None, {}


class Run:
    """One run of the check of a property."""

    def __init__(self, prop, tier="quick", src="/repo/src"):
        self.prop = prop
        self.tier = tier
        self.e = Engine(src)
        self.it = self.e.it
        self.cfg = self.e.cfg
        # attribute validation is decided by D01 and D05; other properties take it as given
        self.cfg.skip_validators = prop not in ("D01", "D05")
        self.violations = []
        self.known = []
        self.broken = []
        self.obligations = []
        self.sites = set()
        self.assume: list[str] = []
        self.findings = read_known()
        self.jobs = []
        self.siblings: dict = {}
        self.calls = 0

    # ------------------------------------------------------------ running
    def evaluate(self, f, args, kwargs=None, cuts=None, after=None):
        """Analyse a call; `after` is the result of an earlier call of which the lasting state is kept."""
        it = self.it
        f = self.e.fn(f)
        st = it.base.fork()
        st.eff = {}
        it.memo, it.escaped = {}, []
        if after is not None:
            st.heap = dict(after.state.heap)
            st.frames = {k: (dict(after.state.frames[k]) if k[0] == "glob" else v) for k, v in st.frames.items()}
            it.memo = {k: [(r, it.freeze(st, r)) for r, _ in v] for k, v in after.memo.items()}
        a = args(st) if callable(args) else list(args)
        k = dict(kwargs(st)) if callable(kwargs) else dict(kwargs or {})
        n0 = len(it.opaque_notes)
        old = dict(self.e.cfg.cuts)
        if cuts:
            self.e.cfg.cuts.update(cuts)
        try:
            from .interp import Ctx, Exits

            ex = Exits()
            v = self.call(st, f, a, k)
        finally:
            self.e.cfg.cuts = old
        fin = [it.freeze(st, x) for x in a] + [it.freeze(st, x) for _, x in sorted(k.items())]
        eff = dict(st.eff)
        res = Result(v, eff, fin, it.opaque_notes[n0:])
        res.changes = it.state_changes(st)
        res.escaped = list(it.escaped)
        res.state, res.memo = st, it.memo
        return res

    def call(self, st, f, a, k):
        it = self.it
        if f.op in ("fn", "clo"):
            return it.call_fn(st, f, a, k, None, capture_raise=True)
        # classes and callable objects
        from .interp import Ctx, Exits

        ex = Exits()
        cx = Ctx(it, "specs.angles", (("mod", "specs.angles"),), None, ex)
        v = it.call(st, cx, f, a, k)
        val = it.freeze(st, v, final=True) if st.live else T.UNDEF
        for pc, exc, _ in ex.raises:
            val = T.ite(pc, T.mk("raise", exc, ()), val)
        return val

    def attempt(self, *args, **kwargs):
        """-> ("equal"|"differ"|"unsupported", detail), within bounds on time and memory."""
        def stop(*_):
            raise T.TooComplex(f"not decided within {SECONDS} s")

        old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, SECONDS, 5)
        try:
            return self.attempt_unbounded(*args, **kwargs)
        except (T.TooComplex, MemoryError) as e:
            self.it.cur.clear()
            self.it.stack.clear()
            return "unsupported", f"{type(e).__name__}: {e}"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def attempt_unbounded(self, impl, spec, args, kwargs, cuts, erase, assume=None, strict_eff=True, after_calls=()):
        t0 = time.time()
        try:
            b = self.evaluate(spec, args, kwargs, cuts)
        except Exception as e:  # noqa: BLE001
            self.debug()
            return "unsupported", f"reference {spec}: {type(e).__name__}: {e}"
        try:
            a = self.evaluate(impl, args, kwargs, cuts)
        except Exception as e:  # noqa: BLE001
            self.debug()
            cur = self.it.cur[-1] if self.it.cur else ("?", "?", None)
            self.it.cur.clear()
            self.it.stack.clear()
            return "unsupported", f"{type(e).__name__}: {e} (at {self.last_site(cur)})"
        va, vb = a.value, b.value
        if assume is not None:
            va, vb = assume(va), assume(vb)
        va, vb = T.drop_undef(va) if va.op == "ite" else va, T.drop_undef(vb) if vb.op == "ite" else vb
        c = Comparer(erase, exc=self.exc, unordered=self.unordered)
        try:
            ok = c.equal(va, vb)
        except (T.TooComplex, RecursionError, AssertionError) as e:
            self.debug()
            return "unsupported", f"comparison: {type(e).__name__}: {e}"
        text = []
        if not ok:
            text = [d.text() + self.provenance(d) for d in c.diffs] or ["values differ"]
        # effects: mutation of arguments and warnings
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            cc = Comparer(False)
            if not cc.equal(x, y):
                ok = False
                text.append(f"argument {i} is modified: " + "; ".join(d.text() for d in cc.diffs))
        if strict_eff:
            ea = {k: v for k, v in a.eff.items() if v is not T.FALSE}
            eb = {k: v for k, v in b.eff.items() if v is not T.FALSE}
            if assume is not None:
                ea = {k: assume(v) for k, v in ea.items()}
                eb = {k: assume(v) for k, v in eb.items()}
                ea = {k: v for k, v in ea.items() if v is not T.FALSE}
                eb = {k: v for k, v in eb.items() if v is not T.FALSE}
            for k in sorted(set(ea) | set(eb), key=repr):
                if ea.get(k, T.FALSE) is not eb.get(k, T.FALSE):
                    ok = False
                    text.append(f"effect {' '.join(map(str, k))} happens when {T.show(ea.get(k, T.FALSE), 8)}"
                                f" but must when {T.show(eb.get(k, T.FALSE), 8)}")
        if a.changes and after_calls:
            v, t = self.history(impl, a, [(args, kwargs), *after_calls], cuts, erase, assume)
            if v == "unsupported" and ok:
                return v, t
            if v == "differ":
                ok = False
                text.append(t)
        if a.escaped and not b.escaped:
            ok = False
            text.append("the result gives access to state that later calls use: " + "; ".join(sorted(set(a.escaped))))
        if os.environ.get("DPDSA_TIME"):
            print(f"   [{time.time() - t0:.2f}s]", file=sys.stderr)
        if os.environ.get("DPDSA_RAISES") and vb.op == "raise":
            print("   RAISES", spec, T.show(vb, 3)[:100], [T.show(x, 3)[:60] for x in args] if not callable(args) else "")
        if ok:
            if vb.op == "opaque" or self.has_opaque(vb):
                return "unsupported", "the result is not resolved: " + T.show(vb, 6)[:200]
            return "equal", ""
        if self.has_opaque(va):
            return "unsupported", "a value is not resolved: " + self.opaque_text(a)
        rest = self.structural(va) - self.structural(vb)
        if rest:
            return "unsupported", "not modelled: " + ", ".join(sorted(rest))
        return "differ", "\n    ".join(text)

    def history(self, impl, first, calls, cuts, erase, assume):
        """Calls after `first` must give what they give without it."""
        what = "; ".join(first.changes[:3])
        n = 0
        for args, kwargs in calls[:9]:
            try:
                x = self.evaluate(impl, args, kwargs, cuts)
                y = self.evaluate(impl, args, kwargs, cuts, after=first)
            except Exception as e:  # noqa: BLE001
                self.debug()
                self.it.cur.clear()
                self.it.stack.clear()
                return "unsupported", f"{type(e).__name__}: {e} (second call; {what})"
            va, vb = y.value, x.value
            if assume is not None:
                va, vb = assume(va), assume(vb)
            va, vb = T.drop_undef(va) if va.op == "ite" else va, T.drop_undef(vb) if vb.op == "ite" else vb
            c = Comparer(erase, exc=self.exc, unordered=self.unordered)
            try:
                if not c.equal(va, vb):
                    return "differ", (f"the result of a later call depends on this one ({what}): "
                                      + "; ".join(d.text() for d in c.diffs))
            except (T.TooComplex, RecursionError, AssertionError) as e:
                return "unsupported", f"comparison of the second call: {type(e).__name__} ({what})"
            n += 1
        return "equal", ""

    def debug(self):
        if os.environ.get("DPDSA_DEBUG"):
            traceback.print_exc()

    def opaque_text(self, a):
        return "; ".join(f"{m}:{f}:{ln}: {w}" for m, f, ln, w in a.opaque[:3]) or "opaque"

    STRUCTURAL = ("itertools.", "functools.", "collections.", "operator.", "contextlib.", "copy.", "strmod", "str.format")

    def structural(self, t):
        """Functions of the standard library on structures that remain in a value."""
        seen, out = set(), set()
        stack = [t]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
            elif isinstance(x, T.Term) and x not in seen:
                seen.add(x)
                if x.op == "app" and x.args[0].startswith(self.STRUCTURAL):
                    out.add(x.args[0])
                stack.extend(x.args)
        return out

    def has_opaque(self, t):
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
            elif isinstance(x, T.Term):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "opaque":
                    return True
                stack.extend(x.args)
        return False

    def last_site(self, cur):
        return f"{cur[0]}:{cur[1]}"

    def provenance(self, d):
        for t in (d.a, *[x for x in d.a.args if isinstance(x, T.Term)]):
            p = self.it.loc.get(t)
            if p:
                return f"  [computed at {p[0]}:{p[1]}:{p[2]}]"
        return ""

    # ------------------------------------------------------------ obligations
    def same(self, label, impl, spec, args, kwargs=None, shapes=(), cuts=None, erase=True, known=(), assume=None,
             effects=True, exc="class", unordered=False, about=None):
        """`impl` and `spec` denote the same function of `args`.

        Decided on the given arguments; where these are too general for the value graphs
        to be compared, decided on each of the `shapes` instead.
        """
        name = impl if isinstance(impl, str) else T.show(impl)
        try:
            f = self.e.fn(impl)
        except Broken as e:
            self.broken.append(f"{label}: {e}")
            return
        try:
            where = self.e.where_name(about) if about else self.e.where(f)
        except Broken as e:
            self.broken.append(f"{label}: {e}")
            return
        self.sites.add(where)
        if isinstance(spec, str):
            try:
                self.e.fn(spec)
            except Broken:
                pass
        sib = self.siblings.setdefault(name, [])
        if args is not None:
            sib.append((args, kwargs))
        sib += [self.shape(sh, kwargs) for sh in shapes]
        self.jobs.append((dict(vars(self.cfg)), dict(T.SYM_TYPE), lambda: self.decide(
            label, impl, spec, args, kwargs, shapes, cuts, erase, known, assume, effects, exc, unordered, f, where, name)))

    @staticmethod
    def shape(sh, kwargs):
        return sh if isinstance(sh, tuple) and len(sh) == 2 and not isinstance(sh, list) else (sh, kwargs)

    def finish(self):
        """Decide the obligations that were collected, each in a process of its own."""
        n = int(os.environ.get("DPDSA_JOBS", "0")) or min(8, os.cpu_count() or 1)
        jobs, self.jobs = self.jobs, []
        todo = list(enumerate(jobs))
        size = max(1, len(todo) // (n * 12))
        batches = [todo[i:i + size] for i in range(0, len(todo), size)]
        if n == 1:
            for b in batches:
                self.merge(self.work(b))
            return
        batches.reverse()
        running, done = {}, {}
        sel = selectors.DefaultSelector()
        first = 0
        gc.freeze()
        while batches or running:
            while batches and len(running) < n:
                b = batches.pop()
                rd, wr = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                    try:
                        data = pickle.dumps(self.work(b))
                        with os.fdopen(wr, "wb") as fh:
                            fh.write(data)
                    finally:
                        os._exit(0)
                os.close(wr)
                running[rd] = (pid, first, [])
                first += 1
                sel.register(rd, selectors.EVENT_READ)
            for key, _ in sel.select():
                data = os.read(key.fd, 1 << 20)
                if data:
                    running[key.fd][2].append(data)
                    continue
                pid, k, chunks = running.pop(key.fd)
                sel.unregister(key.fd)
                os.close(key.fd)
                os.waitpid(pid, 0)
                done[k] = b"".join(chunks)
        for k in sorted(done):
            if not done[k]:
                self.broken.append("a process of the analysis was ended (memory)")
                continue
            self.merge(pickle.loads(done[k]))

    RESULTS = ("violations", "known", "broken", "obligations")

    def work(self, batch):
        before = {k: getattr(self, k) for k in self.RESULTS}
        for k in self.RESULTS:
            setattr(self, k, [])
        for _, (cfg, types, job) in batch:
            vars(self.cfg).update(cfg)
            T.SYM_TYPE.update(types)
            job()
        out = {k: getattr(self, k) for k in self.RESULTS}
        for k, v in before.items():
            setattr(self, k, v)
        out["functions"] = set(map(str, self.it.stats["functions"]))
        out["calls"] = self.it.stats["calls"]
        return out

    def merge(self, out):
        for k in self.RESULTS:
            getattr(self, k).extend(out[k])
        self.it.stats["functions"] |= out["functions"]
        self.calls += out["calls"]

    def decide(self, label, impl, spec, args, kwargs, shapes, cuts, erase, known, assume, effects, exc, unordered, f, where, name):
        self.exc, self.unordered = exc, unordered
        tiers = [args] if args is not None else []
        later = self.siblings[name]
        verdict, detail = self.attempt(f, spec, args, kwargs, cuts, erase, assume, effects, later) if tiers else ("unsupported", "")
        how = "unbounded"
        if shapes and (verdict != "equal" or self.tier == "thorough"):
            how = f"{len(shapes)} shapes"
            first = (verdict, detail)
            verdict = "equal"
            for i, sh in enumerate(shapes):
                sa, sk = self.shape(sh, kwargs)
                v, d = self.attempt(f, spec, sa, sk, cuts, erase, assume, effects, later)
                if v == "differ":
                    verdict, detail = v, f"(shape {i}) {d}"
                    break
                if v == "unsupported":
                    verdict, detail = v, f"(shape {i}) {d}; generic: {first[1]}"
            else:
                if first[0] == "equal":
                    how = f"unbounded and {len(shapes)} shapes"
                elif verdict == "equal" and os.environ.get("DPDSA_VERBOSE"):
                    print(f"  note {label}: generic comparison: {first[0]}: {first[1][:700]}")
        if verdict == "differ":
            for kid, variant in known:
                if kid not in self.findings:
                    continue
                v2, _ = self.attempt(f, variant, args, kwargs, cuts, erase, assume, effects, later)
                if v2 != "equal" and shapes:
                    v2 = "equal"
                    for sh in shapes:
                        sa, sk = self.shape(sh, kwargs)
                        if self.attempt(f, variant, sa, sk, cuts, erase, assume, effects, later)[0] != "equal":
                            v2 = "differ"
                            break
                if v2 == "equal":
                    self.known.append((kid, label))
                    verdict = "known"
                    break
        self.obligations.append((label, verdict, how, where))
        if verdict == "differ":
            self.violations.append((label, where, f"must denote the same function as {spec}", detail))
        elif verdict == "unsupported":
            self.broken.append(f"{label} ({name}): {detail}")

    def fact(self, label, ok, where, rule, detail=""):
        """A structural obligation that was decided by the caller."""
        self.sites.add(where)
        self.obligations.append((label, "equal" if ok else "differ", "structural", where))
        if not ok:
            self.violations.append((label, where, rule, detail))


def read_known():
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith("finding:"):
                _, kid, rest = line.split(None, 2)
                out[kid] = rest
    return out
