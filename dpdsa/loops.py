"""While loops: constant unrolling and arithmetic progressions."""

from __future__ import annotations

import ast

from . import terms as T
from .terms import AND, FALSE, NONE, NOT, ONE, OR, TRUE, UNDEF, ZERO, mk


def run_while(it, n, st, cx):
    from .interp import Exits, Unsupported

    test = n.test
    body = n.body
    if isinstance(test, ast.Constant) and test.value and body and isinstance(body[0], ast.If) and not body[0].orelse \
            and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break):
        test = ast.copy_location(ast.UnaryOp(ast.Not(), body[0].test), body[0])
        body = body[1:]
    drained = draining(test, body)
    if drained is not None and not n.orelse:
        name, target, rest, back = drained
        return drain(it, name, target, rest, back, st, cx)
    broken = []
    for i in range(65):
        c = it.decide(st, it.truth(test, st, cx))
        if c is FALSE or not st.live:
            break
        if c is not TRUE:
            if i == 0 or True:
                progression(it, n, test, body, st, cx)
                break
        if i == 64:
            raise Unsupported("while loop with many iterations")

        def run(s, elem, c2):
            it.block(body, s, c2)

        it.run_once(st, cx, run, NONE, broken)
        if not st.live:
            break
    if n.orelse and st.live:
        it.block(n.orelse, st, cx)
    if broken:
        it.merge(st, [s for _, s in broken] + [st.fork()])


def draining(test, body):
    """while items: x = items.pop(0); ...   (nothing else touches the items)"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
            and test.comparators[0].value == 0 and isinstance(test.ops[0], (ast.Gt, ast.NotEq)):
        test = test.left
        if not (isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "len" and len(test.args) == 1):
            return None
        test = test.args[0]
    if not isinstance(test, ast.Name) or not body or not isinstance(body[0], ast.Assign) or len(body[0].targets) != 1:
        return None
    call = body[0].value
    if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and not call.keywords
            and isinstance(call.func.value, ast.Name) and call.func.value.id == test.id):
        return None
    values = [a.value for a in call.args if isinstance(a, ast.Constant)]
    if call.func.attr == "popleft" and not call.args or call.func.attr == "pop" and values == [0] and len(call.args) == 1:
        back = False
    elif call.func.attr == "pop" and not call.args:
        back = True
    else:
        return None
    for b in [*body[1:], body[0].targets[0]]:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and x.id == test.id or isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)):
                return None
    return test, body[0].targets[0], body[1:], back


def drain(it, name, target, rest, back, st, cx):
    from .interp import Unsupported

    items = it.ev(name, st, cx)
    if items.op != "ref" or st.heap[items][0] not in ("list", "deque"):
        raise Unsupported("while loop over a container that is emptied")
    kind, cur = st.heap[items][0], st.heap[items][1]

    def run(s, elem, c):
        it.assign(target, elem, s, c)
        it.block(rest, s, c)

    src = it.new_list(st, it.models.rev(cur) if back else cur)
    st.heap[items] = (kind, mk("used", cur), *st.heap[items][2:])
    it.loop(src, st, cx, run)
    if st.live:
        if st.heap[items][1] is not mk("used", cur):
            raise Unsupported("while loop over a container that is changed")
        st.heap[items] = (kind, T.seq("list", []), *st.heap[items][2:])


def progression(it, n, test, body, st, cx):
    """while v < stop: ...; v += step   ->   a loop over an arithmetic progression"""
    from .interp import Exits, Unsupported

    # one abstract iteration to find the stepped variable
    names = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)}
    assigned = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    cand = sorted(names & assigned)
    if len(cand) != 1:
        raise Unsupported("while loop without a single stepped variable")
    var = cand[0]
    fid = cx.frames[0]
    if var not in st.frames[fid]:
        raise Unsupported("while loop over a non-local variable")
    init = st.frames[fid][var]
    rho = T.fresh_rho(("num",))
    probe = st.fork()
    probe.ctx, probe.pc = it.full(st), TRUE
    probe.frames[fid][var] = rho
    cond = it.truth(test, probe, cx)
    ex = Exits()
    c2 = cx.with_ex(ex)
    it.block(body, probe, c2)
    outs = [s for _, s in ex.continues]
    if outs:
        it.merge(probe, outs + [probe.fork()])
    if not probe.live:
        raise Unsupported("while loop that runs at most once")
    new = probe.frames[fid][var]
    step = T.sub(new, rho)
    if step.fv & rho.fv or step.op == "ite":
        raise Unsupported("while loop with irregular steps")
    # the condition must be a comparison of the variable with an invariant bound
    probe_key = mk("sym", "<progression>")
    shape = T.subst(cond, {rho: probe_key})
    src = mk("app", "arange", (it.freeze(st, init), step, shape), ())
    it.stats["loops"] += 1

    def run(s, elem, c):
        s.frames[fid][var] = elem
        it.block(body, s, c)
        if s.live:
            s.frames[fid][var] = T.add(elem, step) if False else mk("app", "arange_item", (), ())

    broken = []
    it.loop_segments([mk("sp", src)], st, cx, run)
    if st.live:
        st.frames[fid][var] = mk("app", "arange_end", (src,), ())
